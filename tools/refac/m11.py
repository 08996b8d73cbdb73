F='output/store.py'
ref('t_d2s_join',F,("    out_string = ''\n    for key, value in in_dict.iteritems():\n        out_string += key + ':' + str(value) + ';'\n        if type(value) is str:\n            out_string += 'str,'\n        elif type(value) is float:\n            out_string += 'float,'\n        elif type(value) is int:\n            out_string += 'int,'\n        else:\n            raise TypeError('%s has the unsupported type %s' % (value, type(value)))\n    return out_string[:-1]","    names = {str: 'str', float: 'float', int: 'int'}\n    parts = []\n    for key, value in in_dict.items():\n        if type(value) not in names:\n            raise TypeError('%s has the unsupported type %s' % (value, type(value)))\n        parts.append('%s:%s;%s' % (key, value, names[type(value)]))\n    return ','.join(parts)"))
ref('t_s2d_parse',F,("        key = entry.split(':')[0]\n        value = entry.split(':')[1].split(';')[0]\n        typ = entry.split(';')[1]\n        if typ == 'str':\n            out_dict[key] = value\n        elif typ == 'int':\n            out_dict[key] = int(value)\n        elif typ == 'float':\n            out_dict[key] = float(value)\n        else:\n            raise TypeError('%s has the unsupported type %s' % (value, typ))\n","        pair, typ = entry.split(';')[:2]\n        key, value = pair.split(':')[:2]\n        if typ not in converters:\n            raise TypeError('%s has the unsupported type %s' % (value, typ))\n        out_dict[key] = converters[typ](value)\n"),("    keys_values = in_string.split(',')\n","    converters = {'str': str, 'int': int, 'float': float}\n    keys_values = in_string.split(',')\n"))
ref('t_mode',F,("    if append:\n        file_opt = 'a'\n    else:\n        file_opt = 'w'\n    with h5py.File(file_path, file_opt) as file_:\n        if overwrite","    with h5py.File(file_path, 'a' if append else 'w') as file_:\n        if overwrite"))
ref('t_attr_helper',F,("        group.attrs['name'] = spectrum.get_name()\n        group.attrs['background_name'] = spectrum.get_background_name()\n        group.attrs['config_name'] = spectrum.get_config().get_name()\n        group.attrs['config'] = json.dumps(spectrum.get_config().dump())\n        if spectrum.get_fit_config():\n            group.attrs['fit_config_name'] = spectrum.get_fit_config().get_name()\n            group.attrs['fit_config'] = json.dumps(spectrum.get_fit_config().dump())\n","        group.attrs['name'] = spectrum.get_name()\n        group.attrs['background_name'] = spectrum.get_background_name()\n        _dump_config(group, spectrum.get_config(), 'config')\n        if spectrum.get_fit_config():\n            _dump_config(group, spectrum.get_fit_config(), 'fit_config')\n"),("def dump_ndarray","def _dump_config(group, config, key):\n    group.attrs[key + '_name'] = config.get_name()\n    group.attrs[key] = json.dumps(config.dump())\n\ndef dump_ndarray"))
ref('t_style',F,("        if len(spectrum.get_style()) == 0:\n            group.attrs['style'] = ''\n        else:\n            group.attrs['style'] = json.dumps(spectrum.get_style())\n        if len(spectrum._rois) == 0:\n            group.attrs['rois'] = ''\n        else:\n            group.attrs['rois'] = json.dumps(spectrum._rois)\n","        for key, value in (('style', spectrum.get_style()), ('rois', spectrum._rois)):\n            group.attrs[key] = json.dumps(value) if len(value) > 0 else ''\n"))
ref('t_style2',F,("        if len(spectrum.get_style()) == 0:\n            group.attrs['style'] = ''\n        else:\n            group.attrs['style'] = json.dumps(spectrum.get_style())\n","        style = spectrum.get_style()\n        group.attrs['style'] = json.dumps(style) if style else ''\n"))
ref('t_load_in',F,("            try:\n                background_name = group.attrs['background_name']\n            except:\n                background_name = None\n","            background_name = None\n            if 'background_name' in group.attrs:\n                background_name = group.attrs['background_name']\n"))
ref('t_load_get',F,("            try:\n                background_name = group.attrs['background_name']\n            except:\n                background_name = None\n","            background_name = group.attrs.get('background_name', None)\n"),("            try:\n                spec._bipo = group.attrs['bipo']\n            except KeyError as detail:\n                _logger.warning('Handling run-time error: %s' % detail)\n                logging.getLogger('extra').warning(' --> setting to 0')\n                spec._bipo = 0\n","            spec._bipo = group.attrs.get('bipo', 0)\n"))
ref('t_load_split',F,("        with h5py.File(file_path, 'r') as file_:\n            group = file_[group_name]\n            spec_name","        with h5py.File(file_path, 'r') as file_:\n            attrs = file_[group_name].attrs\n            group = file_[group_name]\n            spec_name"),("            num_decays = group.attrs['num_decays']\n            config_name = group.attrs['config_name']\n","            num_decays = attrs['num_decays']\n            config_name = attrs['config_name']\n"))
ref('t_load_fit',F,("            try:\n                fit_config_name = group.attrs['fit_config_name']\n                fit_config = SpectraFitConfig.load(json.loads(group.attrs['fit_config'], object_pairs_hook=OrderedDict), spectra_name=spec_name, name=fit_config_name)\n            except KeyError as detail:\n                _logger.warning('Handling run-time error: %s' % detail)\n                logging.getLogger('extra').warning(' --> setting to None')\n                fit_config = None\n","            fit_config = _load_fit_config(group, spec_name)\n"),("def _load_old","def _load_fit_config(group, spec_name):\n    try:\n        name = group.attrs['fit_config_name']\n        content = json.loads(group.attrs['fit_config'], object_pairs_hook=OrderedDict)\n        return SpectraFitConfig.load(content, spectra_name=spec_name, name=name)\n    except KeyError as detail:\n        _logger.warning('Handling run-time error: %s' % detail)\n        return None\n\ndef _load_old"))
ref('t_jsonh',F,("        global_config = json.loads(group.attrs['fit_config'], object_pairs_hook=OrderedDict)[0]\n        spectral_config = json.loads(group.attrs['fit_config'], object_pairs_hook=OrderedDict)[1]\n","        global_config, spectral_config = json.loads(group.attrs['fit_config'], object_pairs_hook=OrderedDict)\n"))
ref('t_fitconf_helper',F,("        fit_config_name = group.attrs['fit_config_name']\n        global_config = json.loads(group.attrs['fit_config'], object_pairs_hook=OrderedDict)[0]\n        spectral_config = json.loads(group.attrs['fit_config'], object_pairs_hook=OrderedDict)[1]\n        if spectral_config['spectral_fit_parameters']:\n            fit_config = GlobalFitConfig.load(global_config, spectral_config=spectral_config, name=fit_config_name)\n        else:\n            fit_config = GlobalFitConfig.load(global_config, name=fit_config_name)\n        stats","        fit_config_name = group.attrs['fit_config_name']\n        fit_config = _read_fit_config(group, fit_config_name)\n        stats"),("        fit_config_name = group.attrs['fit_config_name']\n        global_config = json.loads(group.attrs['fit_config'], object_pairs_hook=OrderedDict)[0]\n        spectral_config = json.loads(group.attrs['fit_config'], object_pairs_hook=OrderedDict)[1]\n        if spectral_config['spectral_fit_parameters']:\n            fit_config = GlobalFitConfig.load(global_config, spectral_config=spectral_config, name=fit_config_name)\n        else:\n            fit_config = GlobalFitConfig.load(global_config, name=fit_config_name)\n        limit_config","        fit_config_name = group.attrs['fit_config_name']\n        fit_config = _read_fit_config(group, fit_config_name)\n        limit_config"),("def load_fit_results","def _read_fit_config(group, name):\n    configs = json.loads(group.attrs['fit_config'], object_pairs_hook=OrderedDict)\n    spectral = configs[1] if configs[1]['spectral_fit_parameters'] else None\n    return GlobalFitConfig.load(configs[0], spectral_config=spectral, name=name)\n\ndef load_fit_results"))
ref('t_perbin',F,("        if stats.shape == fit_config.get_shape():\n            per_bin = False\n        elif stats.shape == fit_config.get_shape() + spectra_config.get_shape():\n            per_bin = True\n        else:\n            raise ValueError('Stats shape inconsitent with fit_config and/or spectra_config shape.')\n","        fit_shape = fit_config.get_shape()\n        per_bin = stats.shape != fit_shape\n        if per_bin and stats.shape != fit_shape + spectra_config.get_shape():\n            raise ValueError('Stats shape inconsitent with fit_config and/or spectra_config shape.')\n"))
ref('t_zip_fits',F,("            for i in range(len(limit_results._stats)):\n                sub_group_name = group_name + '/' + str(i)\n                sub_group = file_[sub_group_name]\n","            for i in range(limit_results._stats.shape[0]):\n                sub_group = group[str(i)]\n"))
ref('t_isinst',F,("                if type(fit_result) is GridSearch:","                if isinstance(fit_result, GridSearch):"))
ref('t_nd',F,("            if attribute is None:\n                continue\n            elif type(attribute).__name__ == 'ndarray':","            if attribute is None:\n                continue\n            if isinstance(attribute, numpy.ndarray):"))
ref('t_old',F,("                [_, par, val] = v.split(':')\n                if par not in parameters:\n                    parameters[str(par)] = SpectraParameter(par, 1.0, 1.0, 1)\n                parameters[str(par)].set_par(**{val: float(file_.attrs[v])})\n","                fields = v.split(':')\n                par, val = fields[1], fields[2]\n                parameter = parameters.setdefault(str(par), SpectraParameter(par, 1.0, 1.0, 1))\n                parameter.set_par(**{val: float(file_.attrs[v])})\n"))
ref('t_old2',F,("                [_, par, val] = v.split(':')\n                if par not in parameters:\n                    parameters[str(par)] = SpectraParameter(par, 1.0, 1.0, 1)\n                parameters[str(par)].set_par(**{val: float(file_.attrs[v])})\n","                par, val = v.split(':')[1:]\n                par = str(par)\n                if par not in parameters:\n                    parameters[par] = SpectraParameter(par, 1.0, 1.0, 1)\n                parameter = parameters[par]\n                parameter.set_par(**{val: float(file_.attrs[v])})\n"))
