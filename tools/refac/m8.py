import subprocess
F='core/config.py'
ref('c_index_list',F,("        for i, p in enumerate(self.get_pars()):\n            if p == parameter:\n                return i\n        raise IndexError('Unknown parameter %s' % parameter)","        pars = list(self.get_pars())\n        if parameter not in pars:\n            raise IndexError('Unknown parameter %s' % parameter)\n        return pars.index(parameter)"))
ref('c_index_try',F,("        for i, p in enumerate(self.get_pars()):\n            if p == parameter:\n                return i\n        raise IndexError('Unknown parameter %s' % parameter)","        try:\n            return list(self.get_pars()).index(parameter)\n        except ValueError:\n            raise IndexError('Unknown parameter %s' % parameter)"))
ref('c_shape',F,("        return tuple([self.get_par(par).get_bins() for par in self.get_pars()])","        shape = ()\n        for par in self.get_pars():\n            shape += (self.get_par(par)._bins,)\n        return shape"))
ref('c_dims',F,("            par = par.split('_')[:-1]\n            dim = ''\n            for entry in par:\n                dim += entry + '_'\n            dims.append(dim[:-1])\n","            dims.append(self.get_dim(par))\n"),("        dim = ''\n        for entry in par.split('_')[:-1]:\n            dim += entry + '_'\n        return dim[:-1]","        return '_'.join(par.split('_')[:-1])"),("            par_split = par.split('_')[:-1]\n            cur_dim = ''\n            for entry in par_split:\n                cur_dim += entry + '_'\n            if cur_dim[:-1] == dim:\n                return str(par.split('_')[-1])\n","            if self.get_dim(par) == dim:\n                return str(par.split('_')[-1])\n"))
ref('c_dims_rfind',F,("        dim = ''\n        for entry in par.split('_')[:-1]:\n            dim += entry + '_'\n        return dim[:-1]","        return par[:max(par.rfind('_'), 0)]"))
ref('c_dimtype_rsplit',F,("            par_split = par.split('_')[:-1]\n            cur_dim = ''\n            for entry in par_split:\n                cur_dim += entry + '_'\n            if cur_dim[:-1] == dim:\n                return str(par.split('_')[-1])\n","            parts = par.rsplit('_', 1)\n            if len(parts) == 2 and parts[0] == dim:\n                return str(parts[1])\n            if len(parts) == 1 and dim == '':\n                return str(par)\n"))
ref('c_pars_comp',F,("        pars = []\n        for name in self._parameters:\n            if self._parameters[name]['type'] == 'global':\n                pars.append(self._parameters[name]['par'])\n        return pars","        return self._select('global')"),("        pars = []\n        for name in self._parameters:\n            if self._parameters[name]['type'] == 'spectra':\n                pars.append(self._parameters[name]['par'])\n        return pars","        return self._select('spectra')\n\n    def _select(self, par_type):\n        return [entry['par'] for entry in self._parameters.values() if entry['type'] == par_type]"))
ref('c_load_table',F,("                if syst == 'resolution' or syst == 'resolution_ly':\n                    parameters[par_name] = {'par': ResolutionParameter(par_name, dimension=dim, **global_config[main_key][dim][syst]), 'type': 'global'}\n                elif syst == 'shift':\n                    parameters[par_name] = {'par': ShiftParameter(par_name, dimension=dim, **global_config[main_key][dim][syst]), 'type': 'global'}\n                elif syst == 'scale':\n                    parameters[par_name] = {'par': ScaleParameter(par_name, dimension=dim, **global_config[main_key][dim][syst]), 'type': 'global'}\n                else:\n                    raise IndexError('%s is not a valid global fit parameter.' % syst)\n",
"                if syst not in kinds:\n                    raise IndexError('%s is not a valid global fit parameter.' % syst)\n                par = kinds[syst](par_name, dimension=dim, **global_config[main_key][dim][syst])\n                parameters[par_name] = {'par': par, 'type': 'global'}\n"),("        for dim in global_config[main_key]:\n","        kinds = {'resolution': ResolutionParameter, 'resolution_ly': ResolutionParameter, 'shift': ShiftParameter, 'scale': ScaleParameter}\n        for dim in global_config[main_key]:\n"))
ref('c_load_helper',F,("                if syst == 'resolution' or syst == 'resolution_ly':\n                    parameters[par_name] = {'par': ResolutionParameter(par_name, dimension=dim, **global_config[main_key][dim][syst]), 'type': 'global'}\n                elif syst == 'shift':\n                    parameters[par_name] = {'par': ShiftParameter(par_name, dimension=dim, **global_config[main_key][dim][syst]), 'type': 'global'}\n                elif syst == 'scale':\n                    parameters[par_name] = {'par': ScaleParameter(par_name, dimension=dim, **global_config[main_key][dim][syst]), 'type': 'global'}\n                else:\n                    raise IndexError('%s is not a valid global fit parameter.' % syst)\n",
"                options = global_config[main_key][dim][syst]\n                if syst in ('resolution', 'resolution_ly'):\n                    par = ResolutionParameter(par_name, dimension=dim, **options)\n                elif syst == 'shift':\n                    par = ShiftParameter(par_name, dimension=dim, **options)\n                elif syst == 'scale':\n                    par = ScaleParameter(par_name, dimension=dim, **options)\n                else:\n                    raise IndexError('%s is not a valid global fit parameter.' % syst)\n                parameters[par_name] = {'par': par, 'type': 'global'}\n"))
ref('c_addconf',F,("        if config._type == 'spectra_fit':\n            spectra_name = config._spectra_name\n            for par_name in config.get_pars():\n                name = spectra_name + '_' + par_name\n                par = config.get_par(par_name)\n                par._name = name\n                self.add_par(par, 'spectra')\n","        if config._type == 'spectra_fit':\n            for par_name in config.get_pars():\n                par = config.get_par(par_name)\n                par._name = '%s_%s' % (config._spectra_name, par_name)\n                self.add_par(par, 'spectra')\n"),("        if par_type != 'global' and par_type != 'spectra':","        if par_type not in ('global', 'spectra'):"))
ref('c_dump_setdef',F,("            if dimension not in global_fit_config[main_key].keys():\n                global_fit_config[main_key][dimension] = OrderedDict()\n            name = par.get_name()\n            if dimension in name:\n                name = name.replace(dimension + '_', '')\n            global_fit_config[main_key][dimension][name] = par.to_dict(basic)\n","            section = global_fit_config[main_key].setdefault(dimension, OrderedDict())\n            name = par.get_name()\n            if dimension in name:\n                name = name.replace(dimension + '_', '')\n            section[name] = par.to_dict(basic)\n"))
ref('c_dump_build',F,("        spectral_fit_config = OrderedDict()\n        spectral_fit_config[main_key] = OrderedDict()\n        for par in self.get_spectra_pars():\n            name = par.get_name()\n            spectral_fit_config[main_key][name] = par.to_dict(basic)\n        return (global_fit_config, spectral_fit_config)","        entries = OrderedDict((par.get_name(), par.to_dict(basic)) for par in self.get_spectra_pars())\n        spectral_fit_config = OrderedDict([(main_key, entries)])\n        return (global_fit_config, spectral_fit_config)"))
ref('c_dump_fname',F,("        if filename is None:\n            filename = 'spectra_config'\n        elif filename == '':\n            filename = self.get_name()\n        if '.yml' not in filename:\n            filename += '.yml'\n        with open(path + filename, 'w') as stream:\n            yaml_loader.ordered_dump(config, stream=stream, indent=8)","        if filename is None:\n            filename = 'spectra_config'\n        filename = filename or self.get_name()\n        if '.yml' not in filename:\n            filename = filename + '.yml'\n        stream = open(path + filename, 'w')\n        try:\n            yaml_loader.ordered_dump(config, stream=stream, indent=8)\n        finally:\n            stream.close()"))
ref('c_load_with',F,("        config = yaml_loader.ordered_load(open(filename, 'r'))\n        if name is None:\n            return cls.load(config, spectra_name)\n        if name == '':\n            name = filename[filename.rfind('/') + 1:filename.rfind('.')]\n        return cls.load(config, spectra_name, name=name)","        with open(filename) as stream:\n            config = yaml_loader.ordered_load(stream)\n        kwargs = {}\n        if name is not None:\n            if name == '':\n                name = filename[filename.rfind('/') + 1:filename.rfind('.')]\n            kwargs['name'] = name\n        return cls.load(config, spectra_name, **kwargs)"))
ref('c_load_odict',F,("        parameters = OrderedDict()\n        for parameter in config[main_key]:\n            parameters[parameter] = SpectraParameter(parameter, **config[main_key][parameter])\n        return cls(name, parameters)","        parameters = OrderedDict((key, SpectraParameter(key, **options)) for key, options in config[main_key].items())\n        return cls(name, parameters)"))
ref('c_notin',F,("        if not config.get(main_key):\n            logging.getLogger('extra').debug('\\n\\n%s\\n' % str(config))\n            raise KeyError('Cannot read config dictionary. Please check it has the correct form')\n        parameters","        if main_key not in config or not config[main_key]:\n            raise KeyError('Cannot read config dictionary. Please check it has the correct form')\n        parameters"))
ref('c_byindex',F,("        name = self.get_pars()[index]\n        return self.get_par(name)","        for position, name in enumerate(self.get_pars()):\n            if position == index:\n                return self.get_par(name)\n        raise IndexError('list index out of range')"))
S='core/shift.py'; C='core/scale.py'
SL=subprocess.run(['python3-vt','/verif/tools/strip.py','/repo/echidna/core/shift.py'],capture_output=True,text=True).stdout
i=SL.index("            cur_slice = '['\n            old_slice1"); j=SL.index("            old_data1 = eval"); blk=SL[i:j]
k=SL.index("        shifted_spec._num_decays = shifted_spec.sum()")
tail=SL[j:k]
ref('h_tuple_slices',S,(blk,"            cur_slice = [slice(None)] * n_dim\n            old_slice1 = [slice(None)] * n_dim\n            old_slice2 = [slice(None)] * n_dim\n            cur_slice[axis] = slice(bin, bin + 1)\n            old_slice1[axis] = slice(old_bin1, old_bin1 + 1)\n            old_slice2[axis] = slice(old_bin2, old_bin2 + 1)\n"),(tail,"            old_data1 = spectrum._data[tuple(old_slice1)]\n            unshifted_sum1 = float(old_data1.sum())\n            old_data2 = spectrum._data[tuple(old_slice2)]\n            unshifted_sum2 = float(old_data2.sum())\n            if unshifted_sum1 <= 0.0 and unshifted_sum2 <= 0.0:\n                continue\n            elif unshifted_sum1 <= 0.0:\n                new = old_data2 * (y / unshifted_sum2)\n            elif unshifted_sum2 <= 0.0:\n                new = old_data1 * (y / unshifted_sum1)\n            else:\n                new = old_data1 * scale1 * (y / unshifted_sum1) + old_data2 * scale2 * (y / unshifted_sum2)\n            shifted_spec._data[tuple(cur_slice)] += new\n"))
ref('h_area_helper',S,("                    area1 = numpy.fabs(0.5 * (x_high1 - x_low1) * (interpolation(x_high1) + interpolation(x_low1)))\n                    x_low2 = current - 0.5 * step\n                    area2 = numpy.fabs(0.5 * (x_low1 - x_low2) * (interpolation(x_low1) + interpolation(x_low2)))\n","                    area1 = self._area(interpolation, x_low1, x_high1)\n                    area2 = self._area(interpolation, current - 0.5 * step, x_low1)\n"),("    def shift_by_bin","    def _area(self, interpolation, low, high):\n        mean = 0.5 * (interpolation(high) + interpolation(low))\n        return abs((high - low) * mean)\n\n    def shift_by_bin"))
ref('h_clip',S,("                    x_high1 = current + 0.5 * step\n                    if x_high1 > high - 0.5 * step:\n                        x_high1 = high - 0.5 * step - 1e-06\n","                    edge = high - 0.5 * step\n                    x_high1 = current + 0.5 * step\n                    x_high1 = x_high1 if x_high1 <= edge else edge - 1e-06\n"))
ref('h_centre',S,("            x = low + (bin + 0.5) * step\n            current = x - shift\n","            current = par.get_bin_centre(bin) - shift\n"))
ref('h_bybin_tuple',S,("            cur_slice = '['\n            old_slice = '['\n"+SL[SL.index("            old_slice = '['\n")+len("            old_slice = '['\n"):SL.index("            old_data = eval")],"            cur_slice = tuple(slice(bin, bin + 1) if dim == axis else slice(None) for dim in range(n_dim))\n            old_slice = tuple(slice(old_bin, old_bin + 1) if dim == axis else slice(None) for dim in range(n_dim))\n"),("            old_data = eval('spectrum._data' + old_slice)\n","            old_data = spectrum._data[old_slice]\n"),("                fill_cmd = 'shifted_spec._data' + cur_slice + '+= old_data'\n                exec(fill_cmd)","                shifted_spec._data[cur_slice] += old_data"))
ref('h_scale_edge',C,("            if ratio < low or ratio >= high:\n                continue\n            elif ratio < low + 0.5 * step:\n                ratio = low + 0.5 * step\n            elif ratio > high - 0.5 * step:\n                ratio = high - 0.5 * step - 1e-06\n","            if not low <= ratio < high:\n                continue\n            first, last = low + 0.5 * step, high - 0.5 * step\n            if ratio < first:\n                ratio = first\n            elif ratio > last:\n                ratio = last - 1e-06\n"))
ref('h_scale_norm',C,("            scale1 = area1 / (area1 + area2)\n            scale2 = area2 / (area1 + area2)\n","            total = area1 + area2\n            scale1 = area1 / total\n            scale2 = 1. - scale1\n"))
