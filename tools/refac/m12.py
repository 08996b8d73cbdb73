F='core/fill_spectrum.py'
TF="""            if fill:
                try:
                    spectrum.fill(**fill_kwargs)
                    spectrum._raw_events += 1
                except ValueError:
                    pass
"""
TF1=TF.replace("\n    ","\n")[4:]
HELP="def _root_mix(spectrum","def _try_fill(spectrum, values):\n    try:\n        spectrum.fill(**values)\n        spectrum._raw_events += 1\n    except ValueError:\n        pass\n\ndef _root_mix(spectrum"
ref('fs_tryfill',F,(TF,"            if fill:\n                _try_fill(spectrum, fill_kwargs)\n"),(TF,"            if fill:\n                _try_fill(spectrum, fill_kwargs)\n"),(TF1,"        if fill:\n            _try_fill(spectrum, fill_kwargs)\n"),HELP,
("            try:\n                spectrum.fill(**fill_kwargs)\n                spectrum._raw_events += 1\n            except ValueError:\n                pass\n        fill_kwargs = {}","            _try_fill(spectrum, fill_kwargs)\n        fill_kwargs = {}"))
ref('fs_else',F,("                try:\n                    spectrum.fill(**fill_kwargs)\n                    spectrum._raw_events += 1\n                except ValueError:\n                    pass\n","                try:\n                    spectrum.fill(**fill_kwargs)\n                except ValueError:\n                    continue\n                spectrum._raw_events += 1\n"))
ref('fs_tryelse',F,("                try:\n                    spectrum.fill(**fill_kwargs)\n                    spectrum._raw_events += 1\n                except ValueError:\n                    pass\n","                try:\n                    spectrum.fill(**fill_kwargs)\n                except ValueError:\n                    pass\n                else:\n                    spectrum._raw_events += 1\n"))
ref('fs_forelse',F,("        for var, extractor in extractors.iteritems():\n            if extractor.get_valid_root(mc, ds):\n                fill_kwargs[extractor._name] = extractor.get_value_root(mc)\n            else:\n                fill = False\n                break\n        if fill:\n            try:\n                spectrum.fill(**fill_kwargs)\n                spectrum._raw_events += 1\n            except ValueError:\n                pass\n","        for var, extractor in extractors.iteritems():\n            if not extractor.get_valid_root(mc, ds):\n                break\n            fill_kwargs[extractor._name] = extractor.get_value_root(mc)\n        else:\n            try:\n                spectrum.fill(**fill_kwargs)\n                spectrum._raw_events += 1\n            except ValueError:\n                pass\n"))
ref('fs_collect',F,("            fill_kwargs = {}\n            fill = True\n            for var, extractor in extractors.iteritems():\n                if extractor.get_valid_root(ev, ds):\n                    fill_kwargs[extractor._name] = extractor.get_value_root(ev)\n                else:\n                    fill = False\n                    break\n            if fill:\n","            fill_kwargs = _collect(extractors, ev, ds)\n            if fill_kwargs is not None:\n"),("def _root_mix(","def _collect(extractors, branch, ds):\n    values = {}\n    for extractor in extractors.values():\n        if not extractor.get_valid_root(branch, ds):\n            return None\n        values[extractor._name] = extractor.get_value_root(branch)\n    return values\n\ndef _root_mix("))
ref('fs_all',F,("            fill_kwargs = {}\n            fill = True\n            for var, extractor in extractors.iteritems():\n                if extractor.get_valid_root(ev, ds):\n                    fill_kwargs[extractor._name] = extractor.get_value_root(ev)\n                else:\n                    fill = False\n                    break\n            if fill:\n","            if all(extractor.get_valid_root(ev, ds) for extractor in extractors.values()):\n                fill_kwargs = dict((extractor._name, extractor.get_value_root(ev)) for extractor in extractors.values())\n"))
ref('fs_branch',F,("                if var_type == 'reco':\n                    if extractor.get_valid_root(ev, ds):\n                        fill_kwargs[extractor._name] = extractor.get_value_root(ev)\n                    else:\n                        fill = False\n                        break\n                elif extractor.get_valid_root(mc, ds):\n                    fill_kwargs[extractor._name] = extractor.get_value_root(mc)\n                else:\n                    fill = False\n                    break\n","                branch = ev if var_type == 'reco' else mc\n                if not extractor.get_valid_root(branch, ds):\n                    fill = False\n                    break\n                fill_kwargs[extractor._name] = extractor.get_value_root(branch)\n"))
ref('fs_endswith',F,("                var_type = var.split('_')[-1]\n                if var_type == 'reco':","                if var.endswith('_reco'):"))
ref('fs_ntuple_helper',F,("    for entry in chain:\n        fill = True\n        fill_kwargs = {}\n        for e in extractors:\n            if e.get_valid_ntuple(entry):\n                fill_kwargs[e._name] = e.get_value_ntuple(entry)\n            else:\n                fill = False\n                break\n        if fill:\n            try:","    for entry in chain:\n        fill_kwargs = _entry_values(extractors, entry)\n        if fill_kwargs is not None:\n            try:"),("def fill_from_ntuple","def _entry_values(extractors, entry):\n    values = {}\n    for e in extractors:\n        if not e.get_valid_ntuple(entry):\n            return None\n        values[e._name] = e.get_value_ntuple(entry)\n    return values\n\ndef fill_from_ntuple"))
ref('fs_bipo_valid',F,("        for e in extractors:\n            if e.get_valid_ntuple(chain):\n                fill_kwargs[e._name] = e.get_value_ntuple(chain)\n                check_next = True\n            else:\n                check_next = False\n                break\n","        check_next = len(extractors) > 0 or check_next\n        for e in extractors:\n            if not e.get_valid_ntuple(entry):\n                check_next = False\n                break\n            fill_kwargs[e._name] = e.get_value_ntuple(entry)\n"))
ref('fs_target',F,("        spectrum = spectra.Spectra(str(spectrum_name), chain.GetEntries(), config)\n    else:\n        spectrum._num_decays += chain.GetEntries()\n","        spectrum = spectra.Spectra(str(spectrum_name), entries, config)\n    else:\n        spectrum._num_decays += entries\n"),("    chain.Add(filename)\n","    chain.Add(filename)\n    entries = chain.GetEntries()\n"))
ref('fs_kinds',F,("    mc_fill = False\n    ev_fill = False\n    for var in spectrum.get_config().get_pars():\n        var_type = var.split('_')[-1]\n        if var_type == 'mc' or var_type == 'truth':\n            mc_fill = True\n        elif var_type == 'reco':\n            ev_fill = True\n        else:\n            raise IndexError('Unknown paramer type %s' % var_type)\n        extractors[var] = dsextract.function_factory(var, **kwargs)\n","    types = set()\n    for var in spectrum.get_config().get_pars():\n        var_type = var.split('_')[-1]\n        if var_type not in ('mc', 'truth', 'reco'):\n            raise IndexError('Unknown paramer type %s' % var_type)\n        types.add(var_type)\n        extractors[var] = dsextract.function_factory(var, **kwargs)\n    ev_fill = 'reco' in types\n    mc_fill = 'mc' in types or 'truth' in types\n"))
ref('fs_dispatch',F,("    if mc_fill and ev_fill:\n        _root_mix(spectrum, dsreader, extractors, bipo)\n    elif mc_fill:\n        _root_mc(spectrum, dsreader, extractors, bipo)\n    else:\n        _root_ev(spectrum, dsreader, extractors, bipo)\n","    if not mc_fill:\n        filler = _root_ev\n    elif ev_fill:\n        filler = _root_mix\n    else:\n        filler = _root_mc\n    filler(spectrum, dsreader, extractors, bipo)\n"))
D='core/dsextract.py'
ref('d_radius_helper',D,("        if not self._reco_pos:\n            if numpy.fabs(numpy.sqrt(entry.mcPosx ** 2 + entry.mcPosy ** 2 + entry.mcPosz ** 2)) < self._fv_radius:\n                return True\n            return False\n        if entry.scintFit == 1:\n            if numpy.fabs(numpy.sqrt(entry.posx ** 2 + entry.posy ** 2 + entry.posz ** 2)) < self._fv_radius:\n                return True\n            return False\n        return False\n","        if not self._reco_pos:\n            return _radius(entry.mcPosx, entry.mcPosy, entry.mcPosz) < self._fv_radius\n        return entry.scintFit == 1 and _radius(entry.posx, entry.posy, entry.posz) < self._fv_radius\n"),("def function_factory","def _radius(x, y, z):\n    return numpy.sqrt(x * x + y * y + z * z)\n\ndef function_factory"))
ref('d_table',D,("    if dimension == 'energy_mc':\n        return EnergyExtractMC(**kwdict)\n    elif dimension == 'energy_reco':\n        return EnergyExtractReco(**kwdict)\n    elif dimension == 'energy_truth':\n        return EnergyExtractTruth(**kwdict)\n    elif dimension == 'radial_mc':","    plain = {'energy_mc': EnergyExtractMC, 'energy_reco': EnergyExtractReco, 'energy_truth': EnergyExtractTruth}\n    if dimension in plain:\n        return plain[dimension](**kwdict)\n    elif dimension == 'radial_mc':"))
ref('d_outer',D,("        if outer_radius:\n            self._outer_radius = outer_radius\n        else:\n            self._outer_radius = const._av_radius\n","        self._outer_radius = outer_radius or const._av_radius\n"))
ref('d_kwdict',D,("    kwdict = {}\n    if 'fv_radius' in kwargs:\n        kwdict['fv_radius'] = kwargs['fv_radius']\n    if 'external' in kwargs:\n        kwdict['external'] = kwargs['external']\n","    kwdict = dict((key, kwargs[key]) for key in ('fv_radius', 'external') if key in kwargs)\n"))
ref('d_nested',D,("        if self._external:\n            if entry.scintFit != 1:\n                return False\n        if entry.mc == 1:\n            if self._fv_radius:\n                return self.fv_cut_ntuple(entry)\n            return True\n        return False\n","        if self._external and entry.scintFit != 1:\n            return False\n        if entry.mc != 1:\n            return False\n        return self.fv_cut_ntuple(entry) if self._fv_radius else True\n"))
