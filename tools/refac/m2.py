F='fit/fit.py'
ref('f_fit_helper',F,("            observed = self._data.nd_project(self._data_pars)\n            expected = self._fixed_background.nd_project(self._fixed_pars)\n            if self._signal:\n                expected += self._signal.nd_project(self._signal_pars)\n            if self._single_bin:\n                expected = numpy.sum(expected)\n                observed = numpy.sum(observed)\n            return self._test_statistic.compute_statistic(observed.ravel(), expected.ravel())",
"            observed = self._data.nd_project(self._data_pars)\n            expected = self._fixed_background.nd_project(self._fixed_pars)\n            if self._signal:\n                expected = expected + self._signal.nd_project(self._signal_pars)\n            return self._compute(observed, expected)"),
("        test_statistic = self._test_statistic.compute_statistic(observed.ravel(), expected.ravel())\n        total_penalty","        test_statistic = self._compute(observed, expected)\n        total_penalty"),
("        if self._single_bin:\n            expected = numpy.sum(expected)\n            observed = numpy.sum(observed)\n        test_statistic = self._compute","        test_statistic = self._compute"),
("    def _funct(self","    def _compute(self, observed, expected):\n        if self._single_bin:\n            expected = expected.sum()\n            observed = observed.sum()\n        return self._test_statistic.compute_statistic(observed.ravel(), expected.ravel())\n\n    def _funct(self"))
ref('f_penalty_helper',F,("        total_penalty = 0.0\n        for parameter in self._fit_config.get_pars():\n            par = self._fit_config.get_par(parameter)\n            current_value = par.get_current_value()\n            prior = par.get_prior()\n            sigma = par.get_sigma()\n            if sigma is not None:\n                total_penalty += self._test_statistic.get_penalty_term(current_value, prior, sigma)\n",
"        constrained = [self._fit_config.get_par(name) for name in self._fit_config.get_pars()]\n        total_penalty = sum(self._test_statistic.get_penalty_term(par.get_current_value(), par.get_prior(), par.get_sigma()) for par in constrained if par.get_sigma() is not None)\n"))
ref('f_curval_join',F,("        cur_val = ''\n        for parameter in global_pars:\n            cur_val += parameter._name + str(parameter._current_value) + '_'\n","        cur_val = ''.join('%s%s_' % (parameter._name, parameter._current_value) for parameter in global_pars)\n"))
ref('f_curval_tuple',F,("        cur_val = ''\n        for parameter in global_pars:\n            cur_val += parameter._name + str(parameter._current_value) + '_'\n","        cur_val = tuple((parameter._name, parameter._current_value) for parameter in global_pars)\n"))
ref('f_setdefault',F,("                if background_name not in self._global_dict:\n                    self._global_dict[background_name] = {}\n                if cur_val not in self._global_dict[background_name]:\n                    fit_config = spectrum._fit_config","                convolved = self._global_dict.setdefault(background_name, {})\n                if cur_val not in convolved:\n                    fit_config = spectrum._fit_config"),
("                    self._global_dict[background_name][cur_val] = spectrum\n                else:\n                    spectrum = self._global_dict[background_name][cur_val]","                    convolved[cur_val] = spectrum\n                else:\n                    spectrum = convolved[cur_val]"))
ref('f_convolve_helper',F,("                    fit_config = spectrum._fit_config\n                    if self._use_pre_made:\n                        spectrum = self.load_pre_made(spectrum, global_pars)\n                    else:\n                        for parameter in global_pars:\n                            spectrum = parameter.apply_to(spectrum)\n                    spectrum._fit_config = fit_config\n                    self._global_dict[background_name][cur_val] = spectrum\n","                    self._global_dict[background_name][cur_val] = self._convolve(spectrum, global_pars)\n                    spectrum = self._global_dict[background_name][cur_val]\n"),
("                    fit_config = self._signal._fit_config\n                    if self._use_pre_made:\n                        signal = self.load_pre_made(self._signal, global_pars)\n                    else:\n                        signal = self._signal\n                        for parameter in global_pars:\n                            signal = parameter.apply_to(signal)\n                    signal._fit_config = fit_config\n","                    signal = self._convolve(self._signal, global_pars)\n"),
("    def load_pre_made(self","    def _convolve(self, spectrum, global_pars):\n        fit_config = spectrum._fit_config\n        if self._use_pre_made:\n            convolved = self.load_pre_made(spectrum, global_pars)\n        else:\n            convolved = spectrum\n            for parameter in global_pars:\n                convolved = parameter.apply_to(convolved)\n        convolved._fit_config = fit_config\n        return convolved\n\n    def load_pre_made(self"))
ref('f_cached_method',F,("                background_name = spectrum.get_background_name()\n                if background_name not in self._global_dict:\n                    self._global_dict[background_name] = {}\n                if cur_val not in self._global_dict[background_name]:\n                    fit_config = spectrum._fit_config\n                    if self._use_pre_made:\n                        spectrum = self.load_pre_made(spectrum, global_pars)\n                    else:\n                        for parameter in global_pars:\n                            spectrum = parameter.apply_to(spectrum)\n                    spectrum._fit_config = fit_config\n                    self._global_dict[background_name][cur_val] = spectrum\n                else:\n                    spectrum = self._global_dict[background_name][cur_val]\n","                spectrum = self._cached(spectrum, global_pars, cur_val)\n"),
("    def load_pre_made(self","    def _cached(self, spectrum, global_pars, cur_val):\n        name = spectrum.get_background_name()\n        if name not in self._global_dict:\n            self._global_dict[name] = {}\n        cache = self._global_dict[name]\n        if cur_val in cache:\n            return cache[cur_val]\n        fit_config = spectrum._fit_config\n        if self._use_pre_made:\n            result = self.load_pre_made(spectrum, global_pars)\n        else:\n            result = spectrum\n            for parameter in global_pars:\n                result = parameter.apply_to(result)\n        result._fit_config = fit_config\n        cache[cur_val] = result\n        return result\n\n    def load_pre_made(self"))
ref('f_expected_list',F,("            if expected is not None:\n                expected += spectrum.nd_project(floating_pars)\n            else:\n                expected = spectrum.nd_project(floating_pars)\n","            projection = spectrum.nd_project(floating_pars)\n            expected = projection if expected is None else expected + projection\n"))
ref('f_zip_index',F,("        for spectrum, floating_pars in zip(self._floating_backgrounds, self._floating_pars):\n","        for position, spectrum in enumerate(self._floating_backgrounds):\n            floating_pars = self._floating_pars[position]\n"))
ref('f_check_roi',F,("                if roi[dim][0] > roi[dim][1]:\n                roi[dim] = roi[dim][::-1]","X") if 0 else ("            if roi[dim][0] > roi[dim][1]:\n                roi[dim] = roi[dim][::-1]","            low, high = roi[dim]\n            if high < low:\n                roi[dim] = roi[dim][::-1]"))
ref('f_check_spectra',F,("        for dim in self._roi:\n            dim_type = spectra.get_config().get_dim_type(dim)\n            par = dim + '_' + dim_type\n            if not numpy.isclose(self._roi[dim][0], spectra.get_config().get_par(par)._low):","        for dim, (low, high) in self._roi.items():\n            dim_type = spectra.get_config().get_dim_type(dim)\n            par = '%s_%s' % (dim, dim_type)\n            parameter = spectra.get_config().get_par(par)\n            if not numpy.isclose(low, parameter._low):"),("            if not numpy.isclose(self._roi[dim][1], spectra.get_config().get_par(par)._high):","            if not numpy.isclose(high, parameter._high):"))
ref('f_roi_pars',F,("        pars = []\n        for dim in self._roi:\n            dim_type = spectra.get_config().get_dim_type(dim)\n            par = dim + '_' + dim_type\n            pars.append(par)\n        return pars\n","        config = spectra.get_config()\n        return ['{0}_{1}'.format(dim, config.get_dim_type(dim)) for dim in self._roi]\n"))
ref('f_fixed_copy',F,("            spectrum = copy.copy(spectrum)\n            spectrum._config = copy.deepcopy(spectrum._config)\n            if first:\n                first = False\n                if shrink:\n                    self.shrink_spectra(spectrum)\n                spectrum.scale(scaling)\n                total_spectrum","            spectrum = copy.copy(spectrum)\n            spectrum._config = copy.deepcopy(spectrum._config)\n            if shrink:\n                self.shrink_spectra(spectrum)\n            spectrum.scale(scaling)\n            if first:\n                first = False\n                total_spectrum"),("            else:\n                if shrink:\n                    self.shrink_spectra(spectrum)\n                spectrum.scale(scaling)\n                total_spectrum.add(spectrum)","            else:\n                total_spectrum.add(spectrum)"))
ref('f_premade_split',F,("        filename = os.path.basename(spectrum._location)\n        if self._pre_made_base_dir:\n            directory = self._pre_made_base_dir\n        else:\n            directory = os.path.dirname(spectrum._location) + '/'\n","        directory, filename = os.path.split(spectrum._location)\n        directory = self._pre_made_base_dir or directory + '/'\n"))
ref('f_hasattr',F,("        orig_num_decays = None\n        if hasattr(spectrum, '_orig_num_decays'):\n            orig_num_decays = spectrum._orig_num_decays\n","        orig_num_decays = getattr(spectrum, '_orig_num_decays', None)\n"))
ref('f_setcur',F,("        for index, value in enumerate(args):\n            par = self._fit_config.get_par_by_index(index)\n            par.set_current_value(value)\n","        for index in range(len(args)):\n            self._fit_config.get_par_by_index(index).set_current_value(args[index])\n"))
ref('f_sum_method',F,("            expected = numpy.sum(expected)\n            observed = numpy.sum(observed)\n            return","            expected = numpy.array(expected.sum())\n            observed = numpy.array(observed.sum())\n            return"))
