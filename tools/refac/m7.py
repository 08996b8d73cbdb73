import subprocess
F='core/smear.py'
AXES="""        bins = []
        lows = []
        widths = []
        par_names = []
        for par_name in spectrum.get_config().get_pars():
            bins.append(range(spectrum.get_config().get_par(par_name)._bins))
            lows.append(spectrum.get_config().get_par(par_name)._low)
            widths.append(spectrum.get_config().get_par(par_name).get_width())
            par_names.append(par_name)
"""
ref('s_axes_helper',F,(AXES,"        bins, lows, widths, par_names = self._axes(spectrum)\n"),(AXES,"        bins, lows, widths, par_names = self._axes(spectrum)\n"),("    def get_num_sigma(self","    def _axes(self, spectrum):\n        config = spectrum.get_config()\n        par_names = list(config.get_pars())\n        pars = [config.get_par(name) for name in par_names]\n        bins = [range(par._bins) for par in pars]\n        lows = [par._low for par in pars]\n        widths = [par.get_width() for par in pars]\n        return bins, lows, widths, par_names\n\n    def get_num_sigma(self"))
W="""                        weights = []
                        for energy in numpy.arange(low, high, widths[i]):
                            if self._poisson_smear is True:
                                weights.append(self.calc_poisson_energy(energy, mean))
                            else:
                                weights.append(self.calc_gaussian(energy, mean, sigma))
"""
ref('s_weight_comp',F,(W,"                        energies = numpy.arange(low, high, widths[i])\n                        if self._poisson_smear is True:\n                            weights = [self.calc_poisson_energy(energy, mean) for energy in energies]\n                        else:\n                            weights = [self.calc_gaussian(energy, mean, sigma) for energy in energies]\n"))
ref('s_weight_vec',F,(W,"                        energies = numpy.arange(low, high, widths[i])\n                        if self._poisson_smear is True:\n                            weights = [self.calc_poisson_energy(energy, mean) for energy in energies]\n                        else:\n                            weights = self.calc_gaussian(energies, mean, sigma)\n"))
FILL="""                total_weight = sum(weights)
                i = 0
                for energy in numpy.arange(low, high, widths[idx]):
                    data[par] = energy
                    smeared_spec.fill(weight=entries * weights[i] / total_weight, **data)
                    i += 1
"""
ref('s_fill_zip',F,(FILL,"                total_weight = numpy.sum(weights)\n                for energy, weight in zip(numpy.arange(low, high, widths[idx]), weights):\n                    data[par] = energy\n                    smeared_spec.fill(weight=entries * (weight / total_weight), **data)\n"))
ref('s_fill_enum',F,(FILL,"                total_weight = sum(weights)\n                for i, energy in enumerate(numpy.arange(low, high, widths[idx])):\n                    point = dict(data)\n                    point[par] = energy\n                    smeared_spec.fill(weight=entries * weights[i] / total_weight, **point)\n"))
B="""                        low, high = self.get_bounds(mean, sigma)
                        low = spectrum.get_config().get_par(par).round(low - 0.5 * widths[i]) + 0.5 * widths[i]
                        high = spectrum.get_config().get_par(par).round(high + 0.5 * widths[i]) + 0.5 * widths[i]
                        if low < spectrum.get_config().get_par(par)._low:
                            low = spectrum.get_config().get_par(par)._low + 0.5 * widths[i]
                        if high > spectrum.get_config().get_par(par)._high:
                            high = spectrum.get_config().get_par(par)._high
"""
ref('s_bounds_helper',F,(B,"                        low, high = self._range(spectrum, par, mean, sigma)\n"),("    def get_num_sigma(self","    def _range(self, spectrum, par, mean, sigma):\n        parameter = spectrum.get_config().get_par(par)\n        half = parameter.get_width() / 2.\n        low, high = self.get_bounds(mean, sigma)\n        low = parameter.round(low - half) + half\n        high = parameter.round(high + half) + half\n        if low < parameter._low:\n            low = parameter._low + half\n        high = min(high, parameter._high)\n        return low, high\n\n    def get_num_sigma(self"))
ref('s_continue',F,("            entries = spectrum._data[bin]\n            if entries:\n                data = {}\n                low = None\n                high = None\n","            entries = spectrum._data[bin]\n            if entries != 0:\n                data = {}\n                low = None\n                high = None\n"))
ref('s_means',F,("                for i in range(len(bin)):\n                    mean = self.get_bin_mean(lows[i], bin[i], widths[i])\n                    if i == idx:\n                        sigma","                means = [self.get_bin_mean(lows[i], bin[i], widths[i]) for i in range(len(bin))]\n                for i, mean in enumerate(means):\n                    if i == idx:\n                        sigma"))
ref('s_gauss',F,("        return numpy.exp(-(x - mean) ** 2 / (2 * sigma ** 2)) / (sigma * numpy.sqrt(2 * numpy.pi))","        z = (x - mean) / sigma\n        norm = 1. / (sigma * numpy.sqrt(2. * numpy.pi))\n        return norm * numpy.exp(-0.5 * z * z)"))
ref('s_lgamma',F,("            self._log_factorial[photons] = numpy.sum(numpy.log(numpy.arange(1, photons + 1)))\n        log_pois = photons * numpy.log(expected) - self._log_factorial[photons] - expected\n        return numpy.exp(log_pois)","            self._log_factorial[photons] = math.lgamma(photons + 1)\n        log_pois = photons * math.log(expected) - self._log_factorial[photons] - expected\n        return math.exp(log_pois)"),("import copy","import copy\nimport math"))
ref('s_getcache',F,("        if photons not in self._log_factorial:\n            self._log_factorial[photons] = numpy.sum(numpy.log(numpy.arange(1, photons + 1)))\n        log_pois = photons * numpy.log(expected) - self._log_factorial[photons] - expected\n","        log_factorial = self._log_factorial.get(photons)\n        if log_factorial is None:\n            log_factorial = numpy.log(numpy.arange(1, photons + 1)).sum()\n            self._log_factorial[photons] = log_factorial\n        log_pois = photons * numpy.log(expected) - log_factorial - expected\n"))
ref('s_clone',F,("        smeared_spec = copy.copy(spectrum)\n        smeared_spec._config = copy.deepcopy(spectrum._config)\n        smeared_spec._name = spectrum._name + '_ly' + str(self._light_yield)\n        smeared_spec._data = numpy.zeros(spectrum._data.shape)\n","        smeared_spec = self._blank(spectrum, '_ly' + str(self._light_yield))\n"),("        smeared_spec = copy.copy(spectrum)\n        smeared_spec._config = copy.deepcopy(spectrum._config)\n        smeared_spec._name = spectrum._name + '_ly' + str(self._light_yield)\n        smeared_spec._data = numpy.zeros(spectrum._data.shape)\n","        smeared_spec = self._blank(spectrum, '_ly%s' % self._light_yield)\n"),("    def get_num_sigma(self","    def _blank(self, spectrum, suffix):\n        blank = copy.copy(spectrum)\n        blank._config = copy.deepcopy(spectrum._config)\n        blank._name = spectrum._name + suffix\n        blank._data = numpy.zeros_like(spectrum._data)\n        return blank\n\n    def get_num_sigma(self"))
ref('s_res_sqrt',F,("        return self._resolution * numpy.power(energy, 1.0 / 2.0)","        return numpy.sqrt(energy) * self._resolution"),("        return numpy.fabs(numpy.sqrt(new_res ** 2 - cur_res ** 2))","        return numpy.sqrt((new_res - cur_res) * (new_res + cur_res))"))
ref('s_set_range',F,("        if resolution > 0.0 and resolution < 1.0:\n            self._resolution = resolution\n            self._light_yield = 1.0 / resolution ** 2\n        else:\n            raise ValueError('%s is an invalid energy resolution. Value must be between 0. and 1.' % resolution)","        if not 0.0 < resolution < 1.0:\n            raise ValueError('%s is an invalid energy resolution. Value must be between 0. and 1.' % resolution)\n        self._resolution = resolution\n        self._light_yield = resolution ** -2"))
# hoist LY weighted_smear + Res weighted_smear into the base
SRC=subprocess.run(['python3-vt','/verif/tools/strip.py','/repo/echidna/core/smear.py'],capture_output=True,text=True).stdout
i=SRC.index("    def weighted_smear"); j=SRC.index("    def random_smear")
body=SRC[i:j]
i2=SRC.index("    def weighted_smear",j); j2=SRC.index("    def random_smear",i2)
body2=SRC[i2:j2]
base=body.replace("def weighted_smear(self, spectrum, par='energy_mc')","def _weighted(self, spectrum, par, suffix)").replace("'_ly' + str(self._light_yield)","suffix")
ref('s_hoist',F,(body,"    def weighted_smear(self, spectrum, par='energy_mc'):\n        return self._weighted(spectrum, par, '_ly' + str(self._light_yield))\n\n"),(body2,"    def weighted_smear(self, spectrum, par='energy_mc'):\n        return self._weighted(spectrum, par, '_' + str(100.0 * self._resolution) + '%')\n\n"),("class EnergySmearLY(Smear)","class EnergySmear(Smear):\n\n"+base+"class EnergySmearLY(EnergySmear)"),("class EnergySmearRes(Smear)","class EnergySmearRes(EnergySmear)"))
