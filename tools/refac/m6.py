F='core/parameter.py'
PC="""        value_string = str(self._current_value)
        if value_string[-2:] == '.0':
            value_string = value_string[:-2]
        filename_list = filename.split('_')
        temp_fname = ''
        subbed = False
        for x in filename_list:
            if x[-2:] == 'sc':
                x = value_string + 'sc'
                subbed = True
            elif x[-7:] == 'sc.hdf5':
                x = value_string + 'sc.hdf5'
                subbed = True
            if x[-5:] == '.hdf5':
                temp_fname += x
            else:
                temp_fname += x + '_'
        if not subbed:
            temp_fname = temp_fname[:-5] + '_' + value_string + 'sc.hdf5'
        return (directory, temp_fname)
"""
PCH=PC.replace("'sc'","'sh'").replace("'sc.hdf5'","'sh.hdf5'")
ref('p_pre_helper',F,(PC,"        return (directory, self._sub_name(filename, 'sc'))\n"),(PCH,"        return (directory, self._sub_name(filename, 'sh'))\n"),
("    def get_current_value(self","    def _sub_name(self, filename, ext):\n        value = str(self._current_value)\n        if value.endswith('.0'):\n            value = value[:-2]\n        parts = []\n        subbed = False\n        name = ''\n        for x in filename.split('_'):\n            if x.endswith(ext):\n                x = value + ext\n                subbed = True\n            elif x.endswith(ext + '.hdf5'):\n                x = value + ext + '.hdf5'\n                subbed = True\n            name += x\n            if not x.endswith('.hdf5'):\n                name += '_'\n        if subbed:\n            return name\n        return name[:-5] + '_' + value + ext + '.hdf5'\n\n    def get_current_value(self"))
ref('p_dir_helper',F,("        if directory[-1] != '/':\n            directory += '/'\n        if not added_dim:\n            dir_list = directory.split('/')\n            idx = dir_list[::-1].index(self._dimension)\n            if 'shift' not in dir_list[-idx:]:\n                directory += 'shift/'\n        else:\n            directory += 'shift/'\n","        if not directory.endswith('/'):\n            directory = directory + '/'\n        present = False\n        if not added_dim:\n            dir_list = directory.split('/')\n            idx = dir_list[::-1].index(self._dimension)\n            present = 'shift' in dir_list[-idx:]\n        if not present:\n            directory += 'shift/'\n"))
ref('p_setattr',F,("            if kw == 'low':\n                self._low = kwargs[kw]\n            elif kw == 'high':\n                self._high = kwargs[kw]\n            elif kw == 'bins':\n                self._bins = kwargs[kw]\n","X") if 0 else ("        for kw in kwargs:\n            if kw == 'low':\n                self._low = kwargs[kw]\n            elif kw == 'high':\n                self._high = kwargs[kw]\n            elif kw == 'bins':\n                self._bins = kwargs[kw]","        for kw in kwargs:\n            setattr(self, '_' + kw, kwargs[kw])"))
ref('p_items',F,("        for kw in kwargs:\n            if kw in ('low', 'high'):\n                kwargs[kw] = float(kwargs[kw])\n            elif kw == 'bins':\n                kwargs[kw] = int(kwargs[kw])\n            else:\n                raise TypeError('Unhandled parameter name / type %s' % kw)\n        for kw in kwargs:\n            if kw == 'low':\n                self._low = kwargs[kw]\n            elif kw == 'high':\n                self._high = kwargs[kw]\n            elif kw == 'bins':\n                self._bins = kwargs[kw]","        converters = {'low': float, 'high': float, 'bins': int}\n        converted = {}\n        for kw, value in kwargs.items():\n            if kw not in converters:\n                raise TypeError('Unhandled parameter name / type %s' % kw)\n            converted[kw] = converters[kw](value)\n        if 'low' in converted:\n            self._low = converted['low']\n        if 'high' in converted:\n            self._high = converted['high']\n        if 'bins' in converted:\n            self._bins = converted['bins']"))
ref('p_centres',F,("        return numpy.arange(self._low + self.get_width() * 0.5, self._high, self.get_width())","        return self._low + (numpy.arange(self._bins) + 0.5) * self.get_width()"))
ref('p_centres2',F,("        return numpy.arange(self._low + self.get_width() * 0.5, self._high, self.get_width())","        boundaries = self.get_bin_boundaries()\n        return 0.5 * (boundaries[1:] + boundaries[:-1])"))
ref('p_centre_range',F,("        if bin < 0:\n            raise ValueError('Bin number (%s) must be zero or positive' % bin)\n        if bin > self._bins - 1:","        if bin < 0:\n            raise ValueError('Bin number (%s) must be zero or positive' % bin)\n        if bin >= self._bins:"),("        if type(bin) != int and type(bin) != numpy.int64:","        if not (type(bin) == int or type(bin) == numpy.int64):"))
ref('p_centre_in',F,("        if type(bin) != int and type(bin) != numpy.int64:","        if type(bin) not in (int, numpy.int64):"))
ref('p_bin_chain',F,("        if x < self._low:\n            raise ValueError('%s is below parameter lower bound %s' % (x, self._low))\n        if x > self._high:\n            raise ValueError('%s is above parameter upper bound %s' % (x, self._high))\n        return int((x - self._low) / self.get_width())","        if not self._low <= x <= self._high:\n            raise ValueError('%s is outside parameter bounds (%s, %s)' % (x, self._low, self._high))\n        width = self.get_width()\n        return int((x - self._low) / width)"))
ref('p_round',F,("        return self._low + round((x - self._low) / self.get_width()) * self.get_width()","        width = self.get_width()\n        n_bins = round((x - self._low) / width)\n        return n_bins * width + self._low"))
ref('p_unit',F,("        if self._name.split('_')[0] == 'energy':\n            return 'MeV'\n        if self._name.split('_')[0] == 'radial':\n            return 'mm'","        units = {'energy': 'MeV', 'radial': 'mm'}\n        return units.get(self._name.split('_')[0])"))
ref('p_values_split',F,("        if self._values is None:\n            if self._logscale:\n                self._logger.info('Creating logscale","        if self._values is None:\n            self._values = self._make_values()\n        return self._values\n\n    def _make_values(self):\n        if True:\n            if self._logscale:\n                self._logger.info('Creating logscale"),("                self._values = numpy.logspace(low, high, num=self._bins, base=numpy.e)","                return numpy.logspace(low, high, num=self._bins, base=numpy.e)"),("                self._values = numpy.append(low, high)","                return numpy.append(low, high)"),("                self._values = numpy.linspace(self._low, self._high, self._bins)\n        return self._values\n","                return numpy.linspace(self._low, self._high, self._bins)\n"))
ref('p_logspace',F,("                self._values = numpy.logspace(low, high, num=self._bins, base=numpy.e)","                self._values = numpy.exp(numpy.linspace(low, high, self._bins))"))
ref('p_geomspace',F,("                self._values = numpy.append(low, high)","                self._values = numpy.concatenate((low, high))"))
ref('p_absdelta',F,("                delta_low = numpy.absolute(self._low - self._prior)\n                delta_high = numpy.absolute(self._high - self._prior)\n","                delta_low = abs(self._prior - self._low)\n                delta_high = abs(self._high - self._prior)\n                total = delta_low + delta_high\n"),("numpy.rint(delta_low / (delta_low + delta_high) * (self._bins + 1))","numpy.rint(delta_low / total * (self._bins + 1))"),("numpy.rint(delta_high / (delta_low + delta_high) * (self._bins + 1))","numpy.rint((self._bins + 1) * delta_high / total)"))
ref('p_apply_helper',F,("        if self._current_value is None:\n            raise ValueError('Current value of scale parameter %s has not been set' % self._name)\n        scaler = scale.Scale()\n        scaler.set_scale_factor(self._current_value)\n        return scaler.scale(spectrum, self._dimension)","        scaler = scale.Scale()\n        scaler.set_scale_factor(self._require_value())\n        return scaler.scale(spectrum, self._dimension)"),("    def get_dimension(self","    def _require_value(self):\n        if self._current_value is None:\n            raise ValueError('Current value of parameter %s has not been set' % self._name)\n        return self._current_value\n\n    def get_dimension(self"))
ref('p_smear_cond',F,("        cur_value = self._current_value\n        if cur_value > 10.0:\n            smearer = smear.EnergySmearLY()\n        else:\n            smearer = smear.EnergySmearRes()\n        smearer","        is_light_yield = self._current_value > 10.0\n        smearer = smear.EnergySmearLY() if is_light_yield else smear.EnergySmearRes()\n        smearer"))
ref('p_todict',F,("        parameter_dict = {}\n        parameter_dict['low'] = self._low\n        parameter_dict['high'] = self._high\n        parameter_dict['bins'] = self._bins\n        return parameter_dict","        return {'low': self._low, 'high': self._high, 'bins': self._bins}"))
ref('p_todict2',F,("        if basic:\n            return parameter_dict\n        parameter_dict['current_value'] = self._current_value\n        parameter_dict['best_fit'] = self._best_fit\n        parameter_dict['penalty_term'] = self._penalty_term\n        return parameter_dict","        if not basic:\n            parameter_dict.update(current_value=self._current_value, best_fit=self._best_fit, penalty_term=self._penalty_term)\n        return parameter_dict"))
ref('p_todict3',F,("        if basic:\n            return parameter_dict\n        parameter_dict['current_value'] = self._current_value\n        parameter_dict['best_fit'] = self._best_fit\n        parameter_dict['penalty_term'] = self._penalty_term\n        return parameter_dict","        if not basic:\n            for key in ('current_value', 'best_fit', 'penalty_term'):\n                parameter_dict[key] = getattr(self, '_' + key)\n        return parameter_dict"))
ref('p_argmax',F,("        indices = numpy.where(self.get_values() == value)[0]\n        if len(indices) == 0:\n            raise ValueError('No value %.2g found in parameter values for parameter %s.' % (value, self._name))\n        return int(indices[0])","        for index, candidate in enumerate(self.get_values()):\n            if candidate == value:\n                return index\n        raise ValueError('No value %.2g found in parameter values for parameter %s.' % (value, self._name))"))
ref('p_check_any',F,("        bad_indices = numpy.where((values < self._min) | (values > self._max))[0]\n        if len(bad_indices) != 0:","        bad_indices = numpy.flatnonzero(numpy.logical_or(values < self._min, values > self._max))\n        if bad_indices.size > 0:"))
