F='fit/minimise.py'
ref('m_sum_axes',F,("        combined = copy.copy(self._stats)\n        if self._per_bin:\n            for dim_size in self._spectra_config.get_shape():\n                combined = numpy.sum(combined, axis=-1)\n        combined = combined + self._penalty_terms\n        return combined\n","        combined = self._stats\n        if self._per_bin:\n            ndim = len(self._spectra_config.get_shape())\n            combined = combined.sum(axis=tuple(range(-ndim, 0)))\n        return combined + self._penalty_terms\n"))
ref('m_sum_helper',F,("        combined = copy.copy(self._stats)\n        if self._per_bin:\n            for dim_size in self._spectra_config.get_shape():\n                combined = numpy.sum(combined, axis=-1)\n        combined = combined + self._penalty_terms\n        return combined\n","        return self._sum_bins(self._stats) + self._penalty_terms\n\n    def _sum_bins(self, stats):\n        if not self._per_bin:\n            return stats\n        total = stats\n        for _ in range(len(self._spectra_config.get_shape())):\n            total = total.sum(axis=-1)\n        return total\n"),("        if self._per_bin:\n            for dim_size in self._spectra_config.get_shape():\n                combined = numpy.sum(combined, axis=-1)\n        combined = combined + self._penalty_terms[indices]\n        return combined","        return self._sum_bins(combined) + self._penalty_terms[indices]"))
ref('m_penalty_bestfit',F,("            parameter.set_best_fit(parameter.get_value_at(index))\n            if sigma is not None:\n                parameter.set_penalty_term(test_statistic.get_penalty_term(best_fit, prior, sigma))\n            else:\n                parameter.set_penalty_term(0.0)\n","            parameter.set_best_fit(best_fit)\n            penalty = 0.0\n            if sigma is not None:\n                penalty = test_statistic.get_penalty_term(best_fit, prior, sigma)\n            parameter.set_penalty_term(penalty)\n"))
ref('m_bestfit_helper',F,("        for index, par in zip(position, self._fit_config.get_pars()):\n            parameter = self._fit_config.get_par(par)\n            best_fit = parameter.get_value_at(index)\n            sigma = parameter.get_sigma()\n            prior = parameter.get_prior()\n            parameter.set_best_fit(parameter.get_value_at(index))\n            if sigma is not None:\n                parameter.set_penalty_term(test_statistic.get_penalty_term(best_fit, prior, sigma))\n            else:\n                parameter.set_penalty_term(0.0)\n","        for axis, par in enumerate(self._fit_config.get_pars()):\n            self._record_best_fit(self._fit_config.get_par(par), position[axis], test_statistic)\n"),("    def nd_project_stat(self","    def _record_best_fit(self, parameter, index, test_statistic):\n        best_fit = parameter.get_value_at(index)\n        parameter.set_best_fit(best_fit)\n        sigma = parameter.get_sigma()\n        if sigma is None:\n            parameter.set_penalty_term(0.0)\n        else:\n            parameter.set_penalty_term(test_statistic.get_penalty_term(best_fit, parameter.get_prior(), sigma))\n\n    def nd_project_stat(self"))
ref('m_argmin_where',F,("            position = numpy.nanargmin(minimum)\n            position = numpy.unravel_index(position, minimum.shape)\n            minimum = numpy.nanmin(minimum)\n","            position = numpy.unravel_index(numpy.nanargmin(minimum), minimum.shape)\n            minimum = minimum[position]\n"))
ref('m_product',F,("        index = 0\n        values = numpy.zeros(len(self._fit_config.get_pars()))\n        indices = numpy.zeros(len(self._fit_config.get_pars()), dtype=int)\n        for values, indices in self._get_values(index, values, indices):\n            yield (values, indices)\n","        parameters = [self._fit_config.get_par(par) for par in self._fit_config.get_pars()]\n        grids = [[(value, parameter.get_value_index(value)) for value in parameter.get_values()] for parameter in parameters]\n        for point in itertools.product(*grids):\n            values = numpy.array([value for value, _ in point])\n            indices = numpy.array([index for _, index in point], dtype=int)\n            yield (values, indices)\n"))
ref('m_enum_index',F,("            for value in parameter.get_values():\n                values[index] = value\n                indices[index] = parameter.get_value_index(value)\n","            for position, value in enumerate(parameter.get_values()):\n                values[index] = value\n                indices[index] = position\n"))
ref('m_proj_axes',F,("            projection = self.get_stats()\n            for axis, parameter in enumerate(self._fit_config.get_pars()):\n                if parameter not in parameters:\n                    projection = numpy.sum(projection, axis=axis - counter)\n                    counter = counter + 1\n","            projection = self.get_stats()\n            axes = tuple(axis for axis, parameter in enumerate(self._fit_config.get_pars()) if parameter not in parameters)\n            projection = numpy.sum(projection, axis=axes)\n"))
ref('m_known',F,("        for parameter in parameters:\n            if parameter not in itertools.chain(self._fit_config.get_pars(), self._spectra_config.get_pars()):\n                raise IndexError('Unknown parameter %s' % parameter)\n        counter","        known = list(self._fit_config.get_pars()) + list(self._spectra_config.get_pars())\n        for parameter in parameters:\n            if parameter not in known:\n                raise IndexError('Unknown parameter %s' % parameter)\n        counter"))
ref('m_reset_name',F,("            new_name = self._name.split('_')[0]\n            for part in self._name.split('_')[1:-1]:\n                new_name += '_' + part\n            self._resets += 1\n            self._name = new_name + '_' + str(self._resets)\n","            self._resets += 1\n            stem = self._name.rsplit('_', 1)[0]\n            self._name = '%s_%d' % (stem, self._resets)\n"))
ref('m_reset_join',F,("            new_name = self._name.split('_')[0]\n            for part in self._name.split('_')[1:-1]:\n                new_name += '_' + part\n            self._resets += 1\n            self._name = new_name + '_' + str(self._resets)\n","            self._resets += 1\n            self._name = '_'.join(self._name.split('_')[:-1] + [str(self._resets)])\n"))
ref('m_zeros_like',F,("        stats_shape = self._fit_config.get_shape()\n        if self._per_bin:\n            stats_shape = stats_shape + self._spectra_config.get_shape()\n        self._stats = numpy.zeros(stats_shape)\n        self._penalty_terms = numpy.zeros(self._fit_config.get_shape())\n","        shape = tuple(self._fit_config.get_shape())\n        self._penalty_terms = numpy.zeros(shape)\n        if self._per_bin:\n            shape += tuple(self._spectra_config.get_shape())\n        self._stats = numpy.zeros(shape)\n"))
ref('m_nanmin_first',F,("        minimum = numpy.where(numpy.isnan(array), numpy.inf, array)\n        coords = None","        minimum = array.copy()\n        minimum[numpy.isnan(minimum)] = numpy.inf\n        coords = None"))
ref('m_min_simple',F,("            minimum, position = self.find_minimum(minimum)\n","            position = self.find_minimum(minimum)[1]\n"))
ref('m_tuple_idx',F,("        for values, indices in self._get_fit_par_values():\n            result, penalty = funct(*values)\n","        for values, position in self._get_fit_par_values():\n            result, penalty = funct(*values)\n            indices = tuple(position)\n"),("            self.set_stat(result, tuple(indices))\n            self.set_penalty_term(penalty, tuple(indices))\n","            self.set_stat(result, indices)\n            self.set_penalty_term(penalty, indices)\n"))
ref('m_check_result',F,("                expected_shape = self._spectra_config.get_shape()\n                if result.shape != expected_shape:","                self._check_result(result)\n                if False:") if 0 else ("        for values, indices in self._get_fit_par_values():\n            result, penalty = funct(*values)\n            if self._per_bin:\n                if not isinstance(result, numpy.ndarray):\n                    raise TypeError('Expecting result of type numpy.ndarray (not %s), for per_bin enabled' % type(result))\n                expected_shape = self._spectra_config.get_shape()\n                if result.shape != expected_shape:\n                    raise ValueError('Expecting result to be numpy array with shape %s (not %s), for per_bin enabled' % (str(expected_shape), str(result.shape)))\n            else:\n                result = numpy.array(result)\n","        for values, indices in self._get_fit_par_values():\n            result, penalty = funct(*values)\n            result = self._as_stat(result)\n"),("    def nd_project_stat(self","    def _as_stat(self, result):\n        if not self._per_bin:\n            return numpy.array(result)\n        if not isinstance(result, numpy.ndarray):\n            raise TypeError('Expecting result of type numpy.ndarray (not %s), for per_bin enabled' % type(result))\n        expected = self._spectra_config.get_shape()\n        if result.shape != expected:\n            raise ValueError('Expecting result to be numpy array with shape %s (not %s), for per_bin enabled' % (expected, result.shape))\n        return result\n\n    def nd_project_stat(self"))
