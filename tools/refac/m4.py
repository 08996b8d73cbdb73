F='limit/limit.py'
ref('l_enter_log',F,("            log_text += 'Signal Decays: %.4g\\n' % limit\n            for","            log_text += 'Signal Decays: {0:.4g}\\n'.format(limit)\n            for"))
ref('l_scales',F,("        for i, scale in enumerate(par.get_values()):","        for i, scale in enumerate(scales):"),("            limit = par.get_values()[i_limit]\n","            limit = scales[i_limit]\n"))
ref('l_scale_helper',F,("            if not numpy.isclose(scale, 0.0):\n                if self._fitter.get_signal() is None:\n                    self._fitter.set_signal(self._signal, shrink=False)\n                self._fitter._signal.scale(scale)\n            else:\n                self._fitter.remove_signal()\n                self._logger.warning('Removing signal in fit for scale %.4g' % scale)\n            fit_stats = self._fitter.fit()\n            if type(fit_stats) is tuple:\n                fit_stats = fit_stats[0]\n            stats[i] = fit_stats\n","            stats[i] = self._fit_at(scale)\n"),("    def _dump_spectra(self","    def _fit_at(self, scale):\n        if numpy.isclose(scale, 0.0):\n            self._fitter.remove_signal()\n            self._logger.warning('Removing signal in fit for scale %.4g' % scale)\n        else:\n            if self._fitter.get_signal() is None:\n                self._fitter.set_signal(self._signal, shrink=False)\n            self._fitter.get_signal().scale(scale)\n        fit_stats = self._fitter.fit()\n        if isinstance(fit_stats, tuple):\n            return fit_stats[0]\n        return fit_stats\n\n    def _dump_spectra(self"))
ref('l_nonzero',F,("            i_limit = min_bin + numpy.where(stats[min_bin:] > limit)[0][0]\n","            above = numpy.nonzero(stats[min_bin:] > limit)[0]\n            i_limit = above[0] + min_bin\n"))
ref('l_flatnonzero',F,("            i_limit = min_bin + numpy.where(stats[min_bin:] > limit)[0][0]\n","            i_limit = min_bin + numpy.flatnonzero(stats[min_bin:] > limit)[0]\n"))
ref('l_loop',F,("            i_limit = min_bin + numpy.where(stats[min_bin:] > limit)[0][0]\n","            i_limit = [i for i in range(min_bin, len(stats)) if stats[i] > limit][0]\n"))
ref('l_outofplace',F,("        stats -= min_stat\n        self._limit_results._stats = stats\n","        self._limit_results._stats = stats - min_stat\n"))
ref('l_items',F,("            if fit_results:\n                results_summary = fit_results.get_summary()\n                for par_name, value in results_summary.iteritems():\n","            if fit_results:\n                for par_name, value in fit_results.get_summary().items():\n"),("value.get('best_fit')","value['best_fit']"),("value.get('penalty_term')","value['penalty_term']"))
ref('l_shape',F,("        if type(min_stat) is numpy.ndarray:\n            shape = self._signal.get_fit_config().get_shape() + min_stat.shape\n        else:\n            shape = self._signal.get_fit_config().get_shape()\n","        shape = self._signal.get_fit_config().get_shape()\n        if isinstance(min_stat, numpy.ndarray):\n            shape = shape + min_stat.shape\n"))
ref('l_sumcomp',F,("        new_array = []\n        for entry in array:\n            new_array.append(entry.sum())\n        return numpy.array(new_array)","        return numpy.array([numpy.sum(entry) for entry in array])"))
ref('l_endswith',F,("                    if limit_fname[-5:] != '.hdf5':\n                        limit_fname += '.hdf5'\n","                    if not limit_fname.endswith('.hdf5'):\n                        limit_fname = limit_fname + '.hdf5'\n"))
ref('l_dump_helper',F,("        path = output.__default_save_path__ + '/'\n        fname = self._fitter.get_data()._name + '_data.hdf5'\n        store.dump(path + fname, self._fitter.get_data(), append=True)\n","        self._dump_one(self._fitter.get_data(), '_data')\n"),
("        if self._fitter.get_fixed_background():\n            fname = self._fitter.get_fixed_background()._name + '_fixed.hdf5'\n            store.dump(path + fname, self._fitter.get_fixed_background(), append=True)\n","        if self._fitter.get_fixed_background():\n            self._dump_one(self._fitter.get_fixed_background(), '_fixed')\n"),
("                fname = background._name + '_float.hdf5'\n                store.dump(path + fname, background, append=True)\n        fname = self._signal._name + '_signal.hdf5'\n        store.dump(path + fname, self._signal, append=True)\n","                self._dump_one(background, '_float')\n        self._dump_one(self._signal, '_signal')\n\n    def _dump_one(self, spectrum, suffix):\n        path = os.path.join(output.__default_save_path__, spectrum._name + suffix + '.hdf5')\n        store.dump(path, spectrum, append=True)\n"),("import yaml","import os\nimport yaml") if 0 else ("import numpy\n","import os\nimport numpy\n"))
ref('l_stats_comp',F,("        stats = []\n        for scale in signal_config.get_par('rate').get_values():\n            if not numpy.isclose(scale, 0.0):\n                self._signal.scale(scale)\n                self._fitter.set_signal(self._signal, shrink=False)\n            else:\n                self._fitter.remove_signal()\n            stats.append(self._fitter.fit())\n        return numpy.array(stats)","        scales = signal_config.get_par('rate').get_values()\n        stats = [None] * len(scales)\n        for i, scale in enumerate(scales):\n            if numpy.isclose(scale, 0.0):\n                self._fitter.remove_signal()\n            else:\n                self._signal.scale(scale)\n                self._fitter.set_signal(self._signal, shrink=False)\n            stats[i] = self._fitter.fit()\n        return numpy.array(stats)"))
ref('l_finder',F,("            i_limit = min_bin + numpy.where(stats[min_bin:] > limit)[0][0]\n","            i_limit = self._first_above(stats, min_bin, limit)\n"),("    def _dump_spectra(self","    def _first_above(self, stats, start, limit):\n        for index in range(start, len(stats)):\n            if stats[index] > limit:\n                return index\n        raise IndexError('no value above %s' % limit)\n\n    def _dump_spectra(self"))
