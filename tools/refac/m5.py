F='limit/limit.py'
ref('l_getsignal',F,("                self._fitter._signal.scale(scale)","                self._fitter.get_signal().scale(scale)"))
ref('l_isinst',F,("            if type(fit_stats) is tuple:\n                fit_stats = fit_stats[0]\n            stats[i] = fit_stats\n","            if isinstance(fit_stats, tuple):\n                fit_stats = fit_stats[0]\n            stats[i] = fit_stats\n"))
ref('l_h2',F,("            fit_stats = self._fitter.fit()\n            if type(fit_stats) is tuple:\n                fit_stats = fit_stats[0]\n            stats[i] = fit_stats\n","            stats[i] = self._fit_at()\n"),("    def _dump_spectra(self","    def _fit_at(self):\n        fit_stats = self._fitter.fit()\n        if type(fit_stats) is tuple:\n            return fit_stats[0]\n        return fit_stats\n\n    def _dump_spectra(self"))
