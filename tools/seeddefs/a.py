seed("c05-bounds-type", "C05",
     [("core/spectra.py",
       "            if not numpy.allclose(self.get_config().get_par(v)._low,\n",
       "            if v == v_spec and not numpy.allclose(\n"
       "                                  self.get_config().get_par(v)._low,\n")],
     '''
     a = spectrum([("energy_mc", (0., 10., 10))])
     b = spectrum([("energy_reco", (1., 10., 10))])
     before = a._data.copy()
     check(raises(ValueError, a.add, b), "lower bounds differ")
     check((a._data == before).all(), "data changed")
     ''',
     "two spectra of different dimension type (mc/reco) and lower bound",
     "spectra covering different ranges are merged bin by bin")

seed("c06-int-decays", "C06",
     [("core/spectra.py", "self._num_decays = float(num_decays)",
       "self._num_decays = float(int(num_decays))", 1)],
     '''
     s = spectrum([("energy_mc", (0., 10., 10))], decays=50.)
     t = s.sum()
     s.scale(12.5)
     s.scale(50.)
     check(numpy.isclose(s.sum(), t), "sum %s != %s" % (s.sum(), t))
     ''',
     "scaling to a fractional number of decays, then again",
     "the recorded number of decays does not match the data")

seed("c07-unaligned-bounds", "C07",
     [("core/spectra.py",
       "            par.set_par(low=new_low, high=new_high, bins=new_bins)",
       "            par.set_par(low=max(new_low, kwargs[kw_low]),\n"
       "                        high=new_high, bins=new_bins)")],
     '''
     s = spectrum([("energy_mc", (0., 10., 10))])
     s.shrink(energy_mc_low=2.3, energy_mc_high=8.)
     p = s.get_config().get_par("energy_mc")
     check(numpy.isclose(p._low, 2.) and p._bins == 6, "low %s" % p._low)
     ''',
     "shrinking to a bound inside a bin",
     "the recorded lower bound no longer is that of the first data bin")

seed("c08-upper-edge", "C08",
     [("core/spectra.py", "<= kwargs[v] < \\\n",
       "<= kwargs[v] <= \\\n")],
     '''
     s = spectrum([("energy_mc", (0., 10., 10)), ("radial_mc", (0., 6., 3))])
     before = s._data.copy()
     check(raises(ValueError, s.fill, energy_mc=10., radial_mc=1.), "edge")
     check((s._data == before).all(), "data changed")
     ''',
     "a value exactly at the upper bound",
     "the upper edge is not rejected as out of range")

seed("c09-rebin-axis", "C09",
     [("core/spectra.py", "self._config.get_par(v)._bins % new_bins[i] != 0:",
       "self._data.size % new_bins[i] != 0:")],
     '''
     s = spectrum([("a_mc", (0., 1., 4)), ("b_mc", (0., 1., 6))])
     d = s._data.copy()
     try:
         s.rebin((4, 4))
     except ValueError:
         pass
     check(s._data.shape == d.shape and (s._data == d).all(), "data changed")
     check([s.get_config().get_par(p)._bins for p in ("a_mc", "b_mc")] ==
           [4, 6], "bin counts changed by a rejected request")
     ''',
     "a request whose bin count divides the whole but not its axis",
     "axes are changed before the request fails")

seed("c10-project-3d", "C10",
     [("core/spectra.py", "if axis < i_axis+1:", "if axis < i_axis:")],
     '''
     s = spectrum([("a_mc", (0., 1., 4)), ("b_mc", (0., 1., 6)),
                   ("c_mc", (0., 1., 8))])
     d = s._data
     for i, n in enumerate(("a_mc", "b_mc", "c_mc")):
         w = d.sum(tuple(k for k in range(3) if k != i))
         g = s.project(n)
         check(g.shape == w.shape and numpy.allclose(g, w), n)
     ''',
     "a projection onto the first or a middle axis",
     "the requested axis is summed away")

seed("c11-centre-range", "C11",
     [("core/parameter.py", "if bin > self._bins - 1:",
       "if bin > self._bins:")],
     '''
     from echidna.core.parameter import SpectraParameter
     p = SpectraParameter("energy_mc", 0., 10., 10)
     check(raises(ValueError, p.get_bin_centre, 10) or
           raises(IndexError, p.get_bin_centre, 10), "bin 10 of 10")
     check(numpy.isclose(p.get_bin_centre(9), 9.5), "centre")
     ''',
     "asking for the bin just past the last one",
     "a bin that does not exist gets a centre")

seed("c12-stale-grid", "C12",
     [("core/parameter.py", "        self._values = None\n",
       "        if 'bins' in kwargs:\n            self._values = None\n")],
     '''
     from echidna.core.parameter import FitParameter
     p = FitParameter("x", 1., None, 0., 2., 5)
     p.get_values()
     p.set_par(high=4.)
     check(numpy.allclose(p.get_values(), numpy.linspace(0., 4., 5)),
           "stale values %s" % p.get_values())
     ''',
     "reading the grid, changing a bound and reading it again",
     "the grid of the old bounds stays in use")

seed("c04-zero-value-skipped", "C04",
     [("fit/fit.py", "            if (sigma is not None):",
       "            if sigma is not None and current_value:")],
     '''
     from echidna.fit.fit import Fit
     from echidna.fit.test_statistic import BakerCousinsChi
     from echidna.core.parameter import RateParameter
     from echidna.core.config import GlobalFitConfig, SpectraFitConfig
     from collections import OrderedDict
     roi = {"energy": (0., 10.)}
     d = spectrum([("energy_mc", (0., 10., 10))], name="data")
     s = spectrum([("energy_mc", (0., 10., 10))], name="bkg")
     s.set_background_name("bkg")
     f = object.__new__(Fit)
     f._data, f._data_pars = d, ["energy_mc"]
     f._fixed_background, f._fixed_pars = d, ["energy_mc"]
     pars = OrderedDict()
     pars["r_rate"] = {"par": RateParameter("r_rate", 4., 2., 0., 8., 5),
                       "type": "spectral"}
     f._fit_config = GlobalFitConfig("c", pars)
     f._fit_config.get_global_pars = lambda: []
     f._floating_backgrounds, f._floating_pars = [s], [["energy_mc"]]
     f._global_dict, f._use_pre_made, f._signal = {}, False, None
     f._single_bin = f._per_bin = False
     f._test_statistic = BakerCousinsChi()
     f.shrink_to_data = lambda x: None
     check(f._funct(4.)[1] == 0., "penalty at the prior")
     check(numpy.isclose(f._funct(2.)[1], 1.), "penalty at one sigma")
     check(numpy.isclose(f._funct(0.)[1], 4.), "penalty at zero")
     ''',
     "a constrained parameter evaluated at exactly zero",
     "the pull from the prior vanishes at a current value of zero")
seed("c19-cache-precision", "C19",
     [("fit/fit.py",
       "            cur_val += parameter._name + "
       "str(parameter._current_value) + \"_\"",
       "            cur_val += \"%s%.3g_\" % (parameter._name,\n"
       "                                    parameter._current_value)")],
     '''
     from echidna.fit.fit import Fit
     from echidna.fit.test_statistic import BakerCousinsChi
     from echidna.core.parameter import ScaleParameter
     from echidna.core.config import GlobalFitConfig
     from collections import OrderedDict
     d = spectrum([("energy_mc", (0., 10., 20))], name="data")
     s = spectrum([("energy_mc", (0., 10., 20))], name="bkg")
     s.set_background_name("bkg")
     pars = OrderedDict()
     pars["energy_mc_scale"] = {
         "par": ScaleParameter("energy_mc_scale", 1., .1, .9, 1.1, 5,
                               "energy_mc"), "type": "global"}

     def fit():
         f = object.__new__(Fit)
         f._data, f._data_pars = d, ["energy_mc"]
         f._fixed_background, f._fixed_pars = d, ["energy_mc"]
         f._fit_config = GlobalFitConfig("c", pars)
         f._floating_backgrounds, f._floating_pars = [s], [["energy_mc"]]
         f._global_dict, f._use_pre_made, f._signal = {}, False, None
         f._single_bin = f._per_bin = False
         f._test_statistic = BakerCousinsChi()
         f.shrink_to_data = lambda x: None
         return f
     f = fit()
     f._funct(1.0001)
     a = f._funct(1.0004)[0]
     b = fit()._funct(1.0004)[0]
     check(a == b, "statistic %s after another point, %s alone" % (a, b))
     ''',
     "two grid values of a global parameter that agree to three digits",
     "a fit point reuses the spectra convolved for another point")

seed("c13-dimension-ignored", "C13",
     [("core/parameter.py", "            elif kw == \"logscale_deviation\":\n"
       "                self._logscale_deviation",
       "            elif kw == \"logscale_deviation\" and not "
       "self._logscale:\n                self._logscale_deviation")],
     '''
     from echidna.core.parameter import FitParameter
     p = FitParameter("x", 1., None, 0.5, 2., 5, logscale=True)
     p.set_par(logscale_deviation=True)
     check(p._logscale_deviation is True, "update ignored")
     ''',
     "an update of the deviation mode while the other mode is on",
     "the requested update is silently ignored")
