seed("c20-roi-range", "C20",
     [("fit/fit.py",
       "        self._roi = roi\n"
       "        self._logger.debug(\"Set _roi as %s\" % str(roi))\n"
       "        self._checked = False  # Must redo checks for a new roi\n",
       "        if sorted(roi) != sorted(getattr(self, \"_roi\", {})):\n"
       "            self._checked = False  # Must redo checks\n"
       "        self._roi = roi\n"
       "        self._logger.debug(\"Set _roi as %s\" % str(roi))\n")],
     '''
     from echidna.fit.fit import Fit
     d = spectrum([("energy_mc", (0., 10., 10))], name="data")
     b = floating("bg", (10., 20., 30.), 20.)
     f = Fit({"energy": (2., 8.)}, Stat(), data=d, floating_backgrounds=[b])
     f.fit()
     f.set_roi({"energy": (3., 7.)})
     check(raises(ValueError, f.fit), "data of another region was used")
     ''',
     "a new range for the same dimension after a first fit",
     "spectra are used without being checked against the new region")

seed("c21-zero-penalty", "C21",
     [("fit/minimise.py",
       "            self.set_penalty_term(penalty, tuple(indices))\n",
       "            if penalty:\n"
       "                self.set_penalty_term(penalty, tuple(indices))\n")],
     '''
     g = grid(rate("a", (1., 2., 3.), 2., 1.), rate("b", (1., 2.), 2.))
     g.minimise(lambda a, b: (a + b, a * b), Stat())
     g.minimise(lambda a, b: (a + b, (a - 2.) * b), Stat())
     w = numpy.array([[-1., -2.], [0., 0.], [1., 2.]])
     check((g._penalty_terms == w).all(), g._penalty_terms)
     ''',
     "a second search on the same grid with a vanishing penalty",
     "the penalty of the earlier search stays at that position")

seed("c21-rounded-values", "C21",
     [("fit/minimise.py",
       "                values[index] = value\n",
       "                values[index] = round(value, 6)\n")],
     '''
     g = grid(rate("a", (1.5e-7, 2.5e-7, 3.5e-7), 2.5e-7))
     seen = []
     g.minimise(lambda a: (seen.append(a), (a - 2e-7)**2, 0.)[1:], Stat())
     check(numpy.allclose(seen, (1.5e-7, 2.5e-7, 3.5e-7), atol=0), seen)
     ''',
     "parameter values below a millionth",
     "other values than those of the grid are evaluated")

seed("c22-par-order", "C22",
     [("fit/minimise.py",
       "        for index, par in zip(position, self._fit_config.get_pars()):",
       "        for index, par in zip(position,\n"
       "                              sorted(self._fit_config.get_pars())):")],
     '''
     g = grid(rate("b", (1., 2., 3.), 2.), rate("a", (4., 5., 6.), 5.))
     g.minimise(lambda b, a: ((b - 3.)**2 + (a - 4.)**2, 0.), Stat())
     got = [g._fit_config.get_par(n).get_best_fit() for n in ("b", "a")]
     check(got == [3., 4.], got)
     ''',
     "parameters that are not in alphabetical order",
     "best-fit values come from the position of another parameter")

seed("c22-find-raw", "C22",
     [("fit/minimise.py",
       "            minimum, position = self.find_minimum(minimum)",
       "            minimum, position = self.find_minimum(\n"
       "                self.get_raw_stats())")],
     '''
     g = grid(rate("a", (1., 2., 3.), 2., 1.), use_numpy=False)
     r = g.minimise(lambda a: (3. - a, 4. * (a - 1.)), Stat())
     check(float(r[0]) == 2. and float(r[1]) == 0., r)
     ''',
     "the search without numpy, where the penalty moves the minimum",
     "the minimum of the statistic alone is reported")

seed("c23-size", "C23",
     [("fit/minimise.py",
       "        if stats.shape != self._stats.shape:",
       "        if stats.size != self._stats.size:")],
     '''
     g = grid(rate("a", (1., 2., 3.), 2.), rate("b", (1., 2.), 2.))
     check(raises(ValueError, g.set_stats, numpy.zeros((2, 3))), "accepted")
     check(g._stats.shape == (3, 2), "stored")
     ''',
     "an array with as many entries in another shape",
     "a transposed array of statistics is accepted")

seed("c23-equal-penalties", "C23",
     [("fit/fit_results.py",
       "            for penalty in self._penalty_terms[i]:",
       "            for penalty in numpy.unique(self._penalty_terms[i]):")],
     '''
     from collections import OrderedDict
     from echidna.core.config import GlobalFitConfig, SpectraFitConfig
     from echidna.fit.fit_results import LimitResults
     c = GlobalFitConfig("fit", OrderedDict())
     for n in ("a", "b"):
         c.add_par(rate(n), "spectra")
     l = SpectraFitConfig("l", OrderedDict(rate=rate()), "s")
     r = LimitResults(c, spectrum([("e_mc", (0., 1., 2))]).get_config(), l)
     r.set_limit_stat(1, 5.)
     r.set_penalty_term(1, 2., "a")
     r.set_penalty_term(1, 2., "b")
     check(r.get_full_stats()[1] == 9., r.get_full_stats())
     ''',
     "two parameters with the same penalty",
     "equal penalties are counted once")

LIMIT = '''
     from echidna.limit.limit import Limit
     from collections import OrderedDict
     from echidna.core.config import GlobalFitConfig
     class Fitter(object):
         """Statistic of a fit with the signal at its present size."""
         def __init__(self, f, pen=None):
             self.f, self.pen, self._signal, self.seen = f, pen, None, []
             self.c = GlobalFitConfig("fit", OrderedDict())
             if pen is not None:
                 self.c.add_par(rate("a"), "spectra")
         def check_fit_config(self, s):
             pass
         def get_fit_config(self):
             return self.c
         def get_signal(self):
             return self._signal
         def set_signal(self, s, shrink=True):
             self._signal = s
         def remove_signal(self):
             self._signal = None
         def get_minimiser(self):
             if self.pen is None:
                 return None
             m = grid(rate("a"))
             m._fit_config.get_par("a").set_best_fit(1.)
             m._fit_config.get_par("a").set_penalty_term(self.p)
             return m
         def fit(self):
             x = self._signal.sum() if self._signal is not None else 0.
             self.seen.append(x)
             if self.pen is None:
                 return self.f(x)
             self.p = self.pen(x)
             return self.f(x), self.p
     def signal(values):
         return floating("sig", values, values[1], decays=100.,
                         fill=lambda i: numpy.ones(10) * 10.)
'''

seed("c24-small-scale", "C24",
     [("limit/limit.py",
       "            if not numpy.isclose(scale, 0.):\n"
       "                if self._fitter.get_signal() is None:",
       "            if not numpy.isclose(scale, 0., atol=1e-2):\n"
       "                if self._fitter.get_signal() is None:")],
     LIMIT + '''
     f = Fitter(lambda x: 1000. * x)
     l = Limit(signal((0., 0.004, 0.008, 0.02)), f)
     got = l.get_limit(limit=2.71, store_limit=False)
     check(numpy.isclose(got, 0.004), got)
     ''',
     "signal hypotheses below a hundredth of a decay",
     "small hypotheses are evaluated without signal")

seed("c24-penalty-twice", "C24",
     [("limit/limit.py",
       "            if type(fit_stats) is tuple:\n"
       "                fit_stats = fit_stats[0]\n"
       "            stats[i] = fit_stats\n",
       "            if type(fit_stats) is tuple:\n"
       "                fit_stats = sum(fit_stats)\n"
       "            stats[i] = fit_stats\n")],
     LIMIT + '''
     f = Fitter(lambda x: x, lambda x: 0.5 * x)
     l = Limit(signal((0., 1., 1.5, 2., 3.)), f)
     got = l.get_limit(limit=2.71, store_limit=False)
     check(numpy.isclose(got, 2.), got)
     ''',
     "a fit with penalty terms",
     "penalties are counted twice and the limit is too low")

seed("c24-array-equal", "C24",
     [("limit/limit.py", "            if entry > limit:",
       "            if entry >= limit or numpy.isclose(entry, limit,\n"
       "                                               rtol=1e-2):")],
     LIMIT + '''
     l = Limit(signal((0., 1., 2., 3.)), Fitter(lambda x: x))
     got = l.get_array_limit(numpy.array([0., 2.70, 2.9, 4.]), 2.71)
     check(got == 2., got)
     ''',
     "a statistic just below the threshold",
     "a hypothesis below the threshold is reported as the limit")

STORE = '''
     from echidna.output import store
     from collections import OrderedDict
'''

seed("c25-zero-decays", "C25",
     [("output/store.py",
       "        group.attrs[\"raw_events\"] = spectrum._raw_events\n",
       "        group.attrs[\"raw_events\"] = (spectrum._raw_events or\n"
       "                                     spectrum.get_num_decays())\n")],
     STORE + '''
     s = spectrum([("energy_mc", (0., 10., 10))], decays=42.)
     s._raw_events = 0
     s._background_name = "bg"
     store.dump("a.hdf5", s)
     r = store.load("a.hdf5")
     check(r._raw_events == 0 and r.get_num_decays() == 42., r._raw_events)
     ''',
     "a spectrum without raw events",
     "the number of decays is read back as raw events")

seed("c25-bipo-append", "C25",
     [("output/store.py",
       "        if overwrite and group_name in file_.keys():  # Delete",
       "        if append and group_name in file_.keys():  # Delete")],
     STORE + '''
     a = spectrum([("energy_mc", (0., 10., 10))], name="a")
     b = spectrum([("energy_mc", (0., 10., 10))], name="b")
     a._background_name = b._background_name = "bg"
     store.dump("a.hdf5", a)
     try:
         store.dump("a.hdf5", b, append=True)
     except Exception:
         pass
     check(store.load("a.hdf5").get_name() == "a", "first spectrum is gone")
     ''',
     "appending to a file that already holds a spectrum",
     "appending silently replaces the stored spectrum")

seed("c26-penalty-when-any", "C26",
     [("output/store.py",
       "                    fit_results._resets = sub_group.attrs[\"resets\"]\n",
       "                    fit_results._resets = int(bool(\n"
       "                        sub_group.attrs[\"resets\"]))\n")],
     STORE + '''
     from echidna.core.config import SpectraFitConfig
     from echidna.fit.fit_results import LimitResults
     g = grid(rate("a_rate", (1., 2., 3.), 2., 1.))
     g._resets = 2
     l = SpectraFitConfig("l", OrderedDict(rate=rate("rate", (1., 2.))), "s")
     r = LimitResults(g.get_fit_config(), g.get_spectra_config(), l)
     for i in range(2):
         r.set_fit_result(i, g)
     store.dump_limit_results("l.hdf5", r)
     got = store.load_limit_results("l.hdf5")
     check(got._fit_results[1]._resets == 2, got._fit_results[1]._resets)
     ''',
     "limit results whose fits were reset more than once",
     "the number of resets of stored fits is lost")

seed("c27-zero-sigma", "C27",
     [("core/parameter.py",
       "        parameter_dict[\"sigma\"] = self._sigma\n",
       "        parameter_dict[\"sigma\"] = self._sigma or None\n")],
     '''
     from echidna.core.config import SpectraFitConfig
     from collections import OrderedDict
     p = rate("rate", (1., 2., 3.), 2., 0.)
     c = SpectraFitConfig("c", OrderedDict(rate=p), "s")
     q = SpectraFitConfig.load(c.dump(), "s").get_par("rate")
     check(q.get_sigma() == 0., q.get_sigma())
     ''',
     "a parameter with a sigma of exactly zero",
     "the sigma is read back as no sigma")

seed("c27-dimension-kind", "C27",
     [("core/config.py",
       "                if syst == 'resolution' or syst == 'resolution_ly':",
       "                if syst in ('resolution', 'resolution_ly'):\n"
       "                    par_name = dim + '_resolution'")],
     '''
     from echidna.core.config import GlobalFitConfig
     from echidna.core.parameter import ResolutionParameter
     from collections import OrderedDict
     c = GlobalFitConfig("c", OrderedDict())
     n = "energy_mc_resolution_ly"
     c.add_par(ResolutionParameter(n, 200., None, 100., 300., 3,
                                   "energy_mc"), "global")
     r = GlobalFitConfig.load(c.dump()[0])
     check(list(r.get_pars()) == [n], list(r.get_pars()))
     ''',
     "a light-yield parameter",
     "the parameter is read back under another name")

seed("c28-nested-order", "C28",
     [("util/yaml_loader.py",
       "        return OrderedDict(loader.construct_pairs(node))\n",
       "        pairs = loader.construct_pairs(node)\n"
       "        if all(isinstance(k, int) for k, _ in pairs):\n"
       "            pairs = sorted(pairs)\n"
       "        return OrderedDict(pairs)\n")],
     '''
     from echidna.util import yaml_loader
     r = yaml_loader.ordered_load("b: {3: x, 1: y, 2: z}\\na: 1\\n")
     check(list(r) == ["b", "a"] and list(r["b"]) == [3, 1, 2], r)
     ''',
     "a mapping with numbers as keys, out of order",
     "the entries are sorted")

seed("c28-dump-none", "C28",
     [("util/yaml_loader.py",
       "            data.items())\n",
       "            [(k, v) for k, v in data.items() if v is not None])\n")],
     '''
     import io, yaml
     from collections import OrderedDict
     from echidna.util import yaml_loader
     o = io.StringIO()
     d = OrderedDict([("z", 1), ("sigma", None), ("a", 2)])
     yaml_loader.ordered_dump(d, stream=o)
     r = yaml_loader.ordered_load(o.getvalue())
     check(r == d and list(r) == list(d), r)
     ''',
     "an entry whose value is None",
     "the entry is missing from what is dumped")

DECAY = '''
     from echidna.calc import decay
     def iso(**kw):
         return decay.DBIsotope("Te130", 129.906229, 127.6, 0.3408, 3.69e-14,
                                4.03, **kw)
'''

seed("c29-n-atoms", "C29",
     [("calc/decay.py",
       "        half_life = self.eff_mass_to_half_life(eff_mass)\n"
       "        return self.half_life_to_counts(half_life, n_atoms, "
       "livetime)",
       "        half_life = self.eff_mass_to_half_life(eff_mass)\n"
       "        return self.half_life_to_counts(half_life,\n"
       "                                        livetime=livetime)")],
     DECAY + '''
     d = iso()
     n = d.get_n_atoms(loading=0.01)
     c = d.eff_mass_to_counts(0.1, n, 3.)
     check(numpy.isclose(d.counts_to_eff_mass(c, n, 3.), 0.1), c)
     ''',
     "an explicitly given number of atoms",
     "counts from an effective mass use the default number of atoms")

seed("c29-zero-scint", "C29",
     [("calc/decay.py",
       "                volume = (4./3.) * numpy.pi * outer_radius**3  # mm^3\n",
       "                volume = (4./3.) * numpy.pi * self._outer_radius**3\n"
       )],
     DECAY + '''
     d = iso()
     r = d.get_n_atoms(outer_radius=3000.) / d.get_n_atoms(outer_radius=6000.)
     check(numpy.isclose(r, 0.125), r)
     ''',
     "an outer radius other than the isotope's",
     "the given radius is ignored")

seed("c30-zero-livetime", "C30",
     [("calc/decay.py",
       "        if livetime <= 0.:\n"
       "            raise ValueError(\"Livetime should be positive and non "
       "zero\")\n"
       "        return activity*livetime",
       "        if not livetime or livetime < 0.:\n"
       "            livetime = livetime or 5.\n"
       "        if livetime < 0.:\n"
       "            raise ValueError(\"Livetime should be positive and non "
       "zero\")\n"
       "        return activity*livetime")],
     DECAY + '''
     for v in (0., -1.):
         check(raises(ValueError, iso().activity_to_counts, 3., v), v)
     ''',
     "a livetime of exactly zero",
     "the default livetime is used instead of an error")

seed("c30-loading", "C30",
     [("calc/decay.py",
       "            loading = self._loading\n"
       "        if loading < 0. or loading > 1.:\n",
       "            loading = self._loading\n"
       "        if target_mass is None and scint_mass is None and (\n"
       "                loading < 0. or loading > 1.):\n")],
     DECAY + '''
     check(raises(ValueError, iso().get_n_atoms, 1.2, None, None, 500.),
           "loading of 1.2 accepted")
     ''',
     "a given scintillator mass with an impossible loading",
     "the impossible loading enters the result")
