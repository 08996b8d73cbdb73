seed("c19-signal-once", "C19",
     [("fit/fit.py",
       "                    signal._fit_config = fit_config\n"
       "                    self._global_dict[background_name][cur_val] = signal\n",
       "                    signal._fit_config = fit_config\n"
       "                    signal.scale(num_decays)\n"
       "                    self._global_dict[background_name][cur_val] = signal\n"),
      ("fit/fit.py",
       "                signal.rebin(self._data._data.shape)\n"
       "                signal.scale(num_decays)\n",
       "                signal.rebin(self._data._data.shape)\n")],
     '''
     from echidna.fit.fit import Fit
     from echidna.core.parameter import ScaleParameter
     from echidna.core.config import GlobalFitConfig
     from collections import OrderedDict
     ax = [("energy_mc", (0., 10., 20))]
     d, s, g = [spectrum(ax, name=n) for n in ("data", "bkg", "sig")]
     s.set_background_name("bkg")
     g.set_background_name("sig")
     pars = OrderedDict()
     pars["energy_mc_scale"] = {
         "par": ScaleParameter("energy_mc_scale", 1., .1, .9, 1.1, 5,
                               "energy_mc"), "type": "global"}

     def fit():
         f = object.__new__(Fit)
         f._data, f._data_pars = d, ["energy_mc"]
         f._fixed_background, f._fixed_pars = d, ["energy_mc"]
         f._fit_config = GlobalFitConfig("c", pars)
         f._floating_backgrounds, f._floating_pars = [s], [["energy_mc"]]
         f._global_dict, f._use_pre_made = {}, False
         f._signal, f._signal_pars = g, ["energy_mc"]
         f._single_bin = f._per_bin = False
         f._test_statistic = Stat()
         f.shrink_to_data = lambda x: None
         return f
     f = fit()
     g.scale(10.)
     f._funct(1.05)
     g.scale(50.)
     a = f._funct(1.05)[0]
     b = fit()._funct(1.05)[0]
     check(abs(a - b) < 1e-6 * abs(b), "%s after another signal, %s" % (a, b))
     ''',
     "a second signal hypothesis at a fit point seen before",
     "the signal keeps the number of decays of the first hypothesis")

seed("c27-file-dots", "C27",
     [("core/config.py",
       "            name = filename[filename.rfind(\"/\")+1:filename.rfind(\".\")]\n",
       "            name = filename[filename.rfind(\"/\")+1:]\n"
       "            name = name[:name.find(\".\")]\n", None)],
     '''
     from echidna.core.config import SpectraConfig
     s = spectrum([("energy_mc", (0., 10., 10))])
     s.get_config().dump_to_file(path="", filename="te.v2.yml")
     c = SpectraConfig.load_from_file("te.v2.yml", name="")
     check(c.get_name() == "te.v2", c.get_name())
     ''',
     "a file name with two dots",
     "the configuration takes only the first part of the file name")

seed("c27-penalty-zero", "C27",
     [("core/parameter.py",
       "        parameter_dict[\"best_fit\"] = self._best_fit\n",
       "        parameter_dict[\"best_fit\"] = self._best_fit or None\n")],
     '''
     from echidna.core.parameter import ShiftParameter
     p = ShiftParameter("energy_mc_shift", 0., None, -1., 1., 3,
                        dimension="energy_mc")
     p.set_best_fit(0.)
     check(p.to_dict()["best_fit"] == 0., p.to_dict())
     ''',
     "a best fit of exactly zero",
     "a best fit of zero is stored as no best fit")

seed("c11-long-dimension", "C05",
     [("core/config.py",
       "            par_split = par.split('_')[:-1]\n",
       "            par_split = par.split('_')[:1]\n")],
     '''
     a = spectrum([("cos_a_mc", (0., 10., 10)), ("radial_mc", (0., 6., 6))])
     b = spectrum([("cos_a_reco", (0., 10., 10)), ("radial_mc", (0., 6., 6))])
     w = a.sum() + b.sum()
     a.add(b)
     check(abs(a.sum() - w) < 1e-9, "content")
     ''',
     "a dimension whose name contains an underscore",
     "the type of such a dimension cannot be found")

seed("c33-error-name", "C33",
     [("core/spectra.py",
       "                raise IndexError(\"%s not present in new spectrum\" % v)\n",
       "                raise IndexError(\"%s not present in %s\" %\n"
       "                                 (v, new_spectrum._name))\n")],
     '''
     a = spectrum([("energy_mc", (0., 10., 10))])
     b = spectrum([("radial_mc", (0., 10., 10))])
     check(raises(IndexError, a.add, b), "accepted")
     ''',
     "merging spectra of different dimensions",
     "the error message uses a name that is not defined")

seed("c33-wrong-keyword", "C33",
     [("fit/fit.py",
       "            self.set_fixed_background(total_spectrum, shrink)\n",
       "            self.set_fixed_background(total_spectrum, "
       "shrink_spectra=shrink)\n")],
     '''
     from echidna.fit.fit import Fit
     d = spectrum([("energy_mc", (0., 10., 10))], name="data")
     f = Fit({"energy": (0., 10.)}, Stat(), data=d)
     b = spectrum([("energy_mc", (0., 10., 10))], name="b")
     f.make_fixed_background({b: 5.}, shrink=False)
     check(f._fixed_background is not None, "not set")
     ''',
     "a fixed background that is not to be shrunk",
     "the call uses a keyword the method does not have")
