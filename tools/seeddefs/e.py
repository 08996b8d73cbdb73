seed("c05-empty-shares", "C05",
     [("core/spectra.py",
       "        self._data += spectrum._data\n"
       "        self._raw_events += spectrum._raw_events\n",
       "        if self._data.any():\n"
       "            self._data += spectrum._data\n"
       "        else:\n"
       "            self._data = spectrum._data\n"
       "        self._raw_events += spectrum._raw_events\n")],
     '''
     ax = [("energy_mc", (0., 10., 10))]
     t = spectrum(ax, lambda i: 0. * i)
     a, b = spectrum(ax), spectrum(ax)
     before = a._data.copy()
     t.add(a)
     t.add(b)
     check((a._data == before).all(), "the first spectrum grew")
     ''',
     "an empty receiver and two additions",
     "the first spectrum added shares its contents with the sum")

seed("c05-suffix-dimension", "C05",
     [("core/spectra.py",
       "            if v not in self._config.get_pars():\n"
       "                dim = spectrum.get_config().get_dim(v)\n",
       "            if v not in self._config.get_pars() and not types:\n"
       "                dim = spectrum.get_config().get_dim(v)\n")],
     '''
     a = spectrum([("energy_mc", (0., 10., 10)), ("radial_mc", (0., 6., 6))])
     b = spectrum([("energy_reco", (0., 10., 10)),
                   ("radial_reco", (0., 6., 6))])
     w = a.sum() + b.sum()
     a.add(b)
     check(abs(a.sum() - w) < 1e-9, "content")
     ''',
     "two dimensions of different kinds",
     "spectra that differ in the kind of two dimensions cannot be merged")

seed("c06-zero-decays", "C06",
     [("core/spectra.py",
       "        self._num_decays = float(num_decays)\n",
       "        if num_decays:  # Keep a number to scale back from\n"
       "            self._num_decays = float(num_decays)\n", 1)],
     '''
     s = spectrum([("energy_mc", (0., 10., 10))], decays=50.)
     s.scale(0.)
     check(s._num_decays == 0., s._num_decays)
     ''',
     "scaling to no decays at all",
     "an empty spectrum still claims to represent decays")

seed("c07-unnamed-axis", "C07",
     [("core/spectra.py",
       "            low_bin = int((kwargs[kw_low] - par._low) / par.get_width())\n",
       "            if kwargs[kw_low] == par._low and \\\n"
       "                    kwargs[kw_high] == par._high:\n"
       "                continue  # Nothing to do for this axis\n"
       "            low_bin = int((kwargs[kw_low] - par._low) / par.get_width())\n")],
     '''
     s = spectrum([("energy_mc", (0., 10., 10)), ("radial_mc", (0., 6., 6))])
     d = s._data.copy()
     s.shrink(radial_mc_low=1., radial_mc_high=5.)
     check(s._data.shape == (10, 4) and (s._data == d[:, 1:5]).all(),
           s._data.shape)
     ''',
     "shrinking a later axis only",
     "the first axis is cut with the bins of the later one")

seed("c08-zero-weight", "C08",
     [("core/spectra.py",
       "        self._data[tuple(bins)] += weight\n",
       "        self._data[tuple(bins)] += weight or 1.0\n")],
     '''
     s = spectrum([("energy_mc", (0., 10., 10))], lambda i: 0. * i)
     s.fill(weight=0., energy_mc=3.)
     check(s.sum() == 0., s.sum())
     ''',
     "an event of weight zero",
     "events of weight zero enter with weight one")

seed("c09-one-bin", "C09",
     [("core/spectra.py",
       "        for i in range(len(new_bins)):\n"
       "            self._data = self._data.sum(-1*(i+1))\n",
       "        for i in range(len(new_bins)):\n"
       "            if self._data.shape[-1*(i+1)] > 1:\n"
       "                self._data = self._data.sum(-1*(i+1))\n"
       "        self._data = self._data.squeeze()\n")],
     '''
     s = spectrum([("energy_mc", (0., 10., 10)), ("radial_mc", (0., 6., 6))])
     d = s._data.copy()
     s.rebin((1, 6))
     check(s._data.shape == (1, 6), s._data.shape)
     check(numpy.allclose(s._data[0], d.sum(0)), "content")
     ''',
     "rebinning an axis into a single bin",
     "the axis disappears from the data but not from the configuration")

seed("c10-requested-order", "C10",
     [("core/spectra.py",
       "        axes = []\n"
       "        for dim in dimensions:\n"
       "            axes.append(self._config.get_index(dim))\n"
       "        if len(axes) == len(self._config.get_pars()):\n",
       "        axes = []\n"
       "        for dim in self._config.get_pars():\n"
       "            if any(name in dim for name in dimensions):\n"
       "                axes.append(self._config.get_index(dim))\n"
       "        if len(axes) == len(self._config.get_pars()):\n")],
     '''
     s = spectrum([("energy_mc", (0., 10., 10)), ("radial_mc", (0., 6., 6)),
                   ("zradial_mc", (0., 4., 4))])
     p = s.nd_project(["energy_mc", "radial_mc"])
     check(p.shape == (10, 6), p.shape)
     ''',
     "dimension names that contain another dimension's name",
     "an axis that was not requested is kept")

seed("c12-same-count", "C12",
     [("core/parameter.py",
       "        self._values = None\n"
       "        self._bin_boundaries = None\n"
       "\n"
       "    def set_penalty_term(self, penalty_term):\n",
       "        if self._values is not None and \\\n"
       "                len(self._values) == self._bins and \\\n"
       "                self._values[-1] == self._high:\n"
       "            return  # Still the same grid\n"
       "        self._values = None\n"
       "        self._bin_boundaries = None\n"
       "\n"
       "    def set_penalty_term(self, penalty_term):\n")],
     '''
     from echidna.core.parameter import RateParameter
     r = RateParameter("r", 5., 1., 0., 10., 11)
     r.get_values()
     r.set_par(low=5.)
     check(r.get_values()[0] == 5., r.get_values())
     ''',
     "reading the values and then changing only the lower bound",
     "the old values are kept")

seed("c13-bound-order", "C13",
     [("core/parameter.py",
       "            if kw == \"prior\":\n",
       "            if kw == \"prior\" and self._low <= kwargs[kw]:\n")],
     '''
     from echidna.core.parameter import RateParameter
     r = RateParameter("r", 5., 1., 0., 10., 11)
     r.set_par(prior=-1., low=-2.)
     check(r._prior == -1. and r._low == -2., r._prior)
     ''',
     "a prior below the old lower bound",
     "the prior is silently not set")

seed("c20-second-floating", "C20",
     [("fit/fit.py",
       "            if len(self._floating_pars) != len(self._floating_backgrounds):\n",
       "            if len(self._floating_pars) > len(self._floating_backgrounds):\n")],
     '''
     from echidna.fit.fit import Fit
     from echidna.errors.custom_errors import CompatibilityError
     d = spectrum([("energy_mc", (0., 10., 10))], name="data")
     bs = [floating(n, (10., 20., 30.), 20.) for n in ("b0", "b1")]
     f = Fit({"energy": (0., 10.)}, Stat(), data=d, floating_backgrounds=bs)
     f._floating_pars = f._floating_pars[:1]
     check(raises(CompatibilityError, f.check_fitter), "accepted")
     ''',
     "fewer sets of region parameters than floating backgrounds",
     "a floating background without region parameters is silently left out")
