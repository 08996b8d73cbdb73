seed("c16-negative-bins", "C16",
     [("core/smear.py",
       "            entries = spectrum._data[bin]\n"
       "            if entries:\n",
       "            entries = spectrum._data[bin]\n"
       "            if entries > 0:\n", None)],
     '''
     from echidna.core import smear
     s = spectrum([("energy_mc", (1., 11., 10))],
                  lambda i: numpy.where(i == 5, -3., 2.))
     m = smear.EnergySmearLY(poisson=False)
     r = m.weighted_smear(s, "energy_mc")
     check(abs(r.sum() - s.sum()) < 1e-6, "%s of %s" % (r.sum(), s.sum()))
     ''',
     "a spectrum with a negative bin (a difference)",
     "negative contents are dropped by smearing")

seed("c18-level-directory", "C18",
     [("core/parameter.py",
       "            if 'shift' not in dir_list[-idx:]:\n"
       "                directory += 'shift/'\n",
       "            if 'shift' not in directory:\n"
       "                directory += 'shift/'\n")],
     '''
     from echidna.core.parameter import ShiftParameter
     p = ShiftParameter("energy_mc_shift", 0., None, -1., 1., 3, "energy_mc")
     p.set_current_value(.5)
     d, f = p.get_pre_convolved("/data/shifted/energy_mc/", "te.hdf5")
     check(d == "/data/shifted/energy_mc/shift/", d)
     ''',
     "a base directory whose name contains the word shift",
     "the shift directory is left out of the looked-up name")

seed("c18-second-convolution", "C18",
     [("core/parameter.py",
       "                x = value_string + \"sc\"\n"
       "                subbed = True\n",
       "                x = value_string + \"sc\"\n"
       "                subbed = not subbed\n")],
     '''
     from echidna.core.parameter import ScaleParameter
     p = ScaleParameter("energy_mc_scale", 1., None, .9, 1.1, 3, "energy_mc")
     p.set_current_value(1.05)
     d, f = p.get_pre_convolved("/data/energy_mc/", "te_1.0sc_a.hdf5")
     check(f == "te_1.05sc_a.hdf5", f)
     d, f = p.get_pre_convolved("/data/energy_mc/", "te_sc_1.0sc_a.hdf5")
     check(f == "te_1.05sc_1.05sc_a.hdf5", f)
     ''',
     "a file name with two parts that end in sc",
     "the value is appended a further time")

seed("c35-shared-smearer", "C35",
     [("core/parameter.py",
       "        scaler = scale.Scale()\n"
       "        scaler.set_scale_factor(self._current_value)\n",
       "        scaler = scale.Scale()\n"
       "        if self._current_value != self._prior:\n"
       "            scaler.set_scale_factor(self._current_value)\n")],
     '''
     from echidna.core.parameter import ScaleParameter
     from echidna.core import scale
     s = spectrum([("energy_mc", (0., 10., 10))])
     p = ScaleParameter("energy_mc_scale", 1.2, None, .9, 1.3, 5, "energy_mc")
     p.set_current_value(1.2)
     q = scale.Scale()
     q.set_scale_factor(1.2)
     a, b = p.apply_to(s), q.scale(s, "energy_mc")
     check(numpy.allclose(a._data, b._data), "not scaled")
     ''',
     "a scale parameter at its prior, which is not one",
     "the spectrum is not scaled at the prior")

seed("c17-boolean-yield", "C17",
     [("core/smear.py",
       "        if light_yield > 0.:\n",
       "        if light_yield >= 1.:\n")],
     '''
     from echidna.core import smear
     m = smear.EnergySmearLY()
     m.set_resolution(.5)
     check(m.get_resolution() == .5, m.get_resolution())
     ''',
     "a light yield between zero and one",
     "valid light yields below one are refused")

seed("c22-negative-minimum", "C22",
     [("fit/minimise.py",
       "            position = numpy.nanargmin(minimum)\n",
       "            position = numpy.nanargmin(numpy.fabs(minimum))\n")],
     '''
     g = grid(rate("a", (1., 2., 3.), 2.), rate("b", (1., 2.), 2.))
     g.minimise(lambda a, b: (-a, 0.), Stat())
     check(g.get_fit_config().get_par("a").get_best_fit() == 3.,
           g.get_fit_config().get_par("a").get_best_fit())
     ''',
     "statistics that take negative values",
     "the entry nearest to zero is taken for the minimum")

seed("c21-skip-known", "C21",
     [("fit/minimise.py",
       "            result, penalty = funct(*values)\n",
       "            if numpy.any(self._stats[tuple(indices)]):\n"
       "                continue  # Evaluated before\n"
       "            result, penalty = funct(*values)\n")],
     '''
     g = grid(rate("a", (1., 2., 3.), 2.), rate("b", (1., 2.), 2.))
     g.minimise(lambda a, b: (a + b, 0.), Stat())
     g.minimise(lambda a, b: (10. * a + b, 0.), Stat())
     check(g._stats[0, 0] == 11., g._stats)
     ''',
     "a second search on a grid that was searched before",
     "points that hold a value are not evaluated again")
