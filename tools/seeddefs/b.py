SPEC = '''
     from echidna.core import smear, scale, shift
     s = spectrum([("energy_mc", (0., 10., 10)), ("radial_mc", (0., 6., 6))])
'''

seed("c14-random-radius-name", "C14",
     [("core/shift.py",
       "            old_data = eval(\"spectrum._data\"+old_slice)\n"
       "            unshifted_sum = float(old_data.sum())\n",
       "            old_data = eval(\"spectrum._data\"+old_slice)\n"
       "            numpy.clip(old_data, 0., None, out=old_data)\n"
       "            unshifted_sum = float(old_data.sum())\n")],
     '''
     from echidna.core import shift
     s = spectrum([("energy_mc", (0., 10., 10))],
                  lambda i: numpy.where(i == 4, -2., 3.))
     before = s._data.copy()
     m = shift.Shift()
     m.set_shift(2.)
     m.shift(s, "energy_mc")
     check((s._data == before).all(), "the input spectrum was changed")
     ''',
     "a shift by whole bins of a spectrum with a negative bin",
     "the input spectrum's negative bins are set to zero")

seed("c14-raw-events", "C14",
     [("core/scale.py",
       "        scaled_spec._num_decays = scaled_spec.sum()\n"
       "        scaled_spec.scale(prescale_sum)\n",
       "        if scaled_spec.sum() != prescale_sum:\n"
       "            spectrum._raw_events = int(scaled_spec.sum())\n"
       "        scaled_spec._num_decays = scaled_spec.sum()\n"
       "        scaled_spec.scale(prescale_sum)\n")],
     SPEC + '''
     s._raw_events = 17
     m = scale.Scale()
     m.set_scale_factor(1.1)
     m.scale(s, "energy_mc")
     check(s._raw_events == 17, "raw events of the input changed")
     ''',
     "a scale factor that moves content out of range",
     "the input's raw event count is overwritten")

seed("c15-decays-after", "C15",
     [("core/scale.py",
       "        scaled_spec.scale(prescale_sum)\n"
       "        scaled_spec._num_decays = spectrum._num_decays\n",
       "        scaled_spec.scale(spectrum._num_decays)\n"
       "        scaled_spec._num_decays = spectrum._num_decays\n")],
     SPEC + '''
     m = scale.Scale()
     m.set_scale_factor(1.05)
     r = m.scale(s, "energy_mc")
     check(numpy.isclose(r.sum(), s.sum()), "%s %s" % (r.sum(), s.sum()))
     ''',
     "a spectrum whose content differs from its decays",
     "the result has another total")

seed("c15-shift-whole-bin-axis", "C15",
     [("core/shift.py",
       "            current = x - shift\n",
       "            current = x - (shift if shift > -step else shift + step)\n"
       )],
     SPEC + '''
     s = spectrum([("energy_mc", (0., 10., 10))],
                  lambda i: (i == 6) * 1.)
     m = shift.Shift()
     m.set_shift(-2.5)
     r = m.shift(s, "energy_mc")
     c = (r._data * (numpy.arange(10) + 0.5)).sum() / r._data.sum()
     check(abs(c - 4.) < 0.3, "moved to %s" % c)
     ''',
     "a shift downwards by more than a bin",
     "content is moved one bin less than asked")

seed("c16-radius-weights", "C16",
     [("core/smear.py", "        low = mean - self._num_sigma*sigma\n"
       "        high = mean + self._num_sigma*sigma\n",
       "        low = mean - self._num_sigma * sigma\n"
       "        high = mean + min(self._num_sigma, 5.) * sigma\n")],
     SPEC + '''
     m = smear.RadialSmear()
     m.set_resolution(2.)
     m.set_num_sigma(9.)
     lo, hi = m.get_bounds(100., 2.)
     check(lo == 82. and hi == 118., "%s %s" % (lo, hi))
     ''',
     "more than five standard deviations requested",
     "the spread is cut off above")

seed("c16-poisson-cache", "C16",
     [("core/smear.py",
       "        if photons not in self._log_factorial:",
       "        if int(lamb) not in self._log_factorial:", 0),
      ("core/smear.py",
       "            self._log_factorial[photons] = ",
       "            self._log_factorial[int(lamb)] = ", 0),
      ("core/smear.py",
       "self._log_factorial[photons] -",
       "self._log_factorial[int(lamb)] -", 0)],
     SPEC + '''
     import math
     m = smear.EnergySmearLY()
     for x, l in ((1., 1.), (1.2, 1.), (1.4, 1.), (2., 2.1), (2.4, 2.1)):
         k = int(x * 200)
         w = math.exp(k * math.log(l * 200) - math.lgamma(k + 1) - l * 200)
         check(numpy.isclose(m.calc_poisson_energy(x, l), w), (x, l))
     ''',
     "two energies smeared with the same expectation",
     "Poisson weights use the factorial of another count")

seed("c16-sigma-bin", "C16",
     [("core/smear.py",
       "                        sigma = self.get_sigma(mean)\n",
       "                        sigma = self.get_sigma(max(mean, 1.))\n", 0)],
     '''
     from echidna.core import smear
     s = spectrum([("energy_mc", (0., 2., 20))], lambda i: (i == 3) * 1.)
     m = smear.EnergySmearLY(poisson=False)
     m.set_resolution(20.)
     r = m.weighted_smear(s, "energy_mc")
     e = 0.05 + 0.1 * numpy.arange(20)
     g = numpy.exp(-(e - 0.35)**2 / (2 * 0.35 / 20.))
     keep = r._data > 0
     check(numpy.allclose(r._data[keep], (g[keep] / g[keep].sum())), r._data)
     ''',
     "content below an energy of one",
     "the standard deviation of low energies is too large")

seed("c17-sigma-kept", "C17",
     [("core/smear.py",
       "        if (num_sigma > 0.):\n"
       "            self._num_sigma = float(num_sigma)\n"
       "        else:\n",
       "        self._num_sigma, old = float(num_sigma), self._num_sigma\n"
       "        if not self._num_sigma > 0.:\n"
       "            if self._num_sigma < 0.:\n"
       "                self._num_sigma = old\n")],
     SPEC + '''
     m = smear.RadialSmear()
     m.set_num_sigma(3.)
     for v in (-1., 0.):
         check(raises(ValueError, m.set_num_sigma, v), "accepted")
         check(m.get_num_sigma() == 3., "setting changed by %s" % v)
     ''',
     "a rejected value of exactly zero",
     "the previous setting is lost")

seed("c17-resolution-one", "C17",
     [("core/smear.py",
       "        if (resolution > 0. and resolution < 1.):",
       "        if (resolution > 0. and int(resolution) < 1 or\n"
       "                resolution == 1.):")],
     SPEC + '''
     m = smear.EnergySmearRes()
     m.set_resolution(0.05)
     for v in (1., 1.5, 0., -0.2):
         check(raises(ValueError, m.set_resolution, v), "accepted %s" % v)
         check(m.get_resolution() == 0.05, "changed")
     ''',
     "an energy resolution of exactly one",
     "an impossible resolution is accepted")

seed("c18-rounded-value", "C18",
     [("core/parameter.py",
       "        value_string = str(self._current_value)\n",
       "        value_string = \"%.6g\" % self._current_value\n", 2)],
     '''
     from echidna.core.parameter import ShiftParameter
     p = ShiftParameter("shift", 0., None, -1., 1., 5, "energy_mc")
     out = []
     for v in (0.12345671, 0.12345674):
         p.set_current_value(v)
         out.append(p.get_pre_convolved("data/energy_mc/", "a_0sh.hdf5")[1])
     check(out[0] != out[1], "two values share the name %s" % out[0])
     ''',
     "two values that differ only past the sixth digit",
     "a spectrum convolved with another value is looked up")

seed("c18-unset-value", "C18",
     [("core/parameter.py",
       "        if self._current_value is None:\n"
       "            raise ValueError(\"Current value of fit parameter %s \"\n"
       "                             \"has not been set\" % self._name)\n"
       "\n"
       "        if directory[-1] != '/':\n"
       "            directory += '/'\n"
       "        if not added_dim:\n",
       "        if self._current_value is None and not added_dim:\n"
       "            raise ValueError(\"Current value of fit parameter %s \"\n"
       "                             \"has not been set\" % self._name)\n"
       "        if directory[-1] != '/':\n"
       "            directory += '/'\n"
       "        if not added_dim:\n", 1)],
     '''
     from echidna.core.parameter import ScaleParameter
     p = ScaleParameter("sc", 1., None, 0.5, 1.5, 5, "energy_mc")
     for added in (False, True):
         check(raises(ValueError, p.get_pre_convolved, "data/energy_mc/",
                      "a_1sc.hdf5", added), "named without a value")
     ''',
     "a parameter without value applied after another one",
     "a name with the value None is produced")

seed("c35-ly-threshold", "C35",
     [("core/parameter.py",
       "            smearer = smear.EnergySmearRes()\n"
       "        smearer.set_resolution(self._current_value)\n",
       "            smearer = smear.EnergySmearRes()\n"
       "        smearer.set_resolution(cur_value if cur_value > 1. else\n"
       "                               min(cur_value, 0.99))\n")],
     '''
     from echidna.core.parameter import ResolutionParameter
     s = spectrum([("energy_mc", (0., 10., 10))])
     p = ResolutionParameter("resolution", 0.05, None, 0.01, 1.5, 5,
                             "energy_mc")
     p.set_current_value(0.995)
     a = p.apply_to(s)
     from echidna.core import smear
     m = smear.EnergySmearRes()
     m.set_resolution(0.995)
     b = m.weighted_smear(s, "energy_mc")
     check((a._data == b._data).all(), "another resolution was used")
     ''',
     "a resolution above 0.99",
     "the convolution uses another value than the current one")

seed("c35-rate-unset", "C35",
     [("core/parameter.py",
       "        if self._current_value is None:\n"
       "            raise ValueError(\"Current value of rate parameter %s \"\n"
       "                             \"has not been set\" % self._name)\n"
       "        spectrum.scale(self._current_value)\n",
       "        if self._current_value is None and self._prior is None:\n"
       "            raise ValueError(\"Current value of rate parameter %s \"\n"
       "                             \"has not been set\" % self._name)\n"
       "        if self._current_value is None:\n"
       "            self._current_value = self._prior\n"
       "        spectrum.scale(self._current_value)\n")],
     '''
     from echidna.core.parameter import RateParameter
     s = spectrum([("energy_mc", (0., 10., 10))])
     p = RateParameter("rate", 50., 5., 0., 100., 11)
     check(raises(ValueError, p.apply_to, s), "applied without a value")
     ''',
     "a rate with a prior and no current value",
     "the prior is silently used as the value")
