NT = '''
     import echidna.core.fill_spectrum as fs
     from echidna.core import dsextract
     from types import SimpleNamespace as NS
     def event(**kw):
         d = dict(evIndex=0, scintFit=1, energy=3., posx=1., posy=0., posz=0.,
                  mcPosx=1., mcPosy=0., mcPosz=0., mcEdep=3.,
                  mcEdepQuenched=3., mcke1=3., mcke2=0., mcke3=0.)
         d.update(kw)
         return NS(**d)
     class Chain(object):
         events = []
         def __init__(self, name):
             pass
         def Add(self, name):
             pass
         def GetEntries(self):
             return len(self.events)
         def __iter__(self):
             for e in self.events:
                 self.__dict__.update(e.__dict__)
                 yield self
     fs.TChain = Chain
     def fill(events, s, **kw):
         Chain.events = events
         return fs.fill_from_ntuple("f.root", spectrum=s, **kw)
     def spec(*axes):
         s = spectrum(axes or [("energy_reco", (0., 10., 10))],
                      lambda *i: 0. * i[0], decays=10.)
         return s
'''

seed("c31-fv-edge", "C31",
     [("core/dsextract.py",
       "            if numpy.fabs(numpy.sqrt((entry.posx)**2 +\n"
       "                                     (entry.posy)**2 +\n"
       "                                     (entry.posz)**2)) < self._fv_radius:\n"
       "                return True  # Passes fiducial volume cut\n",
       "            if not numpy.fabs(numpy.sqrt((entry.posx)**2 +\n"
       "                                         (entry.posy)**2 +\n"
       "                                         (entry.posz)**2)) > \\\n"
       "                    self._fv_radius:\n"
       "                return True  # Passes fiducial volume cut\n", 1)],
     NT + '''
     e = dsextract.function_factory("energy_reco", fv_radius=5.)
     check(not e.get_valid_ntuple(event(posx=3., posy=4.)), "on the edge")
     check(e.get_valid_ntuple(event(posx=3., posy=3.)), "inside")
     ''',
     "an event exactly at the fiducial radius",
     "events at the radius pass the cut of one extractor")

seed("c31-zradial-sign", "C31",
     [("core/dsextract.py",
       "        if entry.posz < 0.:\n"
       "            return -1. * (numpy.fabs(numpy.sqrt((entry.posx)**2 +\n",
       "        if entry.posz <= 0.:\n"
       "            return -1. * (numpy.fabs(numpy.sqrt((entry.posx)**2 +\n")],
     NT + '''
     e = dsextract.function_factory("zradial3_reco", outer_radius=5.)
     check(e.get_value_ntuple(event(posx=5.)) == 1., "on the equator")
     check(e.get_value_ntuple(event(posx=0., posz=-5.)) == -1., "below")
     ''',
     "an event with z = 0",
     "the ntuple value has the other sign than the root value")

seed("c31-outer-and-fv", "C31",
     [("core/dsextract.py",
       "    elif dimension == \"radial3_reco\":\n"
       "        if \"outer_radius\" in kwargs:\n"
       "            kwdict[\"outer_radius\"] = kwargs[\"outer_radius\"]\n",
       "    elif dimension == \"radial3_reco\":\n"
       "        if \"outer_radius\" in kwargs:\n"
       "            kwdict = {\"outer_radius\": kwargs[\"outer_radius\"]}\n")],
     NT + '''
     e = dsextract.function_factory("radial3_reco", fv_radius=5.,
                                    outer_radius=6.)
     check(not e.get_valid_ntuple(event(posx=5.5)), "outside passes")
     ''',
     "both a fiducial and an outer radius",
     "the fiducial cut is lost when an outer radius is given")

seed("c31-invalid-zero-energy", "C31",
     [("core/dsextract.py",
       "        if entry.scintFit == 1 and entry.energy > 0:\n"
       "            if self._fv_radius:\n",
       "        if entry.scintFit and entry.energy > 0:\n"
       "            if self._fv_radius:\n")],
     NT + '''
     e = dsextract.function_factory("energy_reco")
     check(not e.get_valid_ntuple(event(scintFit=-1)), "invalid fit passes")
     check(e.get_valid_ntuple(event()), "valid fit fails")
     ''',
     "an entry whose fit flag is neither 0 nor 1",
     "entries flagged with an error code count as reconstructed")

seed("c32-untriggered", "C32",
     [("core/fill_spectrum.py",
       "        if check_next and entry.evIndex < 1:\n",
       "        if check_next and entry.evIndex == 0:\n")],
     NT + '''
     s = fill([event(energy=2.), event(evIndex=-1), event(energy=4.)],
              spec(), bipo=True)
     check(s.sum() == 2. and s._raw_events == 2, (s.sum(), s._raw_events))
     ''',
     "a coincidence cut and an untriggered entry after an accepted event",
     "the event before an untriggered entry is lost")

seed("c32-raw-before", "C32",
     [("core/fill_spectrum.py",
       "            try:\n"
       "                spectrum.fill(**fill_kwargs)\n"
       "                spectrum._raw_events += 1\n"
       "            except ValueError:\n"
       "                pass\n"
       "        # Reset kwargs\n",
       "            spectrum._raw_events += 1\n"
       "            try:\n"
       "                spectrum.fill(**fill_kwargs)\n"
       "            except ValueError:\n"
       "                pass\n"
       "        # Reset kwargs\n")],
     NT + '''
     s = fill([event(energy=20.), event(energy=4.)], spec(), bipo=True)
     check(s.sum() == s._raw_events, (s.sum(), s._raw_events))
     ''',
     "a coincidence cut and an event outside the axis",
     "events outside the range count as raw events")

seed("c32-append-decays", "C32",
     [("core/fill_spectrum.py",
       "        spectrum._num_decays += chain.GetEntries()\n",
       "        spectrum._num_decays = spectrum._raw_events and \\\n"
       "            spectrum._num_decays + chain.GetEntries() or \\\n"
       "            chain.GetEntries()\n")],
     NT + '''
     s = spec()
     fill([event(energy=20.)] * 3, s)
     fill([event(energy=2.)] * 2, s)
     check(s._num_decays == 15., s._num_decays)
     ''',
     "appending to a spectrum that has no accepted events yet",
     "the generated events of the earlier files are forgotten")

seed("c32-stale-values", "C32",
     [("core/fill_spectrum.py",
       "        # Reset kwargs\n"
       "        fill_kwargs = {}\n"
       "        if entry.evIndex != 0:\n"
       "            check_next = False\n"
       "            continue\n",
       "        if entry.evIndex != 0:\n"
       "            check_next = check_next and entry.evIndex < 0\n"
       "            continue\n"
       "        # Reset kwargs\n"
       "        fill_kwargs = {}\n")],
     NT + '''
     s = fill([event(energy=2.), event(evIndex=-1), event(evIndex=-1)],
              spec(), bipo=True)
     check(s.sum() == 1., s.sum())
     ''',
     "a coincidence cut and two untriggered entries in a row",
     "an accepted event is filled once per untriggered entry that follows")

PL = '''
     for m in ("ticker", "colors"):
         stub("matplotlib." + m)
     import echidna.output.plot as plot
     s = spectrum([("energy_mc", (0., 10., 10)), ("radial_mc", (0., 6., 6))])
     s._style = {"color": "red"}
'''

seed("c34-style-label", "C34",
     [("output/plot.py",
       "    style = spectra.get_style()\n",
       "    style = spectra.get_style()\n"
       "    if style:  # A legend needs a label\n"
       "        style.setdefault(\"label\", spectra.get_name())\n")],
     PL + '''
     plot.plot_projection(s, "energy_mc", show_plot=False)
     check(s._style == {"color": "red"}, s._style)
     ''',
     "a spectrum with a style but without a label",
     "plotting writes a label into the spectrum's style")

seed("c34-label-pop", "C34",
     [("output/plot.py",
       "        elif spectra.get_style().get(\"label\"):\n"
       "            label = spectra.get_style().get(\"label\")\n",
       "        elif spectra.get_style().get(\"label\"):\n"
       "            label = spectra._style.pop(\"label\")\n")],
     PL + '''
     s._style = {"label": "a"}
     try:
         plot.spectral_plot({"a": {"spectra": s, "type": "background"}},
                            "energy_mc", show_plot=False)
     except TypeError:  # the stand-in for matplotlib has no positions
         pass
     check(s._style == {"label": "a"}, s._style)
     ''',
     "a label kept in the style of the spectrum",
     "the label is taken out of the spectrum when it is drawn")

seed("c34-stats-in-place", "C34",
     [("fit/minimise.py",
       "        combined = copy.copy(self._stats)\n",
       "        combined = self._stats\n"),
      ("fit/minimise.py",
       "        combined = combined + self._penalty_terms\n",
       "        combined += self._penalty_terms\n")],
     '''
     g = grid(rate("a", (1., 2., 3.), 2., 1.), rate("b", (1., 2.), 2.))
     g.minimise(lambda a, b: (a + b, a * b), Stat())
     first = g.get_stats().copy()
     check((g.get_stats() == first).all(), "statistics grow when read")
     ''',
     "reading the statistics of a total fit more than once",
     "the penalties are added to the stored statistics at every reading")

seed("c36-zero-fraction", "C36",
     [("utilities.py",
       "        if lin_err:\n",
       "        if lin_err and value + lin_err > 0.:\n")],
     '''
     import echidna.utilities as u
     a = numpy.array([[-1., 2.], [3., 4.]])
     e = u.get_array_errors(a, lin_err=.1)
     check(numpy.allclose(e, .1), e)
     ''',
     "a negative array element",
     "negative elements have no error (or raise)")

seed("c36-whole-floats", "C36",
     [("output/store.py",
       "        out_string += key+\":\"+str(value)+\";\"\n",
       "        out_string += key+\":\"+(\"%g\" % value if type(value) is float\n"
       "                                else str(value))+\";\"\n")],
     '''
     from echidna.output import store
     d = {"a": 1234567.25, "b": 3, "c": "x"}
     r = store.string_to_dict(store.dict_to_string(d))
     check(r == d, r)
     ''',
     "a float of more than six digits",
     "floats lose their last digits in the text form")

seed("c36-bool-as-int", "C36",
     [("output/store.py",
       "        elif type(value) is int:\n",
       "        elif isinstance(value, int):\n")],
     '''
     from echidna.output import store
     check(raises(TypeError, store.dict_to_string, {"a": True}), "accepted")
     check(store.string_to_dict(store.dict_to_string({"a": 3})) == {"a": 3},
           "int")
     ''',
     "a dictionary with a boolean value",
     "booleans are written as integers that cannot be read back")

