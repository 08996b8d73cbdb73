SP=['05','06','07','08','09','10','11','14','15','19','32','34','35','33']
ref('fill_zip','core/spectra.py',
('''        for v in self._config.get_pars():
            if not self._config.get_par(v)._low <= kwargs[v] < \\
                    self._config.get_par(v)._high:
                raise ValueError("%s out of range: %s" % (v, kwargs[v]))
        bins = []
''','''        bins = []
        for v in self._config.get_pars():
            par = self._config.get_par(v)
            value = kwargs[v]
            if value < par._low or value >= par._high:
                raise ValueError("%s out of range: %s" % (v, value))
'''),rules=SP)
ref('nd_tuple','core/spectra.py',('''        projection = copy.copy(self._data)
        for i_axis in reversed(range(len(self._config.get_pars()))):
            if i_axis not in axes:
                projection = projection.sum(i_axis)
        return projection
''','''        others = tuple(i for i in range(len(self._config.get_pars()))
                       if i not in axes)
        return self._data.sum(axis=others)
'''),rules=SP)
ref('project_npsum','core/spectra.py',('''        projection = copy.copy(self._data)
        for i_axis in range(len(self._config.get_pars()) - 1):
            if axis < i_axis+1:
                projection = projection.sum(1)
            else:
                projection = projection.sum(0)
        return projection
''','''        n_axes = len(self._config.get_pars())
        if n_axes == 1:
            return self._data.copy()
        return numpy.sum(self._data, axis=tuple(
            i for i in range(n_axes) if i != axis))
'''),rules=SP)
ref('scale_inplace','core/spectra.py',('''        self._data = numpy.multiply(self._data,
                                    (num_decays / self._num_decays))
        self._num_decays = float(num_decays)
''','''        factor = num_decays / self._num_decays
        self._data = self._data * factor
        self._num_decays = float(num_decays)
'''),rules=SP)
ref('add_helper','core/spectra.py',('''        self._data += spectrum._data
        self._raw_events += spectrum._raw_events
''','''        self._merge(spectrum)

    def _merge(self, other):
        """ Adds the contents of another spectrum. """
        self._raw_events += other._raw_events
        self._data = self._data + other._data
        spectrum = other
'''),rules=SP)
ref('sum_np','core/spectra.py',('return self._data.sum()','return numpy.sum(self._data)'),rules=SP)
ref('rebin_loop','core/spectra.py',('''        compression_pairs = [(d, c//d) for d, c in zip(new_bins,
                                                       self._data.shape)]
        flattened = [l for p in compression_pairs for l in p]
''','''        flattened = []
        for new, old in zip(new_bins, self._data.shape):
            flattened += [new, old // new]
'''),rules=SP)
ref('shrink_slices','core/spectra.py',('''        cmd = "self._data["
        for i in range(len(slices_low)):
            low = str(slices_low[i])
            high = str(slices_high[i])
            cmd += low+":"+high+","
        cmd = cmd[:-1]+"]"
        self._data = eval(cmd)
''','''        self._data = self._data[tuple(
            slice(low, high) for low, high in zip(slices_low, slices_high))]
'''),rules=SP)
ref('bins_comp','core/spectra.py',('''        bins = []
        for v in self._config.get_pars():
            bins.append(self._config.get_par(v)._bins)
        self._data = numpy.zeros(shape=tuple(bins), dtype=float)
''','''        self._data = numpy.zeros(self._config.get_shape())
'''),rules=SP)
ref('surface_nd','core/spectra.py',('''        projection = copy.copy(self._data)
        for i_axis in reversed(range(len(self._config.get_pars()))):
            if i_axis != axis1 and i_axis != axis2:
                projection = projection.sum(i_axis)
        return projection
''','''        return self.nd_project([dimension1, dimension2])
'''),rules=SP)
ref('bg_loop','core/spectra.py',('''            if "mc" in self._name:
                self._background_name = self._name.split("mc")[0][:-1]
            elif "mix" in self._name:
                self._background_name = self._name.split("mix")[0][:-1]
            elif "reco" in self._name:
                self._background_name = self._name.split("reco")[0][:-1]
            else:
''','''            for tag in ("mc", "mix", "reco"):
                if tag in self._name:
                    stem = self._name.split(tag)[0]
                    self._background_name = stem[:-1]
                    break
            else:
'''),rules=SP+['25','26','18','19','20'])
ref('roi_direct','core/spectra.py',('''        kw_args = {kw_low: lower_limit, kw_high: upper_limit}
        self.shrink(**kw_args)
''','''        self.shrink(**dict([(kw_low, lower_limit), (kw_high, upper_limit)]))
'''),rules=SP)
