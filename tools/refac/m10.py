F='core/config.py'
ref('c_byindex',F,("        name = self.get_pars()[index]\n        return self.get_par(name)","        for position, name in enumerate(self.get_pars()):\n            if position == index:\n                return self.get_par(name)\n        raise IndexError('list index out of range')"),rules=['19'])
