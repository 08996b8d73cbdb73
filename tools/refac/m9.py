F='core/config.py'
ref('c_alias',F,("            global_fit_config[main_key][dimension][name] = par.to_dict(basic)\n","            section = global_fit_config[main_key][dimension]\n            section[name] = par.to_dict(basic)\n"),rules=['27'])
ref('c_alias2',F,("        for par in self.get_global_pars():\n            dimension","        section = global_fit_config[main_key]\n        for par in self.get_global_pars():\n            dimension"),("            if dimension not in global_fit_config[main_key].keys():\n                global_fit_config[main_key][dimension] = OrderedDict()","            if dimension not in section:\n                section[dimension] = OrderedDict()"),("            global_fit_config[main_key][dimension][name] = par.to_dict(basic)\n","            section[dimension][name] = par.to_dict(basic)\n"),rules=['27'])
ref('c_dump_setdef',F,("            if dimension not in global_fit_config[main_key].keys():\n                global_fit_config[main_key][dimension] = OrderedDict()\n            name = par.get_name()\n            if dimension in name:\n                name = name.replace(dimension + '_', '')\n            global_fit_config[main_key][dimension][name] = par.to_dict(basic)\n","            section = global_fit_config[main_key].setdefault(dimension, OrderedDict())\n            name = par.get_name()\n            if dimension in name:\n                name = name.replace(dimension + '_', '')\n            section[name] = par.to_dict(basic)\n"),rules=['27'])
