from vc.spec_container import *
ID = "C09"
MODULES = {'container': dict(srcs=['spec/container.cpp'], roots='^(vh_|vtable for Vh)')}
DRIVER = dict(name='container', src='drv/container.cpp', lib=True, flags=['-fsanitize=address,undefined', '-fno-sanitize-recover=all'])
TRUSTED = ['vc/stdmodels.py', 'std::map and its node handles (abstract finite map ordered by key_compare), std::unordered_map and std::map of the pool (abstract finite maps)']
ASSUME = ['std::map lookup finds exactly the element equivalent under key_compare', 'instances in use have all their key properties set', 'value descriptors behave as the interface contract says', 'copying an instance into the container copies all properties (C06)', 'no exceptions from value operations (allocation failure)']
def tasks(mods): return [(c.name, 'container', c.verify) for c in contracts() + pool_contracts()]
