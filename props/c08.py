from vc.spec_layout import *
ID = "C08"
MODULES = {'propset': dict(srcs=['spec/propset.cpp'], roots='^vh_'), 'convert': dict(srcs=['spec/convert.cpp'], roots='^(vh_|__cxx_global_var_init)')}
DRIVER = dict(name='layout', src='drv/layout.cpp', lib=True, flags=['-fsanitize=address,undefined', '-fno-sanitize-recover=all'])
TRUSTED = ['vc/stdmodels.py (std::vector, std::string)', 'Registry::findType/findStructType/registerType, StructDescriptor and PropertyDescriptor constructors (contracts of vc/spec_layout.py: arguments recorded, arbitrary results)']
ASSUME = ['every registered type has an alignment that is a power of two up to 4096 and a size below 2^32', 'less than 2^20 described properties (more than 31 always end in an exception)', 'strings are opaque: equality of type names is decided by the registry', 'std::optional/dots::Vector layouts as compiled',
          'enum conversion, struct -> description, registration of value types and construction of instances are covered by the bounded run-time check only']
def tasks(mods):
    T = [(c.name, 'propset', c.verify) for c in offsets(mods['propset'])]
    return T + [(Convert.name, 'convert', lambda e: Convert('vh_convert_struct').verify(e))]
