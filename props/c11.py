from vc.spec_sercbor import *
ID = "C11"
MODULES = {'sercbor': dict(srcs=['spec/sercbor.cpp', 'lib/src/type/Chrono.cpp', 'lib/src/type/EnumDescriptor.cpp', 'lib/src/type/Uuid.cpp'], roots='^(vh_|vtable for Vh|vtable for dots::type::EnumDescriptor$|vtable for dots::type::Descriptor<dots::type::Vector<std::__cxx11::basic_string)')}
DRIVER = dict(name='sercbor', src='drv/sercbor.cpp', lib=True, flags=['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-sanitize=alignment', '-D_GLIBCXX_DEBUG'])
TRUSTED = ['vc/stdmodels.py', 'CborReader and CborWriter by their contracts (C01-C04)', 'std::find_if (first element for which the real predicate holds)', 'std::vector, std::string (abstract)']
ASSUME = ['value descriptors implement the value descriptor interface (construct, destruct, assign; StructDescriptor is proved to in C06)', 'Vector and VectorDescriptor implement their virtual interface (size, element access, fill)', 'property descriptors of a type have distinct tags and distinct, valid offsets (C08)', 'the writer does not run out of memory']
def tasks(mods): return [(c.name, 'sercbor', c.verify) for c in contracts(mods['sercbor'])]
