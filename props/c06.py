from vc.spec_struct import *
ID = "C06"
MODULES = {'structops': dict(srcs=['spec/structops.cpp'], roots='^(vh[ts]?_|vtable for Vh)')}
DRIVER = dict(name='structops', src='drv/structops.cpp', lib=True, flags=['-fsanitize=address,undefined', '-fno-sanitize-recover=all'])
TRUSTED = ['vc/stdmodels.py (std::vector, std::optional layout)']
ASSUME = ['value descriptors of properties behave as the interface contract of Descriptor<Typeless> says (construct/destruct/assign/swap/equal/less on one slot); StructDescriptor itself is proved to be such an implementation, the scalar, vector and enum descriptors are only exercised by the bounded run-time check',
          'properties of a descriptor have pairwise different one-bit sets and do not overlap in memory (C08)', 'both operands have the same descriptor', 'no exceptions from value operations (allocation failure)',
          'StaticStruct<T> and DynamicStruct wrappers are covered by the bounded run-time check only']
COMPARE = ('equal', 'same', 'less', 'lessEqual', 'greater', 'greaterEqual', 'diffProperties')
def select(mods, cmp_):
    m = mods['structops']
    T = [(c.name, 'structops', c.verify) for c in ops() if (c.name.split('::')[1].replace('type-erased ', '') in COMPARE) == cmp_]
    for c in iterator_contracts(m):
        def go(e, c=c):
            install(e); c2 = next(x for x in iterator_contracts(e.m) if x.fn == c.fn); e.opinv = None; verify_step(c2)(e)
        T.append((c.name, 'structops', go))
    return T
def tasks(mods): return select(mods, False)
