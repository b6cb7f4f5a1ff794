from vc.spec_dispatch import *
ID = "C10"
MODULES = {'dispatch': dict(srcs=['spec/dispatch.cpp'], roots='^vh_')}
DRIVER = dict(name='dispatch', src='drv/dispatch.cpp', lib=True, flags=['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-D_GLIBCXX_DEBUG'])
TRUSTED = ['vc/stdmodels.py', 'std::map of handlers, std::unordered_map of types (abstract finite maps)', 'std::vector of ids (abstract sets), std::remove_if (its predicate runs on an arbitrary element)', 'std::function (an arbitrary callable that keeps the guarantee every dispatcher operation is proved to keep)']
ASSUME = ['handlers use the dispatcher only through its operations', 'clear() is not called by a handler that is being dispatched', 'nobody removes a handler before its id was returned', 'ids do not wrap around (2^63 handlers)', 'Container::insert/remove/findClone and ContainerPool::get behave as proved in C09', 'a handler can throw, the error handler can throw']
def tasks(mods): return [(c.name, 'dispatch', c.verify) for c in contracts()]
