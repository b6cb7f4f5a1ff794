from vc.spec_host import *
ID = "C12"
MODULES = {'host': dict(srcs=['spec/host.cpp'], roots='^vh_')}
DRIVER = dict(name='hostfan', src='drv/hostfan.cpp', lib=True, flags=['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-D_GLIBCXX_DEBUG'])
TRUSTED = ['vc/stdmodels.py', 'std::unordered_set of connections, std::unordered_map of groups and guest connections (abstract finite sets and maps)', 'std::shared_ptr of connections (keeps alive what it refers to)', 'std::exception_ptr (identity of the exception)', 'std::string (opaque values)', 'Container iteration (an arbitrary finite sequence of instances)', 'logging (no effect)']
ASSUME = ['Connection::transmit sends or throws and does not change the host; Connection::handleError closes the connection, which can close others', 'members of groups are guest connections of the host', 'cached instances carry the time and sender of their last update (C09)', 'Dispatcher::dispatch behaves as proved in C10; handlers can do anything to the connections meanwhile', 'descriptors of static types are distinct objects']
def tasks(mods): return [(c.name, 'host', c.verify) for c in contracts()]
