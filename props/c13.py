from vc.spec_conn import *
ID = "C13"
MODULES = {'host': dict(srcs=['spec/host.cpp'], roots='^vh_')}
DRIVER = dict(name='conn', src='drv/conn.cpp', lib=True, flags=['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-D_GLIBCXX_DEBUG'])
TRUSTED = ['vc/stdmodels.py', 'std::function and Handler (calls what it holds)', 'std::exception_ptr (identity of the exception)', 'std::string (opaque values)', 'Nonce, Digest (opaque functions of their arguments)', 'logging (no effect)', 'Struct::_assertHasProperties (C01, C02) reports through an exception']
ASSUME = ['channels, handlers and managers of authentications do anything that they can do, or throw, but do not re-enter the connection in the middle of a step of the handshake', 'each message is processed in one piece (one thread)', 'static types of the protocol messages are distinct objects', 'the connection outlives the processing of a message (its owner keeps it alive)']
def tasks(mods): return [(c.name, 'host', c.verify) for c in conn_contracts()]
