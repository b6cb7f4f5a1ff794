from .cbor_common import *
ID = "C03"
def tasks(mods): return reader_tasks(mods)
