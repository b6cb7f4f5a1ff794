from .cbor_common import *
ID = "C04"
def tasks(mods): return skip_task(mods)
