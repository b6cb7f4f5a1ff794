from .cbor_common import *
ID = "C02"
def tasks(mods): return writer_tasks(mods)
