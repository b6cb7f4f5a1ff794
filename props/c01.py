from .cbor_common import *
ID = "C01"
def tasks(mods): return writer_tasks(mods) + reader_tasks(mods) + lemmas(mods)
