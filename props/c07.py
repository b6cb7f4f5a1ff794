from .c06 import *
ID = "C07"
def tasks(mods): return select(mods, True)
