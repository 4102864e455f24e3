"""property id -> rule function"""
import importlib

TABLE = {}
MODULES = ["prog", "path", "region", "reject", "cover", "levels", "fill", "steps", "links", "tabs", "holes", "order", "drawn", "effects", "refs"]


def prop(pid):
    def deco(f):
        TABLE[pid] = f
        return f
    return deco


def find(pid):
    for m in MODULES:
        importlib.import_module("sa.rules." + m)
    return TABLE[pid]
