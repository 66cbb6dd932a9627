import os
from . import front, spec3
from .check import Ctx
CHECKS = {}
META = {}
def check(pid, technique=None, **meta):
    def deco(fn):
        CHECKS.setdefault(pid, []).append(fn)
        if technique: META[pid] = dict(meta, technique=technique)
        return fn
    return deco
SPEC_DIR = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
def add_specs(mods):
    for f in sorted(os.listdir(SPEC_DIR)):
        if f.endswith(".py"):
            n = "spec_" + f[:-3]
            mods[n] = spec3.load_spec(os.path.join(SPEC_DIR, f), f[:-3])
    return mods
