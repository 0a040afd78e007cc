import importlib

MODULES = {}
for m, ps in {"steps": "P01 P02 P03 P04 P05", "adaptive": "P06 P13 P14 P15 P16", "walk": "P07 P08",
              "basics": "P38 P39 P41", "laws": "P34 P35 P37", "files": "P20 P21", "pyapi": "P22 P23 P24 P25", "persist": "P19", "effects": "P26 P27 P32", "panics": "P33", "witness": "P31", "scripts": "P40",
              "states": "P09 P10 P11 P12", "physics": "P17 P18 P28 P29 P30"}.items():
    for p in ps.split():
        MODULES[p] = m


def run(pid, r, tier):
    mod = importlib.import_module("checks." + MODULES[pid])
    getattr(mod, pid.lower())(r, tier)
