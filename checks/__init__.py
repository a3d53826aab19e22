import importlib

MODULES = {
    "fix": ["F01", "F02", "F03"],
    "build": ["B01", "B02", "B03", "B04", "C01", "C02"],
    "lint": ["L01", "L02"],
    "compare": ["K01"],
    "repro": ["D01"],
    "migrate": ["M01", "M02", "M03", "M04", "M05"],
    "paths": ["P01", "P02", "P03"],
    "mapping": ["P04"],
    "lib": ["R01", "R02", "R03", "R04"],
}
IDS = [i for v in MODULES.values() for i in v]


def load(prop):
    for mod, ids in MODULES.items():
        if prop in ids:
            return getattr(importlib.import_module(f"checks.{mod}"), prop)()
    raise SystemExit(f"unknown property {prop}")
