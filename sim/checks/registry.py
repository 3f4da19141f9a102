import importlib

MODULES = {"C01": "c01", "C02": "c01", "C03": "c03", "C04": "c03", "C05": "c05", "C06": "c05",
           "C07": "c07", "C08": "c08", "C09": "c09", "C10": "c09", "C11": "c11", "C12": "c12",
           "C13": "c13", "C14": "c14", "C15": "c15", "C16": "c16",
           "C17": "c17", "C18": "c18"}


def get(prop):
    return getattr(importlib.import_module("sim.checks." + MODULES[prop]), prop)
