import importlib


def get(pid):
    return importlib.import_module('vsim.checks.' + pid.lower()).CHECK
