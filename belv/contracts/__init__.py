import importlib, os, pkgutil


def load(prop):
    """import the contract module(s) of one property"""
    here = os.path.dirname(__file__)
    for m in sorted(os.listdir(here)):
        if m.lower().startswith(prop.lower()) and m.endswith('.py'):
            importlib.import_module('belv.contracts.' + m[:-3])
