import importlib
import os
import pkgutil


def load_all():
    for m in sorted(pkgutil.iter_modules([os.path.dirname(os.path.abspath(__file__))]), key=lambda m: m.name):
        importlib.import_module('contracts.' + m.name)
