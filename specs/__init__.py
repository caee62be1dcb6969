"""Contracts: property -> tasks"""
import importlib

PROPS = ['C%02d' % i for i in range(1, 19)]


def tasks(prop):
    try:
        m = importlib.import_module('specs.' + prop.lower())
    except ModuleNotFoundError as e:
        if e.name != 'specs.' + prop.lower():
            raise
        return []
    return m.tasks()
