"""Import every rule file that exists."""
import importlib
import os

HERE = os.path.dirname(os.path.abspath(__file__))
for f in sorted(os.listdir(HERE)):
    if f.startswith('rules_') and f.endswith('.py'):
        importlib.import_module('kmlint.' + f[:-3])
