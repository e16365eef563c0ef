"""RULES: property id -> function(check)."""
import importlib

RULES = {}


def rule(pid):
    def deco(f):
        RULES[pid] = f
        return f
    return deco


for _m in ('files', 'formats', 'convert', 'pipeline', 'options', 'parser', 'gps', 'timing', 'windows', 'hardware', 'naming', 'concat', 'stations', 'summary', 'noise', 'arrays', 'days', 'exists', 'state', 'documented', 'adequacy', 'readers', 'merge', 'refusals'):
    importlib.import_module('.' + _m, __name__)
