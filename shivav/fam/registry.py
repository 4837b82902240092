"""Property id -> units of contracts."""
import importlib

MODS = {
    'C01': 'carray', 'C02': 'carray', 'C03': 'carray', 'C04': 'carray', 'C05': 'loops', 'C06': 'loops', 'C07': 'loops',
    'C08': 'numerics', 'C09': 'numerics', 'C10': 'numerics', 'C11': 'numerics',
    'C12': 'fe', 'C13': 'fe', 'C14': 'fe', 'C15': 'fe', 'C16': 'fe', 'C17': 'fe', 'C21': 'fe', 'C24': 'fe', 'C25': 'fe',
    'C18': 'misc', 'C19': 'misc', 'C20': 'misc', 'C23': 'misc', 'C22': 'ub',
}
META = {}


def units(prop, tier):
    m = importlib.import_module('shivav.fam.' + MODS[prop])
    META[prop] = m.META[prop]
    return getattr(m, prop)(tier)
