"""Which models, workload and trace specification decide each property."""
import json
import os

CHECKS = {
    'C01': {'area': 'keys', 'spec': 'Keys', 'models': ['M_Keys']},
    'C02': {'area': 'keys', 'spec': 'Keys', 'models': ['M_Keys']},
    'C03': {'area': 'keys', 'spec': 'Keys', 'models': []},
    'C04': {'area': 'keys', 'spec': 'Keys', 'models': []},
    'C05': {'area': 'keys', 'spec': 'Keys', 'models': ['M_Keys']},
    'C06': {'area': 'codec', 'spec': 'Codec', 'models': ['M_Codec']},
    'C07': {'area': 'codec', 'spec': 'Codec', 'models': ['M_Codec', 'M_Buffer']},
    'C08': {'area': 'codec', 'spec': 'Codec', 'models': ['M_Codec']},
    'C09': {'area': 'script', 'spec': 'Script', 'models': ['M_Script']},
    'C10': {'area': 'script', 'spec': 'Script', 'models': ['M_Script']},
    'C11': {'area': 'script', 'spec': 'Script', 'models': ['M_Script']},
    'C12': {'area': 'tx', 'spec': 'Tx', 'models': ['M_Tx']},
    'C13': {'area': 'tx', 'spec': 'Tx', 'models': ['M_Sign']},
    'C14': {'area': 'tx', 'spec': 'Tx', 'models': ['M_Multisig']},
    'C15': {'area': 'interp', 'spec': 'Interp', 'models': ['M_Cond', 'M_Vm']},
    'C16': {'area': 'interp', 'spec': 'Interp', 'models': ['M_Verify']},
    'C17': {'area': 'interp', 'spec': 'Interp', 'models': []},
    'C18': {'area': 'sig', 'spec': 'Sig', 'models': ['M_Der', 'M_Bind']},
    'C19': {'area': 'hd', 'spec': 'HD', 'models': ['M_HD']},
    'C20': {'area': 'ec', 'spec': 'Ec', 'models': ['M_Group', 'M_Ecdsa']},
    'C21': {'area': 'unit', 'spec': 'Unit', 'models': ['M_Unit']},
    'C22': {'area': 'uri', 'spec': 'Uri', 'models': ['M_Uri']},
    'C23': {'area': 'store', 'spec': 'Store', 'models': ['M_Store', 'M_StoreSim']},
    'C24': {'area': 'mal', 'spec': 'Mal', 'models': ['M_Mal']},
    'C25': {'area': 'util', 'spec': 'Util', 'models': ['M_Util']},
    'C26': {'area': 'op', 'spec': 'Op', 'models': ['M_Op']},
    'C27': {'area': 'net', 'spec': 'Net', 'models': ['M_Net']},
    'C28': {'area': 'mix', 'spec': 'Mix', 'models': ['M_Pure']},
    'C29': {'area': 'flow', 'spec': 'Flow', 'models': ['M_Flow']},
}

MODULE_OF = {'M_StoreSim': 'M_Store'}
# models explored at random: (model, tier) -> TLC options
SIMULATE = {
    ('M_Flow', 'quick'): ['-simulate', 'num=70', '-depth', '24'],
    ('M_Flow', 'thorough'): ['-simulate', 'num=400', '-depth', '40'],
    ('M_StoreSim', 'quick'): ['-simulate', 'num=300', '-depth', '35'],
    ('M_StoreSim', 'thorough'): ['-simulate', 'num=2500', '-depth', '51'],
}

ASSUMPTIONS = [
    'the Java overrides of spec/BigNat.tla, Crypto.tla and Curve.tla compute what the TLA+ definitions say '
    '(compared by spec/M_Base.tla on samples and published vectors)',
    'CPython evaluates the code under test; the projections of harness/obs.py are faithful',
]


def load_known():
    """The recorded defects: {(property, clause): what}."""
    out = {}
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.txt')
    with open(path) as f:
        for line in f:
            if line.startswith('known: '):
                prop, clause, what = [x.strip() for x in line[len('known: '):].split('|', 2)]
                out[prop, clause] = what
    return out


KNOWN = load_known()


def elsewhere(prop, clause):
    """A finding recorded under the property it breaks: it is the same in every history (C28)."""
    return prop == 'C28' and (clause[4:7], clause[4:]) in KNOWN


def known_finding(prop, clause, ev):
    return KNOWN.get((prop, clause))

NOT_APPLICABLE = {}
