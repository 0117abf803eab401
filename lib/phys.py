"""Reference constants and mass tables (snapshots of the evaluated data the code ships, kept in ref/)."""
import math, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AMU = 931.494013
MN = 1.00866491578 * AMU
MNU = 1.00866491578
MPU = 1.00727646688
ENEUTRON = 8.071431
HBARC = 6.58211889e-16 * 299792458.0 * 1e9
EBIN = 0.05


def _load(fn):
    d = {}
    for l in open(os.path.join(HERE, "ref", fn)):
        if l.strip() and not l.startswith("#"):
            za, m = l.split()
            d[int(za)] = float(m)
    return d


ME_FILE = _load("masses_dat.txt")      # data/masses.dat
ME_TAB = _load("audi2011.txt")         # built-in table


def me_file(z, a):
    return ME_FILE[1000 * z + a]


def me_tab(z, a):
    return ME_TAB[1000 * z + a]


def mass_file(z, a):
    return a * AMU + me_file(z, a)


def mass_tab(z, a):
    return a * AMU + me_tab(z, a)


def sn_decay(z, a):
    """neutron separation energy used along the decay of a fragment"""
    return me_tab(z, a - 1) + ENEUTRON - me_tab(z, a)


def sn_tab(z, a):
    return -me_tab(z, a) + me_tab(z, a - 1) + me_tab(0, 1)


def sn_file(z, a):
    return -me_file(z, a) + me_file(z, a - 1) + me_file(0, 1)


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def norm(a):
    return math.sqrt(dot(a, a))
