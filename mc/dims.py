"""Physical dimensions, independent of pint and of the docstring reader in fluids.units.

mc/dims.json holds, for every public formula function, the documented unit of each argument
and result as reviewed (see tools/make_dims.py), and the changes of base units under which the
function was found to be homogeneous.  The checks read that table, not the docstrings."""
from __future__ import annotations

import json
import math
import os
import re
from fractions import Fraction

HERE = os.path.dirname(os.path.abspath(__file__))
# metre, kilogram, second, kelvin, mole, ampere
B = "mkstnA"


def _v(**k):
    return tuple(Fraction(k.get(b, 0)) for b in B)


NAMES = {
    "m": (1.0, _v(m=1)), "kg": (1.0, _v(k=1)), "s": (1.0, _v(s=1)), "K": (1.0, _v(t=1)), "mol": (1.0, _v(n=1)), "A": (1.0, _v(A=1)),
    "g": (1e-3, _v(k=1)), "second": (1.0, _v(s=1)), "hr": (3600.0, _v(s=1)), "hour": (3600.0, _v(s=1)), "minute": (60.0, _v(s=1)), "day": (86400.0, _v(s=1)),
    "ft": (0.3048, _v(m=1)), "in": (0.0254, _v(m=1)), "inch": (0.0254, _v(m=1)), "mm": (1e-3, _v(m=1)), "km": (1e3, _v(m=1)),
    "lb": (0.45359237, _v(k=1)), "degR": (5.0 / 9.0, _v(t=1)), "lbmol": (453.59237, _v(n=1)), "kmol": (1e3, _v(n=1)),
    "gallons": (231 * 0.0254 ** 3, _v(m=3)), "N": (1.0, _v(k=1, m=1, s=-2)), "J": (1.0, _v(k=1, m=2, s=-2)), "W": (1.0, _v(k=1, m=2, s=-3)),
    "Pa": (1.0, _v(k=1, m=-1, s=-2)), "V": (1.0, _v(k=1, m=2, s=-3, A=-1)), "Hz": (1.0, _v(s=-1)), "ohm": (1.0, _v(k=1, m=2, s=-3, A=-2)),
    "psi": (0.45359237 * 9.80665 / 0.0254 ** 2, _v(k=1, m=-1, s=-2)), "bar": (1e5, _v(k=1, m=-1, s=-2)), "atm": (101325.0, _v(k=1, m=-1, s=-2)),
    "kPa": (1e3, _v(k=1, m=-1, s=-2)), "cP": (1e-3, _v(k=1, m=-1, s=-1)),
    "degrees": (1.0, _v()), "degree": (1.0, _v()), "radians": (180.0 / math.pi, _v()),
    "revolutions": (1.0, _v()), "rpm": (1.0 / 60.0, _v(s=-1)), "degC": (1.0, _v(t=1)), "dB": (1.0, _v()), "decibels": (1.0, _v()),
}
DIMENSIONLESS = {"", "-", "various", "base SI", "dimensionless"}
PREC = {"*": 1, "/": 1, "^": 2}


def parse(unit):
    """(factor to base units, exponents of the base dimensions)"""
    unit = unit.strip()
    if unit in DIMENSIONLESS:
        return 1.0, _v()
    tok = re.findall(r"[A-Za-z]+|[0-9.]+|[*/^()\-]", unit)
    pos = [0]

    def peek():
        return tok[pos[0]] if pos[0] < len(tok) else None

    def take():
        pos[0] += 1
        return tok[pos[0] - 1]

    def number():
        if peek() == "(":
            take()
            sg = -1 if peek() == "-" and take() else 1
            a = Fraction(take())
            if peek() == "/":
                take()
                a /= Fraction(take())
            assert take() == ")"
            return sg * a
        sg = -1 if peek() == "-" and take() else 1
        return sg * Fraction(take())

    def atom():
        t = take()
        if t == "(":
            r = expr()
            assert take() == ")", unit
        elif t == "1":
            r = (1.0, _v())
        else:
            r = NAMES[t]
        if peek() == "^":
            take()
            e = number()
            r = (r[0] ** float(e), tuple(e * d for d in r[1]))
        return r

    def expr():
        r = atom()
        while peek() in ("*", "/"):
            op = take()
            q = atom()
            sg = 1 if op == "*" else -1
            r = (r[0] * q[0] ** sg, tuple(a + sg * b for a, b in zip(r[1], q[1])))
        return r
    r = expr()
    assert pos[0] == len(tok), unit
    return r


_t = None


def table():
    global _t
    if _t is None:
        _t = json.load(open(os.path.join(HERE, "dims.json")))
    return _t


def dims(unit):
    return parse(unit)[1]


# changes of base units: the numerical value of a quantity is multiplied by these powers of two
GENS = {
    "m": dict(m=2), "m-": dict(m=-4), "k": dict(k=2), "k-": dict(k=-4), "s": dict(s=2), "s-": dict(s=-4), "t": dict(t=2), "t-": dict(t=-3),
    "n": dict(n=2), "n-": dict(n=-4), "A": dict(A=2),
    # these leave the standard gravity, the gas constant, a pressure, or gravity and a pressure, unchanged
    "g": dict(m=4, s=2), "g-": dict(m=-4, s=-2), "Rk": dict(k=2, n=2), "Rm": dict(m=2, n=4), "Rs": dict(s=2, n=-4), "Rt": dict(t=2, n=-2),
    "pk": dict(k=2, m=2), "ps": dict(k=4, s=2), "gp": dict(m=4, s=2, k=8), "vm": dict(m=2, s=2), "rho": dict(m=2, k=6), "rhog": dict(m=4, s=2, k=12),
}


def scale(v, unit, gen):
    d = dims(unit)
    e = sum((d[B.index(b)] * p for b, p in GENS[gen].items()), Fraction(0))
    return times(v, 2.0 ** float(e))


def times(v, f):
    if v is None or isinstance(v, (str, bool)):
        return v
    if isinstance(v, (list, tuple)):
        return type(v)(times(i, f) for i in v)
    if isinstance(v, dict):
        return {k: times(i, f) for k, i in v.items()}
    return v * f if f != 1.0 else v


def touches(gen, units):
    g = GENS[gen]
    return any(sum((dims(x)[B.index(b)] * p for b, p in g.items()), Fraction(0)) != 0 for x in units)


def result_units(entry, kw, sig):
    """documented units of the results of one call"""
    r = entry["returns"]
    if r == "missing":
        miss = [a for a in sig if a in entry["missing"] and kw.get(a) is None]
        return [[miss[0], entry["args"][miss[0]]]] if miss else None
    return r


def scale_result(w, rets, gen):
    if isinstance(w, dict):
        u = {n: x for n, x in rets}
        return {n: scale(v, u[n], gen) for n, v in w.items()}
    if isinstance(w, tuple):
        return tuple(scale(v, rets[i][1], gen) for i, v in enumerate(w))
    return scale(w, rets[0][1], gen)
