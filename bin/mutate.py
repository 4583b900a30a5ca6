"""Corrupts one observed number of a trace, to measure on every run how sensitive the specification is."""
import copy, random
from fractions import Fraction


def _isnum(s):
    return isinstance(s, str) and s not in ("-inf", "nan", "inf") and len(s) > 0 and s[0] in "-0123456789"


def _paths(x, p=()):
    if isinstance(x, dict):
        for k, v in x.items():
            yield from _paths(v, p + (k,))
    elif isinstance(x, list):
        for k, v in enumerate(x):
            yield from _paths(v, p + (k,))
    elif _isnum(x):
        yield p


def _get(x, p):
    for k in p:
        x = x[k]
    return x


def _val(s):
    if "@" in s:
        m, e = s.split("@")
        return Fraction(int(m)) * Fraction(2) ** int(e)
    return Fraction(s)


def mutants(traces, seed, count):
    r = random.Random(seed)
    out, tries = [], 0
    while len(out) < count and tries < 20 * count:
        tries += 1
        t = r.choice(traces)
        if t.get("adv"):
            continue
        c = [(i, p) for i, e in enumerate(t["ev"]) if isinstance(e["r"], dict) and "panic" not in e["r"] for p in _paths(e["r"], ("r",))]
        if not c:
            continue
        i, p = r.choice(c)
        t = copy.deepcopy(t)
        v = _val(_get(t["ev"][i], p))
        mode = r.choice(["nan", "flip", "rel", "zero"])
        if v == 0 and mode != "nan":
            v, mode = Fraction(1), "set"
        w = {"nan": None, "flip": -v, "rel": v * Fraction(1001, 1000), "zero": Fraction(0), "set": Fraction(1)}[mode]
        x = t["ev"][i]
        for k in p[:-1]:
            x = x[k]
        x[p[-1]] = "nan" if w is None else f"{w.numerator}/{w.denominator}"
        t["id"] = f"mutant-{len(out)}-{t['ev'][i]['op']}-{mode}-{t['id']}"
        out.append(t)
    return out
