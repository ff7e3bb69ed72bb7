"""Strategies and helpers for explicit models, shared between properties."""
import itertools
import numpy as np
from hypothesis import strategies as st
from vt import models as M
from vt.gen import *
from pygsti.objects import Circuit, Label
from pygsti.objects.label import CircuitLabel


@st.composite
def explicit_specs(draw, kinds=None, nq=None, eps=True, inst=True, prepkinds=None, povmkinds=None, nops=3, one=False):
    n = draw(st.sampled_from([1, 1, 1, 2])) if nq is None else nq
    ks = kinds or (M.OPKINDS + ["shared", "shared", "shared"])
    lines = draw(st.sampled_from([[0, 1], ["Q0", "Q1"], ["b", "a"], [4, 2]]))[:n]
    ops = []
    for i in range(draw(st.integers(1, nops))):
        ss = draw(st.one_of(st.none(), subsets(lines, 1, n)))
        ops.append(["G" + "xyzc"[i], ss, draw(st.sampled_from(ks))])
    pk, vk = prepkinds or M.PREPKINDS, povmkinds or M.POVMKINDS
    return {"nq": n, "lines": lines, "ops": ops, "preps": [draw(st.sampled_from(pk)) for _ in range(1 if one else draw(st.sampled_from([1, 1, 2])))],
            "povms": [draw(st.sampled_from(vk)) for _ in range(1 if one else draw(st.sampled_from([1, 1, 2])))],
            "inst": draw(st.sampled_from([None, None, "tp", "full", "static"])) if inst else None, "seed": draw(seeds), "eps": draw(st.sampled_from([0.0, 0.05, 0.05, 0.05])) if eps is True else eps,
            "sim": draw(st.sampled_from(["auto", "map", "matrix"]))}


TPOPS = ["static", "tp", "linear", "stoch", "depol", "composed", "embedded", "exp"] + ["lind:" + l for l in M.LIND]


# circuits over the operations of an explicit model:  {"p": prep index or None, "l": [item..], "m": povm index or None}, item: op index, or ["rep", [op indices], n]
item = st.one_of(st.integers(0, 4), st.integers(0, 4), st.integers(0, 4), st.tuples(st.just("rep"), st.lists(st.integers(0, 4), min_size=1, max_size=3), st.integers(1, 3)).map(list))
ecirc = st.fixed_dictionaries({"p": st.sampled_from([None, None, 0, 1]), "m": st.sampled_from([None, None, 0, 1]), "l": st.lists(item, max_size=7)})


def ecircs(draw, lo=1, hi=6):
    return draw(st.lists(ecirc, min_size=lo, max_size=hi))


def make_circuit(spec, m, cs, inst=True):
    """the circuit (None when the model has several preparations/measurements and the circuit names none)"""
    labs = list(m.operations.keys())
    it = labs + (list(m.instruments.keys()) if inst else [])
    lines = tuple(spec["lines"])
    lay = []
    for x in cs["l"]:
        if isinstance(x, list):
            sub = [labs[i % len(labs)] for i in x[1]]
            lay.append(Circuit(sub, lines).as_label(x[2]) if len(sub) * x[2] > 1 else sub[0])
        else: lay.append(it[x % len(it)])
    p, v = cs["p"], cs["m"]
    if p is None and len(m.preps) > 1: p = 0
    if v is None and len(m.povms) > 1: v = 0
    pl = list(m.preps.keys())[p % len(m.preps)] if p is not None else None
    vl = list(m.povms.keys())[v % len(m.povms)] if v is not None else None
    c = Circuit(([pl] if pl is not None else []) + lay + ([vl] if vl is not None else []), lines)
    return c, (pl or list(m.preps.keys())[0]), lay, (vl or list(m.povms.keys())[0])


def flat(l):
    if isinstance(l, CircuitLabel):
        return [y for _ in range(l.reps) for x in l.components for y in flat(x)]
    return [l]


def dense_probs(m, pl, lay, vl, mats=None):
    """outcome -> probability by multiplying the model's dense superoperators"""
    rho = np.asarray(m.preps[pl].todense()).ravel()
    E = [(k, np.asarray(e.todense()).ravel()) for k, e in m.povms[vl].items()]
    paths = [((), rho)]
    for l in lay:
        for l in flat(l):
            if l in m.instruments:
                paths = [(o + (k,), np.dot(op.todense(), v)) for o, v in paths for k, op in m.instruments[l].items()]
            else:
                G = m.operations[l].todense() if mats is None else mats[l]
                paths = [(o, np.dot(G, v)) for o, v in paths]
    out = {}
    for o, v in paths:
        for k, e in E: out[o + (k,)] = out.get(o + (k,), 0.0) + float(np.real(np.vdot(e, v)))
    return out
