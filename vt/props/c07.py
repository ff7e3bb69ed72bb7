"""C07: every simulator predicts the probabilities of the dense matrix product."""
TECH = "Hypothesis: generated models and circuits, every probability computation compared with an independent product of dense superoperators (differential), plus compiled against pure-Python kernels in separate processes"
NOTE = "Generated-input search: explicit models on 1-2 qubits of every parameterisation, local/crosstalk noise models on <= 3 qubits, circuits of <= 7 layers (sub-circuits, instruments, alternative preparations and measurements); the reference is computed in numpy from dense matrices or from the noise specification itself."
import collections, json, os, subprocess, sys, warnings
import numpy as np, scipy.linalg as sla
from hypothesis import strategies as st
from vt import facet, models as M
from vt.gen import *
from vt.mstrat import *
import pygsti
from pygsti.objects import Circuit, Label
from pygsti.objects.smartcache import SmartCache
from pygsti.construction import build_crosstalk_free_model, build_cloud_crosstalk_model, build_localnoise_model

TPPREP = ["static", "tp", "cptp", "comp", "tensor", "lind:CPTP", "lind:H+S", "lind:GLND", "lind:S"]


def close(rec, got, want, tol, *msg):
    got = {tuple(k) if not isinstance(k, str) else (k,): v for k, v in got.items()}
    rec.check(set(got) == set(want), *msg, "outcomes", sorted(got), "expected", sorted(want))
    for k in want:
        rec.check(abs(got[k] - want[k]) <= tol * max(1.0, abs(want[k])), *msg, "outcome", k, "got", repr(got[k]), "reference", repr(want[k]))


def wanted(spec, m, cs):
    mats = {l: np.asarray(o.todense()) for l, o in m.operations.items()}
    out = []
    for c in cs:
        circ, pl, lay, vl = make_circuit(spec, m, c)
        out.append((circ, dense_probs(m, pl, lay, vl, mats)))
    return out


def clip(w, ct):
    return w if ct is None else {k: min(max(v, ct[0]), ct[1]) for k, v in w.items()}


@st.composite
def expl(draw):
    s = draw(explicit_specs())
    return {"m": s, "c": ecircs(draw), "sim": draw(st.sampled_from(["matrix", "map", "matrix", "map", "mapcache"])), "mc": draw(st.integers(0, 4)), "clip": draw(st.sampled_from([None, None, [0, 1], [0.1, 0.9]])),
            "split": draw(st.sampled_from([None, ["min", 2], ["min", 3], ["min", 5], ["max", 3], ["max", 8]])), "mod": draw(st.booleans())}


def setsim(m, c):
    if c["sim"] == "mapcache": m.set_simtype("map", max_cache_size=c["mc"])
    else: m.set_simtype(c["sim"])


def tree_probs(m, circs, c, rec, ct):
    kw = {}
    if c["split"]:
        kw = {"minSubtrees": c["split"][1]} if c["split"][0] == "min" else {"maxTreeSize": c["split"][1]}
    try:
        ev, lookup, olook = m.bulk_evaltree(circs, **kw)
    except ValueError as e:
        if "is too low" in str(e): rec.skip(True)
        raise
    except AssertionError as e:   # more sub-trees asked for than there are circuits
        if "Unsuccessful splitting" in str(e) and c["split"][0] == "min" and c["split"][1] >= len(set(circs)): rec.skip(True)
        raise
    rec.note("subtrees" if ev.is_split() else "whole")
    mx = np.full(ev.num_final_elements(), np.nan)
    m.bulk_fill_probs(mx, ev, clipTo=ct)
    rec.check(not np.isnan(mx).any(), "unfilled elements", mx)
    out = []
    for i in range(len(circs)):
        ix = lookup[i]; ix = list(range(ix.start, ix.stop)) if isinstance(ix, slice) else [int(x) for x in ix]
        rec.check(len(ix) == len(olook[i]), "outcomes vs indices", ix, olook[i])
        out.append(dict(zip(olook[i], mx[ix])))
    return out


@facet(expl, quick=500, rule="some circuit with >= 2 operations", case_s=60)
def explicit_models(case, rec):
    spec = case["m"]; m = M.explicit(spec)
    tol = 1e-9
    if case["mod"]:   # predictions follow the parameters, also through earlier cached evaluations
        c0 = make_circuit(spec, m, case["c"][0])[0]; m.probs(c0)
        v = m.to_vector(); m.from_vector(v + 0.02 * np.random.RandomState(5).randn(len(v)))
    w = wanted(spec, m, case["c"])
    big = max([1.0] + [abs(x) for _, d in w for x in d.values()])
    setsim(m, case); ct = case["clip"]
    rec.note(case["sim"]); rec.nt(any(len(c) > 3 for c, _ in w))
    for (circ, d), cs in zip(w, case["c"]):
        got = m.probs(circ, clipTo=ct); close(rec, got, clip(d, ct), tol * big, "probs", circ.str)
        rec.check(len(set(got.keys())) == len(got), "repeated outcome")
    circs = [c for c, _ in w]
    bp = m.bulk_probs(circs, clipTo=ct)
    rec.check(list(bp.keys()) == list(collections.OrderedDict.fromkeys(circs)), "bulk_probs keys")
    for circ, d in w: close(rec, bp[circ], clip(d, ct), tol * big, "bulk_probs", circ.str)
    for (circ, d), got in zip(w, tree_probs(m, circs, case, rec, ct)): close(rec, got, clip(d, ct), tol * big, "tree", circ.str)
    if case["sim"] == "matrix":
        for (circ, _), cs in zip(w, case["c"]):
            lay = make_circuit(spec, m, cs, False)[2]
            P = np.eye(4**spec["nq"])
            for l in lay:
                for x in flat(l): P = m.operations[x].todense() @ P
            c2 = Circuit(lay, tuple(spec["lines"]))
            got = m.product(c2); rec.check(np.abs(got - P).max() <= 1e-9 * max(1, np.abs(P).max()), "product", c2.str)
            g, s = m.product(c2, bScale=True); rec.check(np.abs(g * s - P).max() <= 1e-9 * max(1, np.abs(P).max()), "scaled product", c2.str)


@facet(st.just({"smart": 1}), quick=1, shards=1, rule="always")
def smart_cache(case, rec):
    rec.nt(); m = pygsti.construction.std1Q_XYI.target_model(); c = Circuit(("Gx",)); sc = SmartCache()
    for v in (0.0, 0.1):
        m2 = m.depolarize(op_noise=v); p = m2.bulk_probs([c], smartc=sc)[c]
        for k, q in m2.probs(c).items(): rec.check(abs(p[k] - q) < 1e-9, "bulk_probs(smartc=...)", p, "probs", m2.probs(c))


@st.composite
def tps(draw):
    s = draw(explicit_specs(kinds=[k for k in TPOPS if k not in ("composed", "embedded", "exp")] + ["lind:CPTP", "shared"], prepkinds=[k for k in TPPREP if k != "tensor"], povmkinds=[k for k in M.POVMKINDS if k not in ("full", "tensor")], nq=draw(st.sampled_from([1, 1, 2]))))
    if s["inst"] == "full": s["inst"] = "tp"
    return {"m": s, "c": ecircs(draw, 1, 4), "sim": draw(st.sampled_from(["matrix", "map"]))}


@facet(tps, quick=250, rule="some circuit with >= 2 operations", case_s=60)
def sums(case, rec):
    m = M.explicit(case["m"]); setsim(m, case)
    for c in case["c"]:
        circ = make_circuit(case["m"], m, c)[0]; rec.nt(len(circ) > 3)
        p = m.probs(circ); rec.check(abs(sum(p.values()) - 1) < 1e-8, circ.str, "outcomes sum to", sum(p.values()))
        p = m.bulk_probs([circ])[circ]; rec.check(abs(sum(p.values()) - 1) < 1e-8, circ.str, "bulk outcomes sum to", sum(p.values()))


# ------------------------------------------------------------------------------------ many circuits on one model, small scales
@st.composite
def bulks(draw):
    s = draw(explicit_specs(nq=1, kinds=["static", "full", "tp", "lind:CPTP", "lind:H+S"], nops=3))
    s["preps"], s["povms"] = ["tp"], ["full"]
    return {"m": s, "n": draw(st.integers(10, 60)), "L": draw(st.integers(1, 30)), "seed": draw(seeds), "sim": draw(st.sampled_from(["matrix", "map", "mapcache"])), "mc": draw(st.integers(0, 30)),
            "split": draw(st.sampled_from([None, ["min", 2], ["min", 4], ["min", 9], ["max", 20], ["max", 45]])), "scale": draw(st.sampled_from([1.0, 1.0, 1.0, 1e-20, 1e-60])), "dup": draw(st.booleans())}


@facet(bulks, quick=100, rule=">= 10 circuits", case_s=90)
def many_circuits(case, rec):
    spec = case["m"]; m = M.explicit(spec); r = rng(case["seed"])
    labs = list(m.operations.keys()) + list(m.instruments.keys())
    if case["scale"] != 1.0:
        for l in list(m.operations.keys()): m.operations[l] = pygsti.objects.FullDenseOp(np.asarray(m.operations[l].todense()) * case["scale"])
    rec.skip(case["scale"] < 1e-30 and case["L"] > 4 or case["scale"] < 1 and case["L"] > 13)   # keep the reference above underflow
    base = [[int(x) for x in r.randint(0, len(m.operations) + (1 if len(m.instruments) and r.randint(4) == 0 else 0) * len(m.instruments), r.randint(0, case["L"] + 1))] for _ in range(4)]
    seqs = []
    for _ in range(case["n"]):
        k = r.randint(3)
        if k == 0: s = base[r.randint(4)] + [int(r.randint(len(m.operations)))]
        elif k == 1: s = base[r.randint(4)] + base[r.randint(4)]
        else: s = [int(x) for x in r.randint(0, len(m.operations), r.randint(0, case["L"] + 1))]
        if sum(i >= len(m.operations) for i in s) > 2: s = [i for i in s if i < len(m.operations)]
        if case["scale"] < 1: s = s[:12 if case["scale"] > 1e-30 else 4]
        seqs.append(s)
    circs = [Circuit([labs[i] for i in s], tuple(spec["lines"])) for s in seqs]
    if not case["dup"]: circs = list(collections.OrderedDict.fromkeys(circs))
    setsim(m, case); rec.nt(len(circs) >= 10); rec.note(case["sim"], "scale%g" % case["scale"])
    want = [dense_probs(m, "rho0", [l for l in c], "Mdefault") for c in circs]
    bp = m.bulk_probs(circs)
    tr = tree_probs(m, circs, case, rec, None)
    for c, w, t in zip(circs, want, tr):
        sc = case["scale"] ** len([l for l in c if l in m.operations])
        for nm, g in (("bulk_probs", bp[c]), ("tree", t)):
            g = {tuple(k): v for k, v in g.items()}
            rec.check(set(g) == set(w), nm, "outcomes", sorted(g), sorted(w))
            for k in w: rec.check(abs(g[k] - w[k]) <= 1e-9 * max(sc, abs(w[k])), nm, c.str, k, g[k], w[k])


# ------------------------------------------------------------------------------------ noiseless models of unitaries
U1 = {"Gxpi2": M.STDU["Gxpi2"], "Gypi2": M.STDU["Gypi2"], "Gh": M.STDU["Gh"], "Gp": np.diag([1, 1j]), "Gxpi": M.PX}
U2 = {"Gcnot": M.STDU["Gcnot"], "Gcphase": M.STDU["Gcphase"]}


@st.composite
def nqcircs(draw, lines, names1, names2, kmax=4, lmax=6, sub=True):
    out = []
    for _ in range(draw(st.integers(1, kmax))):
        lay = draw(st.lists(layer_of(lines, args=False, time=False, names={1: names1, 2: names2 or names1}, max_lines=2 if names2 else 1, fill=2), max_size=lmax))
        out.append(lay)
    return out


@st.composite
def unitaries(draw):
    n = draw(st.integers(1, 3)); lines = draw(st.sampled_from([["Q0", "Q1", "Q2"], [0, 1, 2], [7, 3, 5]]))[:n]
    return {"lines": lines, "c": draw(nqcircs(lines, sorted(U1), sorted(U2) if n > 1 else None)), "par": draw(st.sampled_from(["static unitary", "clifford", "static", "CPTP", "full", "TP", "H+S"])), "sim": draw(st.sampled_from(["auto", "map", "matrix"])),
            "non": draw(st.booleans()), "seed": draw(seeds), "avail": draw(st.sampled_from(["all-permutations", "*", "all-edges"])), "idle": draw(st.booleans()), "indep": draw(st.booleans()), "comp": draw(st.booleans()), "sub": draw(st.booleans())}


def sv_probs(lines, layers, U, all_lines, used):
    n = len(all_lines); psi = np.zeros((2,) * n, complex); psi[(0,) * n] = 1
    for lay in layers:
        for nm, ss in lay:
            k = len(ss); t = [all_lines.index(s) for s in ss]
            psi = np.moveaxis(np.tensordot(U[nm].reshape((2,) * (2 * k)), psi, (range(k, 2 * k), t)), range(k), t)
    p = np.abs(psi)**2
    keep = [all_lines.index(l) for l in used]
    p = np.transpose(p, keep + [i for i in range(n) if i not in keep]).reshape((2,) * len(keep) + (-1,)).sum(-1)
    import itertools
    return {("".join(map(str, b)),): float(p[b]) for b in itertools.product((0, 1), repeat=len(keep))}


@facet(unitaries, quick=250, rule="some circuit with a gate on every line", case_s=60)
def ideal_local_models(case, rec):
    lines = case["lines"]; n = len(lines); U = dict(U1); U.update(U2)
    r = rng(case["seed"])
    non = case["non"] and case["par"] != "clifford"
    if non: U["Gh"] = M.rand_unitary(2, r); U["Gcphase"] = M.rand_unitary(4, r)
    names = sorted(U1) + (sorted(U2) if n > 1 else [])
    rec.skip(case["par"] == "clifford" and case["sim"] == "matrix")
    av = case["avail"]
    if av == "all-edges": ok = {(lines[i], lines[j]) for i in range(n) for j in range(n) if abs(i - j) == 1}
    rec.skip(case["par"] == "clifford" and (av == "*" or case["sub"]))
    kw = {}
    nu = {k: U[k] for k in ("Gh", "Gp") + (("Gcphase",) if n > 1 else ())}
    m = build_localnoise_model(n, names, nonstd_gate_unitaries=nu, availability={k: av for k in U2} if n > 1 else {}, qubit_labels=lines, parameterization=case["par"], sim_type=case["sim"], independent_gates=case["indep"], ensure_composed_gates=case["comp"])
    rec.note(case["par"], case["sim"], av)
    for lays in case["c"]:
        L = [[(x["n"], tuple(x["s"])) for x in lay] for lay in lays]
        if n > 1 and av == "all-edges": L = [[g for g in lay if len(g[1]) == 1 or g[1] in ok] for lay in L]
        labs = [Label([Label(nm, ss) for nm, ss in lay]) for lay in L]
        used = list(lines)
        if case["sub"] and L:   # a circuit written on the lines it uses only: the rest is traced out
            us = [q for q in lines if any(q in ss for lay in L for _, ss in lay)]
            used = us or used
        if case["sub"] and len(labs) > 2: labs = [labs[0], Circuit(labs[1:], tuple(used)).as_label(1)] if len(used) == n else labs
        c = Circuit(labs, tuple(used))
        rec.nt(set(q for lay in L for _, ss in lay for q in ss) == set(lines))
        want = sv_probs(lines, L, U, list(lines), used)
        close(rec, m.probs(c), want, 1e-8, "probs", c.str)
        if not (case["par"] == "static unitary" and m.get_simtype() == "matrix"):   # (declared not implemented)
            close(rec, m.bulk_probs([c])[c], want, 1e-8, "bulk_probs", c.str)


# ------------------------------------------------------------------------------------ noise specifications
def pnames(n): return st.sampled_from(M.paulis(n)[1:])


@st.composite
def errdict(draw, n, affine=True, off=True):
    d = []
    for _ in range(draw(st.integers(1, 3))):
        d.append([draw(st.sampled_from("HHSS")), draw(pnames(n)), draw(st.integers(1, 60)) / 1000.0])
    have = {e[1] for e in d if e[0] == "S"}
    if affine and have and draw(st.booleans()): d.append(["A", draw(pnames(n)), draw(st.integers(1, 5)) / 1000.0])
    seen = set(); out = []
    for e in d:
        if (e[0], e[1]) not in seen: seen.add((e[0], e[1])); out.append(e)
    return out


@st.composite
def err(draw, n, plain=True):
    k = draw(st.sampled_from(["dict", "dict", "float", "tuple"] if plain else ["dict"]))
    if k == "float": return draw(st.integers(1, 100)) / 1000.0
    if k == "tuple": return {"t": [draw(st.integers(1, 20)) / 1000.0 for _ in range(4**n - 1)]}
    return {"d": draw(errdict(n))}


GATES = {"Gxpi2": 1, "Gypi2": 1, "Gh": 1, "Gcnot": 2, "Gcphase": 2}


@st.composite
def xfree(draw):
    n = draw(st.sampled_from([1, 2, 2, 3])); lines = draw(st.sampled_from([["Q0", "Q1", "Q2"], [0, 1, 2], [7, 3, 5], ["b", "a", "c"]]))[:n]
    names = [g for g in GATES if GATES[g] <= n]
    rates = []
    for g in names:
        if draw(st.integers(0, 3)): rates.append([g, None, draw(err(GATES[g]))])
        if draw(st.integers(0, 3)) == 0: rates.append([g, draw(subsets(lines, GATES[g], GATES[g])), draw(err(GATES[g]))])
    for nm in ("prep", "povm", "idle"):
        if draw(st.integers(0, 2)) == 0:
            e = draw(err(1))
            if not (isinstance(e, dict) and "t" in e): rates.append([nm, None, e])
    return {"lines": lines, "rates": rates, "c": draw(nqcircs(lines, ["Gxpi2", "Gypi2", "Gh"], ["Gcnot", "Gcphase"] if n > 1 else None, 3, 4)), "sim": draw(st.sampled_from(["matrix", "map", "auto"])), "indep": draw(st.booleans()), "comp": draw(st.booleans()), "sub": draw(st.booleans()),
            "avail": draw(st.sampled_from(["all-permutations", "*"])), "fac": draw(st.booleans()), "seed": draw(seeds)}


def errspec(e):
    if isinstance(e, dict): return tuple(e["t"]) if "t" in e else {(x[0], x[1]): x[2] for x in e["d"]}
    return float(e)


def noise_super(e, n):
    """the noise map a (local) error specification describes"""
    if isinstance(e, dict): return sla.expm(M.gen_of(e, n))
    ps = M.paulis(n)[1:]
    rs = [e / 4.0**n] * len(ps) if isinstance(e, float) else list(e)
    return M.super_fn(lambda r: (1 - sum(rs)) * r + sum(q * M.pmat(p) @ r @ M.pmat(p) for p, q in zip(ps, rs)), n).real


def bitstrings(n):
    import itertools
    return list(itertools.product((0, 1), repeat=n))


def final_probs(v, n, keep, povm_noise=None):
    """probabilities of the kept lines' bits from a Pauli vector; povm_noise: superoperator before measuring"""
    if povm_noise is not None: v = povm_noise @ v
    out = {}
    for b in bitstrings(len(keep)):
        E = M.kron(*[(np.diag([1.0 - b[keep.index(i)], float(b[keep.index(i)])]) if i in keep else np.eye(2)) for i in range(n)])
        out[("".join(map(str, b)),)] = float(M.vec_of(E, n) @ v)
    return out


def mk_layers(lays): return [[(x["n"], tuple(x["s"])) for x in lay] for lay in lays]


@facet(xfree, quick=150, rule="some gate of a circuit carries noise", case_s=60)
def crosstalk_free(case, rec):
    lines = case["lines"]; n = len(lines); names = [g for g in GATES if GATES[g] <= n]
    rates = collections.OrderedDict(); R = {}
    for g, ss, e in case["rates"]:
        e = errspec(e); k = g if ss is None else Label(g, tuple(ss))
        rates[k] = e; R[(g, None if ss is None else tuple(ss))] = e
    star = case["avail"] == "*"
    if star and n > 1: rec.skip(any(ss is not None and GATES[g] == 2 for g, ss, e in case["rates"]))
    m = build_crosstalk_free_model(n, names, dict(rates), availability={k: case["avail"] for k in names if GATES[k] > 1}, qubit_labels=lines, sim_type=case["sim"], independent_gates=case["indep"], ensure_composed_gates=case["comp"])
    idle = np.eye(4**n)
    if ("idle", None) in R:
        i1 = noise_super(R[("idle", None)], 1); idle = M.kron(*[i1] * n)
    prep = np.eye(4); povm = np.eye(4)
    if ("prep", None) in R: prep = noise_super(R[("prep", None)], 1)
    if ("povm", None) in R: povm = noise_super(R[("povm", None)], 1)
    v0 = M.kron(*[(prep @ M.vec_of(M.zero_dm(1), 1)).reshape(-1, 1) for _ in range(n)]).ravel()
    rec.note(case["sim"], *["idle" if ("idle", None) in R else "noidle"])
    cache = {}
    for lays in case["c"]:
        L = mk_layers(lays); v = v0
        for lay in L:
            v = idle @ v
            for g, ss in lay:
                if (g, ss) not in cache:
                    e = R.get((g, ss), R.get((g, None)))
                    G = M.super_of(M.STDU[g], GATES[g])
                    if e is not None: G = noise_super(e, GATES[g]) @ G
                    cache[(g, ss)] = M.embed_super(G, [lines.index(s) for s in ss], n)
                if (g, ss) in R or (g, None) in R: rec.nt()
                v = cache[(g, ss)] @ v
        used = list(lines)
        if case["sub"]: used = [q for q in lines if any(q in ss for lay in L for _, ss in lay)] or used
        if case["sub"] and len(used) < n and any(len(lay) == 0 for lay in L): used = list(lines)
        want = final_probs(v, n, [lines.index(q) for q in used], M.kron(*[povm] * n))
        labs = [Label([Label(nm, ss) for nm, ss in lay]) for lay in L]
        c = Circuit(labs, tuple(used))
        close(rec, m.probs(c), want, 1e-8, "probs", c.str)
        close(rec, m.bulk_probs([c])[c], want, 1e-8, "bulk_probs", c.str)


@st.composite
def cloud(draw):
    n = draw(st.sampled_from([1, 2, 2, 3])); lines = draw(st.sampled_from([["Q0", "Q1", "Q2"], [0, 1, 2], [0, 1, 2], ["b", "a", "c"]]))[:n]
    names = [g for g in GATES if GATES[g] <= n]

    def edict(nt, ss):   # error dictionary of a gate on nt qubits: plain, absolute or relative targets
        out = []
        for _ in range(draw(st.integers(1, 3))):
            kind = draw(st.sampled_from(["plain", "plain", "abs", "rel"])); ty = draw(st.sampled_from("HS")); rate = draw(st.integers(1, 60)) / 1000.0
            if kind == "plain": out.append([ty, draw(pnames(nt)), None, rate])
            elif kind == "abs": q = draw(subsets(lines, 1, 2)); out.append([ty, draw(pnames(len(q))), q, rate])
            elif kind == "rel": q = draw(subsets(list(range(nt)), 1, nt)); out.append([ty, draw(pnames(len(q))), ["@%d" % i for i in q], rate])
        return out
    rates = []
    for g in names:
        if draw(st.integers(0, 3)): rates.append([g, None, edict(GATES[g], None)])
        if draw(st.integers(0, 3)) == 0:
            ss = draw(subsets(lines, GATES[g], GATES[g])); rates.append([g, ss, [e for e in edict(GATES[g], ss)]])
        if rates and draw(st.integers(0, 7)) == 0 and rates[-1][0] == g and rates[-1][1] is None: rates[-1][2] = draw(st.integers(1, 100)) / 1000.0
    for nm in ("prep", "povm", "idle"):
        if draw(st.integers(0, 2)) == 0:
            out = []
            for _ in range(draw(st.integers(1, 3))):
                q = draw(subsets(lines, 1, 2)); out.append([draw(st.sampled_from("HS")), draw(pnames(len(q))), q, draw(st.integers(1, 60)) / 1000.0])
            rates.append([nm, None, out])
    return {"lines": lines, "rates": rates, "c": draw(nqcircs(lines, ["Gxpi2", "Gypi2", "Gh"], ["Gcnot", "Gcphase"] if n > 1 else None, 3, 4)), "sim": draw(st.sampled_from(["matrix", "map", "auto"])), "indep": draw(st.booleans()), "comp": draw(st.sampled_from(["gates", "errorgens"])),
            "addidle": draw(st.booleans()), "sparse": draw(st.booleans()), "sub": draw(st.booleans())}


@facet(cloud, quick=120, rule="some gate of a circuit carries noise", case_s=60)
def cloud_crosstalk(case, rec):
    lines = case["lines"]; n = len(lines); names = [g for g in GATES if GATES[g] <= n]

    def resolve(entries, ss):   # generator on n qubits of an error specification applied to targets ss
        L = np.zeros((4**n, 4**n))
        if isinstance(entries, float):
            k = len(ss); g = M.gen_of({("S", p): entries / 4.0**k for p in M.paulis(k)[1:]}, k)
            return M.embed_super(g, [lines.index(s) for s in ss], n)
        for ty, P, q, r in entries:
            if q is None: t = [lines.index(s) for s in ss]
            else:
                t = []
                for x in q:
                    if isinstance(x, str) and x.startswith("@"):
                        t.append(lines.index(ss[int(x[1:])]))
                    else: t.append(lines.index(x))
            L = L + M.embed_super(M.gen_of({(ty, P): r}, len(P)), t, n)
        return L

    rates = {}; R = {}
    for g, ss, e in case["rates"]:
        if isinstance(e, float): d = e
        else:
            d = {}
            if g in ("prep", "povm", "idle") or ss is not None: e = [x for x in e if not (x[2] and any(isinstance(y, str) and y.startswith("@") for y in x[2]))]
            else:   # (a term whose direction may be absent names the same qubits twice only when written twice)
                pass
            if not e: continue
            e2 = []
            for ty, P, q, r in e:
                k = (ty, P if q is None else P + ":" + ",".join(map(str, q)))
                if k not in d: d[k] = r; e2.append([ty, P, q, r])
            e = e2
        rates[g if ss is None else Label(g, tuple(ss))] = d; R[(g, None if ss is None else tuple(ss))] = e
    m = build_cloud_crosstalk_model(n, names, rates, availability={k: "all-permutations" for k in names if GATES[k] > 1}, qubit_labels=lines, sim_type=case["sim"], independent_gates=case["indep"], errcomp_type=case["comp"], addIdleNoiseToAllGates=case["addidle"], sparse=case["sparse"])
    gen = {nm: (resolve(R[(nm, None)], None) if (nm, None) in R else None) for nm in ("prep", "povm", "idle")}
    v0 = M.vec_of(M.zero_dm(n), n)
    if gen["prep"] is not None: v0 = sla.expm(gen["prep"]) @ v0
    rec.note(case["comp"], case["sim"])
    for lays in case["c"]:
        L = mk_layers(lays); v = v0
        for lay in L:
            T = np.eye(4**n); C = []
            for g, ss in lay:
                T = M.embed_super(M.super_of(M.STDU[g], GATES[g]), [lines.index(s) for s in ss], n) @ T
                e = R.get((g, ss), R.get((g, None)))
                if e is not None: C.append(resolve(e, ss)); rec.nt()
            idle = gen["idle"] if gen["idle"] is not None and (case["addidle"] or not lay) else None
            v = T @ v
            if case["comp"] == "errorgens":
                tot = sum(C, np.zeros((4**n, 4**n))) + (idle if idle is not None else 0)
                v = sla.expm(tot) @ v
            else:
                if idle is not None: v = sla.expm(idle) @ v
                for c in C: v = sla.expm(c) @ v
        used = list(lines)
        if case["sub"] and not any(len(lay) == 0 for lay in L): used = [q for q in lines if any(q in ss for lay in L for _, ss in lay)] or used
        want = final_probs(v, n, [lines.index(q) for q in used], None if gen["povm"] is None else sla.expm(gen["povm"]))
        c = Circuit([Label([Label(nm, ss) for nm, ss in lay]) for lay in L], tuple(used))
        close(rec, m.probs(c), want, 1e-7, "probs", c.str)
        close(rec, m.bulk_probs([c])[c], want, 1e-7, "bulk_probs", c.str)


@facet(st.just({"steps": "line of three, all directions"}), quick=1, shards=1, rule="always")
def neighbour_terms(case, rec):
    """terms placed on neighbours ("@0+left") act on the neighbour in that direction, and nowhere where there is none"""
    rec.nt(); g = pygsti.objects.QubitGraph.common_graph(3, "line", directed=True, qubit_labels=[0, 1, 2], all_directions=True)
    for d, where in (("left", -1), ("right", 1)):
        m = build_cloud_crosstalk_model(3, ["Gxpi2"], {"Gxpi2": {("S", "X:@0+" + d): 0.1}}, qubit_labels=[0, 1, 2], geometry=g)
        for q in range(3):
            p = m.probs(Circuit([Label("Gxpi2", q)], (0, 1, 2)))
            for j in range(3):
                f = sum(x for k, x in p.items() if k[0][j] == "1")
                want = 0.5 if j == q else ((1 - np.exp(-0.2)) / 2 if j == q + where else 0.0)
                rec.check(abs(f - want) < 1e-7, "Gxpi2 on", q, "with X:@0+" + d, "flips qubit", j, "with probability", f, "expected", want)


# ------------------------------------------------------------------------------------ compiled and Python kernels
@st.composite
def kern(draw):
    return {"items": [{"m": draw(explicit_specs()), "c": ecircs(draw, 1, 3), "sim": draw(st.sampled_from(["matrix", "map"]))} for _ in range(draw(st.integers(4, 8)))],
            "un": [{"n": draw(st.integers(1, 3)), "par": draw(st.sampled_from(["static unitary", "clifford", "H+S"])), "seed": draw(seeds)} for _ in range(draw(st.integers(1, 3)))]}


def kernel_results(case):
    """every probability of the case, computed with whatever kernels this process has (also run in a process without the compiled ones)"""
    out = []
    for it in case["items"]:
        spec = it["m"]; m = M.explicit(spec); m.set_simtype(it["sim"])
        for c in it["c"]:
            circ = make_circuit(spec, m, c)[0]
            out.append([[str(k), float(v)] for k, v in sorted(m.probs(circ).items())])
            if it["sim"] == "map" and m.num_params() < 40:
                dp = m.bulk_dprobs([circ])[circ]; out.append([[str(k), *map(float, np.asarray(v).ravel()[:40])] for k, v in sorted(dp.items())])
    for u in case["un"]:
        r = rng(u["seed"]); n = u["n"]; names = sorted(set(U1) - {"Gp"}) + (sorted(U2) if n > 1 else [])
        m = build_localnoise_model(n, names, availability={k: "all-permutations" for k in U2} if n > 1 else {}, parameterization=u["par"], sim_type="map")
        if m.num_params(): m.from_vector(0.03 * r.randn(m.num_params()))
        for _ in range(3):
            labs = []
            for _ in range(r.randint(0, 7)):
                g = names[r.randint(len(names))]; k = 2 if g in U2 else 1
                labs.append(Label(g, tuple(int(x) for x in r.permutation(n)[:k])))
            out.append([[str(k), float(v)] for k, v in sorted(m.probs(Circuit(labs, tuple(range(n)))).items())])
    return out


HELPER = r"""
import os, sys, json, warnings
warnings.simplefilter("ignore")
for k in ("pygsti.objects.replib.fastreplib", "pygsti.objects.opcalc.fastopcalc", "pygsti.tools.fastcalc"): sys.modules[k] = None
os.environ["PYGSTI_NO_CYTHON_WARNING"] = "1"
from vt import runner
runner.setup_paths()
import vt.props.c07 as c
from pygsti.objects import replib, operation
assert replib.__name__ and operation.replib.DMOpRep.__module__.endswith("slowreplib"), operation.replib.DMOpRep.__module__
sys.stdout.write("RESULT" + json.dumps(c.kernel_results(json.load(open(sys.argv[1])))) + "\n")
"""


@facet(kern, quick=24, shards=8, rule="always (>= 4 models)", case_s=240)
def compiled_kernels(case, rec):
    rec.nt()
    d = rec.scratch(); f = os.path.join(d, "case.json"); json.dump(case, open(f, "w"))
    a = kernel_results(case)
    env = dict(os.environ, PYTHONPATH=os.pathsep.join(["/repo", os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))]), PYTHONDONTWRITEBYTECODE="1")
    p = subprocess.run([sys.executable, "-c", HELPER, f], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    res = [l for l in p.stdout.splitlines() if l.startswith("RESULT")]
    rec.check(p.returncode == 0 and res, "pure-Python run failed:", p.stderr[-1500:])
    b = json.loads(res[0][6:])
    rec.check(len(a) == len(b), "number of results")
    for i, (x, y) in enumerate(zip(a, b)):
        rec.check([t[0] for t in x] == [t[0] for t in y], "outcomes", x, y)
        for s, t in zip(x, y):
            for u, v in zip(s[1:], t[1:]): rec.check(abs(u - v) <= 2e-9 * max(1, abs(u)) or abs(u - v) < 1e-6 and len(s) > 2, "result", i, "compiled", s, "python", t)
