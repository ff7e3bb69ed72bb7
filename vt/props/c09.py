"""C09: a model is determined by its parameter vector."""
TECH = "property-based testing (stateful): generated histories of updates, insertions, replacements, sharing, deletions, copies and evaluations, checked after every step against freshly built members given the same parameters"
NOTE = "Generated-input search: explicit models of every parameterisation with shared parts, local-noise and cloud-noise models; oracle: freshly built members with the same parameters, dense products, and untouched snapshots of the other copies."
import pickle, copy, warnings
import numpy as np
import scipy.linalg as sla
from hypothesis import strategies as st
from vt.runner import facet
from vt import models as M
from vt.gen import *
from vt.mstrat import *
from pygsti import objects as po
from pygsti.objects import Circuit, Label, operation as _op
from pygsti.objects.label import CircuitLabel
from pygsti.construction import build_localnoise_model, build_crosstalk_free_model, build_cloud_crosstalk_model

T = 1e-9


def dense_of(o):
    """every dense array of a member"""
    if isinstance(o, dict): return np.concatenate([np.asarray(o[k].todense()).ravel() for k in o])
    return np.asarray(o.todense()).ravel().copy()


def same(rec, a, b, tol, *msg):
    a, b = np.asarray(a), np.asarray(b)
    rec.check(a.shape == b.shape, *msg, "shape", a.shape, b.shape)
    rec.check(a.size == 0 or np.abs(a - b).max() <= tol, *msg, "differ by", np.abs(a - b).max() if a.size else 0)


# ------------------------------------------------------------------------------------------- single members
MK = {"op": M.OPKINDS + ["lindu", "errgen", "cerrgen"], "prep": M.PREPKINDS, "povm": M.POVMKINDS, "inst": ["tp", "full", "static"]}


def mk(what, kind, n, seed, eps=0.05):
    r = rng(seed)
    if what == "op":
        if kind == "errgen": return _lind(n, r, eps)
        if kind == "cerrgen": return _op.ComposedErrorgen([_lind(n, r, eps), _lind(n, r, eps)])
        return M.mk_op(kind, n, r, eps)
    if what == "prep": return M.mk_prep(kind, n, r, eps)
    if what == "povm": return M.mk_povm(kind, n, r, eps)
    return M.mk_inst(kind, n, r, eps)


def _lind(n, r, eps):
    o = M.mk_op("lind:" + M.LIND[r.randint(len(M.LIND))], n, r, eps, dense=False)
    return o.errorgen


@st.composite
def members(draw):
    what = draw(st.sampled_from(["op", "op", "op", "prep", "povm", "inst"]))
    return {"what": what, "kind": draw(st.sampled_from(MK[what])), "n": draw(st.sampled_from([1, 1, 2])), "seed": draw(seeds), "s2": draw(seeds)}


def sub_ids(o):
    out = {id(o)}
    for s in o.submembers(): out |= sub_ids(s)
    return out


@facet(members, quick=200, rule="the member has parameters")
def member_vectors(case, rec):
    """vectors round-trip, members do not keep the caller's arrays, copies are independent"""
    o = M.alone(mk(case["what"], case["kind"], case["n"], case["seed"])); fresh = M.alone(mk(case["what"], case["kind"], case["n"], case["seed"]))
    r = rng(case["s2"]); N = o.num_params(); rec.nt(N > 0); rec.note(case["what"], case["kind"])
    if case["kind"] in ("errgen", "cerrgen"):
        dn = lambda x: np.asarray(x.todense()).ravel().copy()
    else: dn = dense_of
    if not (case["what"] == "povm" and case["kind"] == "comp"):
        v0 = np.array(o.to_vector(), copy=True); d0 = dn(o)
        rec.check(v0.shape == (N,), "vector of", v0.shape, "entries,", N, "parameters")
        same(rec, dn(fresh), d0, 1e-12, "the builder is not deterministic")
        o.from_vector(v0.copy())
        same(rec, dn(o), d0, 1e-8, "writing back the vector changes the member")
        same(rec, o.to_vector(), v0, 1e-8, "writing back the vector changes it")
        w = v0 + 0.1 * r.randn(N) * (case["s2"] % 3)
        if case["kind"] in ("stoch", "depol"): w = np.abs(w)
        w1 = w.copy()
        o.from_vector(w1); d1 = dn(o)
        same(rec, o.to_vector(), w, 1e-10, "vector written and vector read")
        fresh.from_vector(w.copy())
        same(rec, dn(fresh), d1, 1e-10, "same vector, other history")
        c = o.copy()
        if case["what"] not in ("povm", "inst"): rec.check(not (sub_ids(c) & sub_ids(o)), "a copy shares parts with its original")
        same(rec, dn(c), d1, 1e-12, "copy")
        c = M.alone(c)
        # arrays handed in and out stay the caller's
        if N:
            w1 += 5.0; same(rec, o.to_vector(), w, 1e-10, "changing the array that was written changed the member's vector")
            x = o.to_vector()
            if x.flags.writeable:
                x += 7.0
                same(rec, o.to_vector(), w, 1e-10, "changing the array that was read changed the member's vector")
                same(rec, dn(o), d1, 1e-12, "changing the array that was read changed the member")
        u = w + 0.05 * r.rand(N)
        c.from_vector(u.copy())
        same(rec, dn(o), d1, 1e-12, "updating the copy changed the original"); same(rec, o.to_vector(), w, 1e-10, "updating the copy changed the original's vector")
        fresh.from_vector(u.copy()); same(rec, dn(c), dn(fresh), 1e-10, "updated copy")
        p = pickle.loads(pickle.dumps(o)); same(rec, dn(p), d1, 1e-12, "pickled copy")
        o.from_vector(v0.copy()); same(rec, dn(c), dn(fresh), 1e-10, "updating the original changed the copy"); same(rec, dn(o), d0, 1e-8, "back at the first vector")


# ------------------------------------------------------------------------------------------- histories of explicit models
KOP = M.OPKINDS + ["tp", "full", "composed", "embedded", "lind:H+S"]


@st.composite
def histories(draw):
    spec = draw(explicit_specs())
    spec["eps"] = 0.05
    two = spec["nq"] == 2
    step = st.one_of(st.tuples(st.just("vec"), seeds), st.tuples(st.just("vec"), seeds), st.tuples(st.sampled_from(["probs", "bulk", "copy", "swap", "pickle", "old", "sim"]), seeds),
                     st.tuples(st.just("set"), seeds, st.integers(0, 4), st.sampled_from(KOP)), st.tuples(st.just("share"), seeds, st.integers(0, 4)),
                     st.tuples(st.just("prep"), seeds, st.sampled_from(M.PREPKINDS)), st.tuples(st.just("povm"), seeds, st.sampled_from(M.POVMKINDS)), st.tuples(st.just("inst"), seeds, st.sampled_from(["tp", "full", "static"])),
                     st.tuples(st.just("del"), seeds), st.tuples(st.just("member"), seeds), st.tuples(st.just("array"), seeds), st.tuples(st.just("element"), seeds), st.tuples(st.just("mat"), seeds)).map(list)
    return {"m": spec, "steps": draw(st.lists(step, min_size=2, max_size=5 if two else 9)), "c": ecircs(draw, 1, 3), }


def all_members(m):
    for d in (m.preps, m.povms, m.operations, m.instruments):
        for k, o in d.items(): yield (d._prefix, k), o


def snapshot(m, circs):
    return {"v": np.array(m.to_vector(), copy=True), "d": {k: dense_of(o) for k, o in all_members(m)}, "p": [dict(m.probs(c)) for c in circs], "n": m.num_params()}


def check_snapshot(rec, m, s, circs, *msg):
    same(rec, m.to_vector(), s["v"], 0, "vector of the other copy changed", *msg)
    ks = dict(all_members(m))
    rec.check(set(ks) == set(s["d"]), "members of the other copy changed", *msg)
    for k, o in ks.items(): same(rec, dense_of(o), s["d"][k], 0, "a member of the other copy changed", k, *msg)
    for c, p in zip(circs, s["p"]):
        q = m.probs(c)
        rec.check(set(q) == set(p) and all(abs(q[x] - p[x]) < 1e-9 for x in p), "probabilities of the other copy changed", c.str, *msg)


@facet(histories, quick=140, rule="a parameter update follows a structural change", case_s=60)
def model_histories(case, rec):
    spec = case["m"]; n = spec["nq"]; lines = tuple(spec["lines"])
    m = M.explicit(spec)
    rec.check(len(m.to_vector()) == m.num_params(), "vector of", len(m.to_vector()), "entries,", m.num_params(), "parameters")
    recipe = {}     # label -> function building a fresh member
    links = []      # [(composed label, static matrix, label of the shared member)]
    other, osnap = None, None
    oldv = None; structural = False

    def circuits(m):
        out = []
        for cs in case["c"]:
            c, pl, lay, vl = make_circuit(spec, m, cs)
            out.append((c, pl, lay, vl))
        return out

    def verify(m, *msg):
        v = np.array(m.to_vector(), copy=True)
        rec.check(len(v) == m.num_params(), "vector of", len(v), "entries,", m.num_params(), "parameters", *msg)
        used = set()
        for k, o in all_members(m):
            if o.gpindices is not None: used |= set(int(x) for x in o.gpindices_as_array())
            if o.num_params():
                same(rec, o.to_vector(), v[o.gpindices], 1e-9, "member", k, "and the model's vector", *msg)
            if k in recipe:
                f = M.alone(recipe[k]())
                if f.num_params(): f.from_vector(np.array(o.to_vector(), copy=True))
                rec.check(f.num_params() == o.num_params(), "parameters of", k, *msg)
                same(rec, dense_of(o), dense_of(f), 1e-8, "member", k, "and a fresh one with the same parameters", *msg)
        rec.check(used == set(range(len(v))), "parameters that no member uses", sorted(set(range(len(v))) - used), *msg)
        for a, S, b in links:
            same(rec, dense_of(m.operations[a]).reshape(4**n, -1), S @ np.asarray(m.operations[b].todense()), 1e-8, "composed", a, "shares", b, *msg)
        for c, pl, lay, vl in circuits(m):
            want = dense_probs(m, pl, lay, vl)
            got = m.probs(c)
            rec.check(set(got) == set(want), "outcomes", c.str, *msg)
            e = max(abs(got[x] - want[x]) for x in want)
            big = max(1.0, max(abs(x) for x in want.values())) * (1e3 if any(k.split(":")[-1] in ("d+A", "S+A", "GLND", "D+A", "H+D+A", "H+d", "full", "eig", "linear") for _, _, k in spec["ops"]) else 1)   # unphysical operations amplify
            rec.check(e < 1e-7 * big, "probabilities and the members' matrices differ by", e, c.str, *msg)
            got = m.bulk_probs([c])[c]; e = max(abs(got[x] - want[x]) for x in want)
            rec.check(e < 1e-7 * big, "bulk probabilities and the members' matrices differ by", e, c.str, *msg)

    for i, s in enumerate(case["steps"]):
        kind, r = s[0], rng(s[1]); msg = ("after step", i, s)
        labs = list(m.operations.keys())
        if kind == "vec":
            if structural: rec.nt(True)
            w = np.array(m.to_vector(), copy=True) + 0.03 * r.randn(m.num_params())
            m.from_vector(w); same(rec, m.to_vector(), w, 1e-12, "vector written and read", *msg)
            w += 3.0
            rec.check(np.abs(m.to_vector() - w).max() > 1 if len(w) else True, "the model kept the caller's array", *msg)
        elif kind == "old":
            if oldv is not None and len(oldv[0]) == m.num_params() and oldv[1] is m: m.from_vector(oldv[0]); same(rec, m.to_vector(), oldv[0], 1e-12, "vector written and read", *msg)
        elif kind == "probs": [m.probs(c) for c, _, _, _ in circuits(m)]
        elif kind == "bulk": m.bulk_probs([c for c, _, _, _ in circuits(m)])
        elif kind in ("copy", "swap"):
            other_new = m.copy()
            if kind == "swap": m, other_new = other_new, m
            other = other_new; osnap = None
            rec.check(not (set(x for _, o in all_members(m) for x in sub_ids(o)) & set(x for _, o in all_members(other) for x in sub_ids(o))), "copies share members", *msg)
            ca, cb = [c for c, _, _, _ in circuits(m)], [c for c, _, _, _ in circuits(other)]
            same(rec, m.to_vector(), other.to_vector(), 1e-12, "vector of a copy", *msg)
            for x, y in zip(ca, cb):
                p, q = m.probs(x), other.probs(y); rec.check(all(abs(p[k] - q[k]) < 1e-9 for k in p), "probabilities of a copy", *msg)
            osnap = (snapshot(other, cb), cb)
        elif kind == "pickle":
            b = {k: dense_of(o) for k, o in all_members(m)}; v = m.to_vector().copy(); m = pickle.loads(pickle.dumps(m))
            same(rec, m.to_vector(), v, 1e-12, "vector of a pickled model", *msg)
            for k, o in all_members(m): same(rec, dense_of(o), b[k], 1e-12, "pickled member", k, *msg)
        elif kind == "sim": m.set_simtype(["map", "matrix"][r.randint(2)])
        elif kind == "member":
            o = m.operations[labs[r.randint(len(labs))]]
            if o.num_params():
                m.to_vector(); w = o.to_vector() + 0.02 * r.randn(o.num_params()); o.from_vector(w); same(rec, o.to_vector(), w, 1e-10, "member's vector", *msg)
                same(rec, m.to_vector()[o.gpindices], w, 1e-7, "member's parameters in the model's vector", *msg)
        elif kind == "array":
            l = labs[r.randint(len(labs))]; o = m.operations[l]
            if type(o) in (_op.FullDenseOp, _op.TPDenseOp):
                A = np.array(o.todense()) + 0.02 * np.vstack([np.zeros(4**n), r.randn(4**n - 1, 4**n)])
                m.operations[l] = A; same(rec, m.operations[l].todense(), A, 1e-12, "assigned matrix", *msg)
        elif kind == "element":
            l = labs[r.randint(len(labs))]; o = m.operations[l]
            if type(o) in (_op.FullDenseOp, _op.TPDenseOp):
                o[1, 2] = 0.0123; rec.check(abs(m.operations[l].todense()[1, 2] - 0.0123) < 1e-12, "assigned element", *msg)
        elif kind == "set":
            two = n == 2 and r.randint(2)
            l = labs[s[2] % len(labs)] if s[2] < 3 else Label("Gn%d" % s[2], lines)
            if l.sslbls is not None and len(l.sslbls) < n: continue
            sd = int(r.randint(2**31 - 1)); f = lambda sd=sd, k=s[3]: M.mk_op(k, n, rng(sd), 0.05, dense=True)
            m.operations[l] = f(); recipe[("G", l)] = f; links = [x for x in links if l not in (x[0], x[2])]; structural = True
        elif kind == "share":
            l = labs[s[2] % len(labs)]; S = M.super_of(M.rand_unitary(2**n, r), n); nl = Label("Gs%d" % r.randint(3), lines)
            if nl != l and isinstance(m.operations[l], _op.DenseOperatorInterface):
                m.operations[nl] = _op.ComposedDenseOp([m.operations[l], _op.StaticDenseOp(S)]); structural = True
                links = [x for x in links if nl not in (x[0], x[2])] + [(nl, S, l)]; recipe.pop(("G", nl), None)
        elif kind == "prep":
            sd = int(r.randint(2**31 - 1)); f = lambda sd=sd, k=s[2]: M.mk_prep(k, n, rng(sd)); m.preps["rho0"] = f(); recipe[("rho", Label("rho0"))] = f; structural = True
        elif kind == "povm":
            sd = int(r.randint(2**31 - 1)); f = lambda sd=sd, k=s[2]: M.mk_povm(k, n, rng(sd)); m.povms["Mdefault"] = f(); recipe[("M", Label("Mdefault"))] = f; structural = True
        elif kind == "inst":
            sd = int(r.randint(2**31 - 1)); f = lambda sd=sd, k=s[2]: M.mk_inst(k, n, rng(sd)); m.instruments["Iz"] = f(); recipe[("I", Label("Iz"))] = f; structural = True
        elif kind == "del":
            if len(labs) > 1:
                l = labs[r.randint(len(labs))]; del m.operations[l]; recipe.pop(("G", l), None); links = [x for x in links if l not in (x[0], x[2])]; structural = True
        elif kind == "mat":
            if oldv is None or oldv[1] is not m: oldv = None
        if kind in ("vec", "probs", "bulk"): oldv = (np.array(m.to_vector(), copy=True), m)
        verify(m, *msg)
        v = np.array(m.to_vector(), copy=True); b = {k: dense_of(o) for k, o in all_members(m)}
        m.from_vector(v)
        for k, o in all_members(m): same(rec, dense_of(o), b[k], 1e-8, "writing back the vector changes", k, *msg)
        if other is not None: check_snapshot(rec, other, osnap[0], osnap[1], *msg)


# ------------------------------------------------------------------------------------------- arrays handed out by a model
@facet(lambda: None or explicit_specs(inst=True), quick=60, rule="the model has parameters")
def model_arrays(case, rec):
    m = M.explicit(case); v = np.array(m.to_vector(), copy=True); rec.nt(len(v) > 0)
    d = {k: dense_of(o) for k, o in all_members(m)}
    x = m.to_vector()
    if len(x) and x.flags.writeable:
        x += 1.0
        same(rec, m.to_vector(), v, 0, "changing the array that was read changed the model's vector")
        for k, o in all_members(m): same(rec, dense_of(o), d[k], 0, "changing the array that was read changed", k)
    w = v.copy(); m.from_vector(w)
    d = {k: dense_of(o) for k, o in all_members(m)}
    w += 1.0
    same(rec, m.to_vector(), v, 0, "changing the array that was written changed the model's vector")
    for k, o in all_members(m):
        same(rec, dense_of(o), d[k], 0, "changing the array that was written changed", k)
        if o.num_params(): same(rec, o.to_vector(), v[o.gpindices], 1e-9, "changing the array that was written changed the vector of", k)


# ------------------------------------------------------------------------------------------- implicit models
@st.composite
def implicits(draw):
    return {"kind": draw(st.sampled_from(["local", "free", "cloud"])), "n": draw(st.integers(1, 2)), "par": draw(st.sampled_from(["full", "TP", "CPTP", "H+S", "static"])), "indep": draw(st.booleans()), "comp": draw(st.booleans()),
            "sim": draw(st.sampled_from(["map", "matrix"])), "seed": draw(seeds), "err": draw(st.sampled_from(["gates", "errorgens"])), "idle": draw(st.booleans()),
            "steps": draw(st.lists(st.sampled_from(["vec", "vec", "probs", "copy", "swap", "pickle", "back", "sim", "direct"]), min_size=3, max_size=8)), "lays": draw(st.lists(st.lists(st.integers(0, 5), min_size=1, max_size=2), min_size=1, max_size=5)), "sub": draw(st.booleans())}


def mk_implicit(case):
    n = case["n"]; nm = ["Gxpi2", "Gypi2"] + (["Gcnot"] if n == 2 else []); av = {"Gcnot": "all-permutations"} if n == 2 else {}
    if case["kind"] == "local": return build_localnoise_model(n, nm, availability=av, parameterization=case["par"], sim_type=case["sim"], independent_gates=case["indep"], ensure_composed_gates=case["comp"])
    rates = {"Gxpi2": {"H": {"X": 0.02}, "S": {"Z": 0.01}} if 0 else {("H", "X"): 0.02, ("S", "Z"): 0.01}, "Gypi2": 0.03, "prep": 0.02, "povm": 0.01}
    if n == 2: rates["Gcnot"] = {("H", "XX"): 0.02, ("S", "ZI"): 0.03}
    if case["kind"] == "free": return build_crosstalk_free_model(n, nm, rates, availability=av, sim_type=case["sim"], independent_gates=case["indep"], ensure_composed_gates=case["comp"])
    rates = {"Gxpi2": {("H", "X"): 0.02, ("S", "Z"): 0.01}, "Gypi2": {("H", "Y"): 0.01}, "prep": {("S", "XI"[:n]): 0.02}, "povm": {("S", "XI"[:n]): 0.02}}
    if n == 2: rates["Gcnot"] = {("H", "XX"): 0.02, ("S", "ZI"): 0.03}
    if case["idle"]: rates["idle"] = {("S", "XI"[:n]): 0.01}
    return build_cloud_crosstalk_model(n, nm, rates, availability=av, sim_type=case["sim"], independent_gates=case["indep"], errcomp_type=case["err"], addIdleNoiseToAllGates=case["idle"])


@facet(implicits, quick=60, rule="the model has parameters and the history updates them after an evaluation", case_s=60)
def implicit_histories(case, rec):
    n = case["n"]; r = rng(case["seed"]); m = mk_implicit(case); rec.note(case["kind"], case["par"] if case["kind"] == "local" else "")
    prim = [Label("Gxpi2", 0), Label("Gypi2", 0)] + ([Label("Gxpi2", 1), Label("Gypi2", 1), Label("Gcnot", (0, 1)), Label("Gcnot", (1, 0))] if n == 2 else [])
    lays = []
    for l in case["lays"]:
        a = prim[l[0] % len(prim)]; b = prim[l[-1] % len(prim)]
        lays.append(Label([a, b]) if not set(a.sslbls) & set(b.sslbls) else a)
    lines = tuple(range(n))
    circs = [Circuit(lays, lines), Circuit(lays[:1] + [Circuit(lays, lines).as_label(2)], lines) if sum(1 for _ in lays) * 2 > 1 else Circuit(lays, lines), Circuit([], lines)]
    if case["sub"] and n == 2: circs.append(Circuit([l for l in lays if set(l.sslbls) <= {1}], (1,)))

    def ref(v):
        f = mk_implicit(case); rec.check(f.num_params() == len(v), "parameters of a fresh model")
        f.from_vector(v.copy()); return [dict(f.probs(c)) for c in circs]

    def cmp(m, P, *msg):
        for c, p in zip(circs, P):
            q = m.probs(c); e = max(abs(q[k] - p[k]) for k in p)
            rec.check(set(q) == set(p) and e < 1e-9, "probabilities of", c.str, "and those of a fresh model with the same vector differ by", e, *msg)
        B = m.bulk_probs(circs)
        for c, p in zip(circs, P): rec.check(max(abs(B[c][k] - p[k]) for k in p) < 1e-9, "bulk probabilities of", c.str, *msg)

    other = None; v0 = np.array(m.to_vector(), copy=True); seen = False
    for i, s in enumerate(case["steps"]):
        if s == "vec":
            w = m.to_vector() + 0.03 * r.randn(m.num_params()); m.from_vector(w); same(rec, m.to_vector(), w, 1e-12, "vector written and read"); rec.nt(seen and len(w) > 0)
        elif s == "back": m.from_vector(v0.copy()); rec.nt(seen and len(v0) > 0)
        elif s == "probs": seen = True
        elif s == "copy": other = (m.copy(), None)
        elif s == "swap": other = (m, None); m = m.copy()
        elif s == "pickle": m = pickle.loads(pickle.dumps(m))
        elif s == "sim": m.set_simtype(["map", "matrix"][r.randint(2)])
        elif s == "direct":
            objs = [o for _, o in m._iter_parameterized_objs() if o.num_params()]
            if objs: o = objs[r.randint(len(objs))]; w = o.to_vector() + 0.02 * r.rand(o.num_params()); o.from_vector(w); same(rec, m.to_vector()[o.gpindices], w, 1e-7, "member's parameters in the model's vector")
        if other is not None and other[1] is None: other = (other[0], (np.array(other[0].to_vector(), copy=True), ref(other[0].to_vector())))
        cmp(m, ref(m.to_vector()), "after", case["steps"][:i + 1])
        if other is not None:
            same(rec, other[0].to_vector(), other[1][0], 0, "vector of the other copy"); cmp(other[0], other[1][1], "(other copy) after", case["steps"][:i + 1])


# ------------------------------------------------------------------------------------------- changing the parameterisation
@st.composite
def reparam(draw):
    phys = draw(st.sampled_from(["unitary", "clifford", "cptp", "tp", "full"]))
    to = {"full": ["full", "static"], "tp": ["full", "static", "TP"], "cptp": ["full", "TP", "CPTP", "GLND", "static", "H+S+A" if False else "CPTP"], "unitary": ["full", "TP", "CPTP", "GLND", "static", "H+S", "H+D", "S", "H+s", "static unitary", "D+A"],
          "clifford": ["full", "TP", "CPTP", "H+S", "static", "static unitary", "clifford"]}[phys]
    n = draw(st.sampled_from([1, 1, 2]))
    return {"phys": phys, "n": n, "to": draw(st.lists(st.sampled_from(to), min_size=1, max_size=2 if phys not in ("clifford",) else 1)), "seed": draw(seeds), "inst": phys in ("tp", "full", "cptp") and draw(st.booleans()), "c": ecircs(draw, 1, 3), "sim": draw(st.sampled_from(["map", "matrix", "auto"]))}


@facet(reparam, quick=70, rule="the parameterisation changed", case_s=60)
def reparameterize(case, rec):
    n = case["n"]; r = rng(case["seed"]); d = 2**n; ph = case["phys"]; m = po.ExplicitOpModel(po.StateSpaceLabels([tuple(range(n))], [(4,) * n]), "pp", sim_type=case["sim"])
    cl = ["Gxpi2", "Gypi2", "Gzpi2", "Gh", "Gxpi"]
    for i in range(3):
        if ph == "clifford": U = M.kron(*[M.STDU[cl[r.randint(5)]] for _ in range(n)]) if n == 1 or i < 2 else M.STDU["Gcnot"]
        else: U = M.rand_unitary(d, r)
        S = M.super_of(U, n)
        if ph == "cptp":   # noise exactly generated by a Lindbladian within the principal branch of the logarithm
            S = sla.expm(M.gen_of({**{("S", p): 0.02 * r.rand() for p in M.paulis(n)[1:]}, **{("H", p): 0.4 * r.randn() / 2**n for p in M.paulis(n)[1:]}}, n))
        if 0 and ph == "cptp": S = sla.expm(M.gen_of({("S", p): 0.02 * r.rand() for p in M.paulis(n)[1:]}, n)) @ S
        if ph in ("tp", "full"): S = S + 0.02 * np.vstack([np.zeros(d * d) if ph == "tp" else r.randn(d * d), r.randn(d * d - 1, d * d)])
        m.operations[Label("G" + "xyz"[i], tuple(range(n)))] = _op.FullDenseOp(S)
    pure = ph in ("unitary", "clifford")
    rho = M.zero_dm(n) if pure else (1 - 0.05) * M.zero_dm(n) + 0.05 * M.rand_dm(n, r, 0.5)
    v = M.vec_of(rho, n)
    if ph == "full": v = v + 0.02 * r.randn(len(v))
    m.preps["rho0"] = po.FullSPAMVec(v, "densitymx", "prep") if hasattr(po, "FullSPAMVec") else v
    if pure:
        m.povms["Mdefault"] = M.mk_povm("comp", n, rng(0), 0) if r.randint(2) else po.UnconstrainedPOVM([(("{:0%db}" % n).format(i), M.vec_of(M.zero_dm(n, [int(x) for x in ("{:0%db}" % n).format(i)]), n)) for i in range(d)])
    else:
        m.povms["Mdefault"] = M.mk_povm("full" if ph == "full" else ("comp" if ph == "cptp" else "tp"), n, r, 0.05)
    if case["inst"]: m.instruments["Iz"] = M.mk_inst("full" if ph == "full" else "tp", n, r, 0.05)
    lines = tuple(range(n)); spec = {"lines": lines}
    cs = [make_circuit(spec, m, x)[0] for x in case["c"]]
    P = [dict(m.probs(c)) for c in cs]; D = {k: dense_of(o) for k, o in all_members(m)}
    for j, to in enumerate(case["to"]):
        if to == "static unitary" and j < len(case["to"]) - 1: continue   # (one-way)
        rec.note(ph, "->", to)
        if to == "clifford": m.set_all_parameterizations("static unitary")   # (stabilizer members are made from pure states)
        m.set_all_parameterizations(to); rec.nt(True)
        if to in ("static unitary", "clifford") and m.get_simtype() == "matrix" and to == "clifford": m.set_simtype("map")
        # Lindblad parameterisations go through a matrix logarithm and a truncation of non-positive parts
        tol = 1e-6 if to not in ("full", "TP", "static") else 1e-9
        if to not in ("static unitary", "clifford"):
            for k, o in all_members(m): same(rec, dense_of(o), D[k], tol, "member", k, "after changing the parameterisation to", to)
            v = m.to_vector(); m.from_vector(v.copy())
            for k, o in all_members(m): same(rec, dense_of(o), D[k], tol, "member", k, "after writing back the vector")
        for c, p in zip(cs, P):
            q = m.probs(c); rec.check(set(q) == set(p), "outcomes"); e = max(abs(q[k] - p[k]) for k in p)
            rec.check(e < 10 * tol, "probabilities of", c.str, "change by", e, "with the parameterisation", to)


# ------------------------------------------------------------------------------------------- members that grow and shrink
@st.composite
def edits(draw):
    return {"what": draw(st.sampled_from(["op", "op", "errgen"])), "n": draw(st.integers(1, 2)), "start": draw(st.integers(1, 3)), "seed": draw(seeds), "dense": draw(st.booleans()), "inmodel": draw(st.booleans()), "alias": draw(st.booleans()),
            "steps": draw(st.lists(st.tuples(st.sampled_from(["append", "append", "remove", "vec", "copy"]), seeds).map(list), min_size=1, max_size=6))}


@facet(edits, quick=80, rule="a factor is added or removed")
def composed_edits(case, rec):
    """appending and removing the factors of composed operations and error generators"""
    n = case["n"]; r = rng(case["seed"]); d = 4**n
    kinds = ["static", "full", "tp", "lind:H+S", "composed", "stoch"]
    leaf = (lambda r: M.mk_op(kinds[r.randint(6)], n, r, 0.05)) if case["what"] == "op" else (lambda r: _lind(n, r, 0.1))
    fs = [leaf(r) for _ in range(case["start"])]
    if case["what"] == "op": G = (_op.ComposedDenseOp if case["dense"] else _op.ComposedOp)(list(fs))
    else: G = _op.ComposedErrorgen(list(fs))
    m = None
    top = G
    if case["what"] == "errgen": top = _op.LindbladDenseOp(None, G) if case["inmodel"] and case["dense"] else (_op.LindbladOp(None, G, dense_rep=True) if case["inmodel"] else G)
    if case["inmodel"]:
        m = po.ExplicitOpModel(po.StateSpaceLabels([tuple(range(n))], [(4,) * n]), "pp", sim_type="matrix" if case["dense"] and case["what"] == "op" else "map")
        m.preps["rho0"] = M.mk_prep("tp", n, r); m.povms["Mdefault"] = M.mk_povm("full", n, r)
        m.operations[Label("Gx", tuple(range(n)))] = M.mk_op("full", n, r, dense=True)
        m.operations[Label("Gy", tuple(range(n)))] = top
        m.operations[Label("Gz", tuple(range(n)))] = M.mk_op("tp", n, r, dense=True)
        m.to_vector()
    else: M.alone(G)

    def verify(*msg):
        if m is not None: v = np.array(m.to_vector(), copy=True)
        else:
            if G.gpindices is None: M.alone(G)
            v = np.array(G.to_vector(), copy=True)
        if case["what"] == "op":
            w = np.eye(d)
            for f in G.factorops: w = np.asarray(f.todense()) @ w
        else:
            w = np.zeros((d, d))
            for f in G.factors: w = w + np.asarray(f.todense())
        same(rec, np.asarray(G.todense()), w, 1e-9, "the composed member and its factors", *msg)
        if m is None:
            x = r.randn(d); same(rec, np.asarray(G._rep.acton(_state(x)).todense()).ravel(), w @ x, 1e-8, "action of the composed member", *msg)
        else:
            T = w if case["what"] == "op" else sla.expm(w)
            L = [Label("Gx", tuple(range(n))), Label("Gy", tuple(range(n))), Label("Gz", tuple(range(n)))]
            rho = np.asarray(m.preps["rho0"].todense()).ravel()
            for M_ in (m.operations[L[0]].todense(), T, m.operations[L[2]].todense()): rho = np.asarray(M_) @ rho
            p = m.probs(Circuit(L, tuple(range(n))))
            for k, e in m.povms["Mdefault"].items(): rec.check(abs(p[k] - np.vdot(np.asarray(e.todense()).ravel(), rho)) < 1e-8, "probability and the members' matrices", *msg)
            for k, o in all_members(m):
                if o.num_params(): same(rec, o.to_vector(), v[o.gpindices], 1e-9, "member", k, "and the model's vector", *msg)
            rec.check(len(v) == m.num_params(), "length of the vector", *msg)

    def _state(x):
        from pygsti.objects import replib
        return replib.DMStateRep(np.ascontiguousarray(x))

    verify("at first")
    for i, s in enumerate(case["steps"]):
        q = rng(s[1]); F = G.factorops if case["what"] == "op" else G.factors
        if s[0] == "append":
            f = F[0] if case["alias"] and q.randint(3) == 0 else leaf(q)
            G.append(f); rec.nt(True)
            if m is None: G.set_gpindices(None, None) if False else G.clear_gpindices()
        elif s[0] == "remove":
            if len(F) > 1:
                G.remove(int(q.randint(len(F)))); rec.nt(True)
                if m is None: G.clear_gpindices()
        elif s[0] == "copy":
            if m is not None:
                m = m.copy(); t = m.operations[Label("Gy", tuple(range(n)))]; G = t if case["what"] == "op" else t.errorgen
            else: G = G.copy()
        else:
            o = m if m is not None else G
            if m is None and G.gpindices is None: M.alone(G)
            if o.num_params(): w = o.to_vector() + 0.02 * q.rand(o.num_params()); o.from_vector(w); same(rec, o.to_vector(), w, 1e-8, "vector written and read")
        verify("after step", i, s[0])
