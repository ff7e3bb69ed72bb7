"""C08: analytic derivatives are the derivatives of the values."""
TECH = "property-based testing: every reported derivative block compared, in random and coordinate directions, with high-order numerical differentiation of dense-matrix values (first derivatives) and of the verified first derivatives (second derivatives)"
NOTE = "Generated-input search: members of every parameterisation on 1-2 qubits (nested parts, shared parameters), models with instruments, several preparations and measurements, circuits of <= 7 layers, whole and split trees; derivative tolerance 2e-6 (matrix simulator) or the accuracy of the map simulator's own finite differences (1e-5 / 2e-2)."
import warnings, copy, functools
import numpy as np
from hypothesis import strategies as st
from vt.runner import facet
from vt import models as M
from vt.gen import *
from vt.mstrat import *
import pygsti
from pygsti import objects as po
from pygsti.objects import Circuit, Label

H = 5e-4


def declared(fn):
    """derivatives some members declare as not implemented are no answer at all"""
    @functools.wraps(fn)
    def g(case, rec):
        try: fn(case, rec)
        except NotImplementedError: rec.note("not implemented"); rec.skip(True)
    return g


def fd(f, x, u, H=H):
    """directional derivative of f at x along u"""
    return (45 * (f(x + H * u) - f(x - H * u)) - 9 * (f(x + 2 * H * u) - f(x - 2 * H * u)) + (f(x + 3 * H * u) - f(x - 3 * H * u))) / (60 * H)


def dirs(r, n, k=2):
    out = [r.randn(n) / np.sqrt(n) for _ in range(k)]
    e = np.zeros(n); e[r.randint(n)] = 1; out.append(e)
    return out


def near(rec, a, b, tol, *msg):
    a, b = np.asarray(a), np.asarray(b)
    rec.check(a.shape == b.shape, *msg, "shape", a.shape, b.shape)
    e = np.abs(a - b).max() if a.size else 0
    rec.check(e <= tol * max(1.0, np.abs(b).max() if b.size else 0), *msg, "differ by", e, "size", np.abs(b).max() if b.size else 0)


# ------------------------------------------------------------------------------------------- members
OPK = [k for k in M.OPKINDS if k not in ("stoch", "depol", "exp")] + ["lindu"]
MODK = [k for k in OPK if k != "static"] + ["shared", "shared"]


@st.composite
def members(draw):
    what = draw(st.sampled_from(["op", "op", "op", "prep", "povm", "inst", "errgen"]))
    n = draw(st.sampled_from([1, 1, 1, 2]))
    kind = {"op": OPK, "prep": M.PREPKINDS, "povm": M.POVMKINDS, "inst": ["tp", "full"], "errgen": ["lind", "comp", "emb"]}[what]
    return {"what": what, "n": n, "kind": draw(st.sampled_from(kind)), "seed": draw(seeds), "eps": draw(st.sampled_from([0.0, 0.05, 0.3] if n == 1 else [0.0, 0.05])), "filt": draw(st.lists(st.integers(0, 60), min_size=1, max_size=4))}


def mk_errgen(kind, n, r, eps):
    def leaf(nn):
        pm, nm = [("cptp", "all"), ("cptp", "diagonal"), ("unconstrained", "all"), ("unconstrained", "diag_affine"), ("depol", "diagonal"), ("reldepol", "diagonal"), ("cptp", "diag_affine"), ("reldepol", "diag_affine"), ("depol", "diag_affine")][r.randint(9)]
        e = po.LindbladErrorgen.from_error_generator(np.zeros((4**nn, 4**nn)), "pp", "pp", pm, nm, "pp", True, "densitymx")
        return M.perturb(e, r, eps)
    if kind == "lind" or (kind == "emb" and n == 1): return leaf(n)
    if kind == "comp":
        a, b = leaf(n), leaf(n)
        return po.ComposedErrorgen([a, b] + ([a] if r.randint(2) else []))
    labs = ["Q%d" % i for i in range(n)]; k = int(r.randint(1, n + 1)); t = [str(x) for x in r.permutation(labs)[:k]]
    return po.EmbeddedErrorgen([tuple(labs)], t, leaf(k))


def prodlike(o):
    """products of parameterized factors, whose second derivatives are the known findings of product_members"""
    if isinstance(o, (po.ComposedOp, po.TensorProdSPAMVec)): return True
    return any(prodlike(x) for x in (o.submembers() if hasattr(o, "submembers") else []))


@facet(st.sampled_from([{"product": "composed"}, {"product": "tensor"}]), quick=2, rule="always", shards=1)
def product_members(case, rec):
    rec.nt(); v = np.array([0.7, 0.1, 0.2, 0.6])
    if case["product"] == "composed": o = M.alone(po.ComposedOp([po.FullDenseOp(np.eye(4)), po.FullDenseOp(np.diag([1, 1, -1, -1.0]))]))
    else: o = M.alone(po.TensorProdSPAMVec("prep", [po.FullSPAMVec(v), po.FullSPAMVec(v)]))
    x0 = o.to_vector().copy(); u = np.linspace(-1, 1, len(x0))
    def jac(x): o.from_vector(x); return np.array(o.deriv_wrt_params()) @ u
    h = fd(jac, x0, u); o.from_vector(x0)
    rec.check(np.abs(h).max() < 1e-6 or o.has_nonzero_hessian(), "product of two parameterized factors is said to have no second derivatives", np.abs(h).max())


@facet(members, quick=560, rule="the member has parameters and a derivative is compared", case_s=60)
@declared
def member_derivatives(case, rec):
    r = rng(case["seed"]); n = case["n"]; w = case["what"]; rec.note(w, case["kind"])
    if w == "op": objs = [M.mk_op(case["kind"], n, r, case["eps"])]
    elif w == "prep": objs = [M.mk_prep(case["kind"], n, r, case["eps"])]
    elif w == "errgen": objs = [mk_errgen(case["kind"], n, r, case["eps"])]
    if w in ("op", "prep", "errgen"):
        o = M.alone(objs[0]); N = o.num_params(); root = o
        parts = [(o, lambda: o, np.arange(N))]
    else:
        root = M.mk_povm(case["kind"], n, r, case["eps"]) if w == "povm" else M.mk_inst(case["kind"], n, r)
        m = po.ExplicitOpModel(po.StateSpaceLabels([tuple(range(n))], [(4,) * n]), "pp")
        (m.povms if w == "povm" else m.instruments)["Mdefault" if w == "povm" else "Iz"] = root
        root = m; N = m.num_params()
        get = (lambda: m.povms["Mdefault"].simplify_effects("M")) if w == "povm" else (lambda: m.instruments["Iz"].simplify_operations("I"))
        parts = [(e, (lambda k=k: get()[k]), e.gpindices) for k, e in get().items()]
    if N == 0:
        rec.check(all(p[0].deriv_wrt_params().shape[-1] == 0 for p in parts if hasattr(p[0], "deriv_wrt_params")), "derivative of a static member"); return
    v0 = root.to_vector().copy()
    us = dirs(r, N)
    for e, get1, ix in parts[:4]:
        full = np.zeros(0)
        ix = np.arange(N)[ix] if isinstance(ix, slice) else np.asarray(ix, int)
        def val(x):
            root.from_vector(x); return np.array(get1().todense()).ravel()
        def jac(x):
            root.from_vector(x); return np.array(get1().deriv_wrt_params())
        root.from_vector(v0); J = np.array(get1().deriv_wrt_params())
        rec.check(J.shape[1] == len(ix), "columns", J.shape, len(ix)); rec.nt()
        scale = 1.0
        for u in us:
            near(rec, J @ u[ix], fd(val, v0, u), 2e-6, "first derivative of", type(e).__name__, case["kind"])
        root.from_vector(v0); e1 = get1()
        F = sorted(set(f % len(ix) for f in case["filt"])) if len(ix) else []
        near(rec, e1.deriv_wrt_params(F), J[:, F], 1e-12, "filtered derivative", type(e).__name__, F)
        if len(ix) <= 16 and not prodlike(e1):
            hz = e1.has_nonzero_hessian()
            numH = [fd(jac, v0, u) for u in us[:2]]
            root.from_vector(v0); e1 = get1()
            if not hz:
                for x in numH: near(rec, x, np.zeros_like(x), 1e-5, "Hessian said to vanish", type(e).__name__)
            else:
                Hs = np.array(e1.hessian_wrt_params())
                rec.check(Hs.shape == (J.shape[0], len(ix), len(ix)), "Hessian shape", Hs.shape); rec.note("hessian")
                for u, x in zip(us, numH): near(rec, Hs @ u[ix], x, 5e-6, "second derivative of", type(e).__name__, case["kind"])
                near(rec, Hs, Hs.transpose(0, 2, 1), 1e-6, "symmetric Hessian", type(e).__name__)
                F2 = F[:1] if len(F) > 1 else list(range(len(ix)))
                G = np.array(e1.hessian_wrt_params(F, F2))
                near(rec, G, Hs[:, F, :][:, :, F2], 1e-10, "filtered Hessian", type(e).__name__, F, F2)
                near(rec, np.array(e1.hessian_wrt_params(F)), Hs[:, F, :], 1e-10, "row-filtered Hessian", type(e).__name__, F)
        root.from_vector(v0)


# ------------------------------------------------------------------------------------------- models
@st.composite
def expl(draw, nq=None, one=False):
    s = draw(explicit_specs(kinds=MODK, nq=nq if nq else draw(st.sampled_from([1, 1, 1, 1, 1, 1, 1, 2])), nops=2, one=one))
    return {"m": s, "c": ecircs(draw, 1, 4), "sim": draw(st.sampled_from(["matrix", "matrix", "map"])), "split": draw(st.sampled_from([None, 2, 3])), "wrt": draw(st.sampled_from([None, 1, 2, 5])), "clip": draw(st.sampled_from([None, None, [0.2, 0.8]])),
            "b": [draw(st.integers(0, 8)), draw(st.integers(1, 6)), draw(st.integers(0, 8)), draw(st.integers(1, 6))]}


def prep_model(case, rec, cap):
    spec = case["m"]; m = M.explicit(spec); m.set_simtype(case["sim"]); N = m.num_params()
    rec.skip(N == 0 or N > cap)
    if case["sim"] == "map" and any(isinstance(o, po.operation.EigenvalueParamDenseOp) for o in m.operations.values()): pass
    cs = [make_circuit(spec, m, c) for c in case["c"]]
    seen = set(); cs = [c for c in cs if not (c[0] in seen or seen.add(c[0]))]
    return m, N, cs


def values(m, x, cs):
    m2 = m.copy(); m2.from_vector(x)
    return np.array([v for c, pl, lay, vl in cs for _, v in sorted(dense_probs(m2, pl, lay, vl).items())])


def order(d): return [d[k] for k in sorted(d, key=lambda k: (k,) if isinstance(k, str) else tuple(k))]


@facet(expl, quick=160, rule="some circuit with >= 2 operations", case_s=90)
@declared
def probability_derivatives(case, rec):
    m, N, cs = prep_model(case, rec, 200 if case["sim"] == "matrix" else 80); r = rng(case["m"]["seed"] + 1); x0 = m.to_vector().copy()
    circs = [c[0] for c in cs]; rec.note(case["sim"]); rec.nt(any(len(c[2]) > 1 for c in cs))
    tol = 2e-6 if case["sim"] == "matrix" else 2e-5
    us = dirs(r, N); num = [fd(lambda x: values(m, x, cs), x0, u) for u in us]; p0 = values(m, x0, cs)
    clip = case["clip"]; pc = np.clip(p0, *clip) if clip else p0
    # one circuit at a time
    J = []; P = []
    for c in circs:
        d = m.dprobs(c); J += [np.asarray(x).ravel() for x in order(d)]
        d2 = m.dprobs(c, returnPr=True, clipTo=clip)
        for k, (dp, p) in d2.items():
            near(rec, np.asarray(dp).ravel(), np.asarray(d[k]).ravel(), 1e-12, "dprobs with returnPr")
        P += [float(np.ravel(x[1])[0]) for x in order(d2)]
    J = np.array(J)
    if case["sim"] == "map": tol *= max(1, np.abs(J).max())  # (forward differences with step 1e-7)
    for u, x in zip(us, num): near(rec, J @ u, x, tol, "dprobs", case["sim"], [c.str for c in circs])
    near(rec, P, pc, 1e-9, "probabilities returned with derivatives")
    # many circuits
    bd = m.bulk_dprobs(circs, returnPr=True, clipTo=clip, wrtBlockSize=case["wrt"])
    near(rec, [np.asarray(x[0]).ravel() for c in circs for x in order(bd[c])], J, 1e-9 if case["sim"] == "matrix" else 1e-5, "bulk_dprobs")
    near(rec, [float(x[1]) for c in circs for x in order(bd[c])], pc, 1e-9, "bulk_dprobs probabilities")
    kw = {"minSubtrees": case["split"]} if case["split"] and case["split"] <= len(circs) else {}
    try: ev, lu, ol = m.bulk_evaltree(circs, **kw)
    except AssertionError as e:
        if "Unsuccessful splitting" not in str(e): raise
        ev, lu, ol = m.bulk_evaltree(circs)
    rec.note("split" if ev.is_split() else "whole")
    E = ev.num_final_elements(); mx = np.full((E, N), np.nan); pr = np.full(E, np.nan)
    m.bulk_fill_dprobs(mx, ev, prMxToFill=pr, clipTo=clip, wrtBlockSize=case["wrt"])
    ixs = [list(range(E))[lu[i]] if isinstance(lu[i], slice) else [int(y) for y in lu[i]] for i in range(len(circs))]
    perm = [ix[j] for ix, o in zip(ixs, (ol[i] for i in range(len(circs)))) for j in sorted(range(len(o)), key=lambda j: o[j])]
    near(rec, mx[perm], J, 1e-9 if case["sim"] == "matrix" else 1e-5, "bulk_fill_dprobs")
    near(rec, pr[perm], pc, 1e-9, "bulk_fill_dprobs probabilities")
    # only some of each circuit's outcomes (those of a data set), and others later
    for shift in (1, 2):
        ds = pygsti.objects.DataSet(); rows = []; k = 0
        for c, pl, lay, vl in cs:
            os_ = sorted(dense_probs(m, pl, lay, vl)); keep = [j for j in range(len(os_)) if (j + shift) % 2 or len(os_) == 1]
            ds.add_count_dict(c, {(os_[j] if len(os_[j]) > 1 else os_[j][0]): 1 for j in keep}); rows += [k + j for j in keep]; k += len(os_)
        ds.done_adding_data()
        ev, _, _, lu, ol = m.bulk_evaltree_from_resources(circs, dataset=ds, verbosity=0)
        E = ev.num_final_elements(); mx = np.full((E, N), np.nan); m.bulk_fill_dprobs(mx, ev)
        ixs = [list(range(E))[lu[i]] if isinstance(lu[i], slice) else [int(y) for y in lu[i]] for i in range(len(circs))]
        perm = [ix[j] for ix, o in zip(ixs, (ol[i] for i in range(len(circs)))) for j in sorted(range(len(o)), key=lambda j: o[j])]
        near(rec, mx[perm], J[rows], 1e-9 if case["sim"] == "matrix" else 1e-5, "bulk_fill_dprobs of some outcomes")


@facet(lambda: expl(1), quick=40, rule="some circuit with >= 2 operations", case_s=120)
@declared
def probability_hessians(case, rec):
    m, N, cs = prep_model(case, rec, 24); r = rng(case["m"]["seed"] + 1); x0 = m.to_vector().copy()
    rec.skip(any(prodlike(o) for d in (m.preps, m.povms, m.operations) for o in d.values()))
    cs = cs[:2]; circs = [c[0] for c in cs]; rec.note(case["sim"]); rec.nt(any(len(c[2]) > 1 for c in cs))
    mat = case["sim"] == "matrix"; tol = 2e-5 if mat else 5e-2
    m1 = m.copy(); m1.set_simtype("matrix")
    def jac(x):
        m1.from_vector(x); return np.array([np.asarray(d).ravel() for c in circs for d in order(m1.dprobs(c))])
    us = dirs(r, N, 1); num = [fd(jac, x0, u) for u in us]; m1.from_vector(x0); J = jac(x0); p0 = values(m, x0, cs)
    Hs = []; P = []; D = []
    for c in circs:
        Hs += [np.squeeze(np.asarray(h), 0) if np.ndim(h) == 3 else np.asarray(h) for h in order(m.hprobs(c))]
        q = m.hprobs(c, returnPr=True, returnDeriv=True)
        P += [float(np.ravel(x[2])[0]) for x in order(q)]; D += [np.ravel(x[1]) for x in order(q)]
    Hs = np.array(Hs)
    for u, x in zip(us, num): near(rec, Hs @ u, x, tol, "hprobs", case["sim"], [c.str for c in circs])
    near(rec, P, p0, 1e-9, "hprobs probabilities"); near(rec, D, J, 1e-9 if mat else 2e-5, "hprobs derivatives")
    bh = m.bulk_hprobs(circs, returnPr=True, returnDeriv=True, wrtBlockSize1=case["wrt"], wrtBlockSize2=case["wrt"])
    ht = 1e-8 if mat else 5e-2
    near(rec, [x[0] for c in circs for x in order(bh[c])], Hs, ht, "bulk_hprobs")
    near(rec, [x[1] for c in circs for x in order(bh[c])], J, 1e-9 if mat else 2e-5, "bulk_hprobs derivatives")
    near(rec, [float(x[2]) for c in circs for x in order(bh[c])], p0, 1e-9, "bulk_hprobs probabilities")
    ev, lu, ol = m.bulk_evaltree(circs); E = ev.num_final_elements()
    mx = np.full((E, N, N), np.nan); dm = np.full((E, N), np.nan); pr = np.full(E, np.nan)
    m.bulk_fill_hprobs(mx, ev, prMxToFill=pr, derivMxToFill=dm, wrtBlockSize1=case["wrt"], wrtBlockSize2=case["wrt"])
    ixs = [list(range(E))[lu[i]] if isinstance(lu[i], slice) else [int(y) for y in lu[i]] for i in range(len(circs))]
    perm = [ix[j] for ix, o in zip(ixs, (ol[i] for i in range(len(circs)))) for j in sorted(range(len(o)), key=lambda j: o[j])]
    near(rec, mx[perm], Hs, ht, "bulk_fill_hprobs"); near(rec, dm[perm], J, 1e-9 if mat else 2e-5, "bulk_fill_hprobs derivatives"); near(rec, pr[perm], p0, 1e-9, "bulk_fill_hprobs probabilities")
    a, b, c_, d = case["b"]; s1 = slice(a % N, min(N, a % N + b)); s2 = slice(c_ % N, min(N, c_ % N + d))
    n = 0
    for x in m.bulk_hprobs_by_block(ev, [(s1, s2), (s2, s1)], bReturnDProbs12=True):
        rs, cl = [(s1, s2), (s2, s1)][n]; n += 1
        rec.check((x[0], x[1]) == (rs, cl), "block order", x[:2])
        near(rec, x[2][perm], Hs[:, rs, cl], ht, "bulk_hprobs_by_block", rs, cl)
        near(rec, x[3][perm], J[:, rs][:, :, None] * J[:, cl][:, None, :], 1e-8 if mat else 1e-4, "products of first derivatives", rs, cl)
    rec.check(n == 2, "number of blocks", n)


@facet(lambda: expl(1, True), quick=140, rule="some circuit with >= 2 operations", case_s=90)
@declared
def product_derivatives(case, rec):
    case = dict(case, sim="matrix"); m, N, _ = prep_model(case, rec, 60); r = rng(case["m"]["seed"] + 2); x0 = m.to_vector().copy()
    labs = list(m.operations.keys()); lines = tuple(case["m"]["lines"])
    circs = []
    for c in case["c"]:
        fl = [labs[x % len(labs)] for it in c["l"] for x in (it[1] * it[2] if isinstance(it, list) else [it])]
        cc = Circuit(fl, lines)
        if cc not in [q[0] for q in circs]: circs.append((cc, fl))
    rec.nt(any(len(f) > 1 for _, f in circs)); d = 4 ** len(lines)
    def prod(x, fl):
        m2 = m.copy(); m2.from_vector(x); G = np.eye(d)
        for l in fl: G = m2.operations[l].todense() @ G
        return G
    us = dirs(r, N, 1); Js = []
    for c, fl in circs:
        J = np.array(m.dproduct(c)); rec.check(J.shape == (N, d, d), "dproduct shape", J.shape); Js.append(J)
        near(rec, m.product(c), prod(x0, fl), 1e-9, "product", c.str)
        for u in us: near(rec, np.tensordot(u, J, 1), fd(lambda x: prod(x, fl), x0, u), 2e-6, "dproduct", c.str)
        near(rec, m.dproduct(c, flat=True), J.reshape(N, d * d).T, 1e-12, "flat dproduct")
    cl = [c for c, _ in circs]; ev, _, _ = m.bulk_evaltree(cl); kw = {}
    nonp = [c for c in cl]
    B, Pr = m.bulk_dproduct(ev, bReturnProds=True); near(rec, B, np.array(Js), 1e-9, "bulk_dproduct"); near(rec, Pr, [prod(x0, f) for _, f in circs], 1e-9, "bulk_dproduct products")
    B2, Pr2, S = m.bulk_dproduct(ev, bReturnProds=True, bScale=True)
    near(rec, B2 * S[:, None, None, None], np.array(Js), 1e-9, "scaled bulk_dproduct"); near(rec, Pr2 * S[:, None, None], Pr, 1e-9, "scaled products")
    near(rec, m.bulk_dproduct(ev, flat=True), np.concatenate([J.reshape(N, d * d).T for J in Js], 0), 1e-9, "flat bulk_dproduct")
    if N <= 16 and not any(prodlike(o) for o in m.operations.values()):
        m1 = m.copy()
        def jac(x, c): m1.from_vector(x); return np.array(m1.dproduct(c))
        Hs = []
        for c, fl in circs[:2]:
            Hx = np.array(m.hproduct(c)); rec.check(Hx.shape == (N, N, d, d), "hproduct shape", Hx.shape)
            for u in us: near(rec, np.tensordot(Hx, u, axes=([1], [0])), fd(lambda x: jac(x, c), x0, u), 5e-6, "hproduct", c.str)
            near(rec, m.hproduct(c, flat=True), Hx.reshape(N, N, d * d).transpose(2, 0, 1), 1e-10, "flat hproduct"); Hs.append(Hx)
        ev, _, _ = m.bulk_evaltree(cl[:2])
        BH, D1, PP = m.bulk_hproduct(ev, bReturnDProdsAndProds=True)
        near(rec, BH, np.array(Hs), 1e-8, "bulk_hproduct"); near(rec, D1, np.array(Js[:2]), 1e-9, "bulk_hproduct derivatives"); near(rec, PP, Pr[:2], 1e-9, "bulk_hproduct products")
        near(rec, m.bulk_hproduct(ev, flat=True), np.concatenate([h.reshape(N, N, d * d).transpose(2, 0, 1) for h in Hs], 0), 1e-8, "flat bulk_hproduct")


@facet(expl, quick=120, rule="the model has parameters", case_s=60)
@declared
def element_derivatives(case, rec):
    """Model.deriv_wrt_params: all elements of all members, with respect to all parameters"""
    spec = dict(case["m"], inst=None); m = M.explicit(spec); N = m.num_params(); rec.skip(N == 0 or N > 400); rec.nt()
    x0 = m.to_vector().copy(); r = rng(spec["seed"] + 3); J = np.array(m.deriv_wrt_params())
    def els(x):
        m2 = m.copy(); m2.from_vector(x); out = [p.todense().ravel() for p in m2.preps.values()]
        for q in m2.povms.values(): out += [e.todense().ravel() for e in q.values()]
        for o in m2.operations.values(): out.append(o.todense().ravel())
        return out
    def canon(rows): return sorted(range(len(rows)), key=lambda i: tuple(np.round(rows[i], 5)))
    tot = sum(len(a) for a in els(x0)); rec.check(J.shape == (tot, N), "shape", J.shape, (tot, N))
    us = dirs(r, N, 1)
    for u in us:
        # (the documentation does not fix the order of the members: compare as a multiset of element derivatives)
        a = np.sort(J @ u); b = np.sort(np.concatenate(fd_list(els, x0, u))); near(rec, a, b, 2e-6, "element derivatives")


def fd_list(f, x, u):
    a, b, c, d = f(x + H * u), f(x - H * u), f(x + 2 * H * u), f(x - 2 * H * u)
    return [(8 * (p - q) - (s - t)) / (12 * H) for p, q, s, t in zip(a, b, c, d)]


# ------------------------------------------------------------------------------------------- objective functions
@facet(lambda: expl(1), quick=90, rule="always", case_s=90)
@declared
def objective_derivatives(case, rec):
    case = dict(case, sim="matrix"); m, N, cs = prep_model(case, rec, 40); r = rng(case["m"]["seed"] + 5); rec.nt(); x0 = m.to_vector().copy()
    key = lambda c: str((c[1], [y for l in c[2] for y in flat(l)], c[3]))
    seen = set(); cs = [c for c in cs if not (key(c) in seen or seen.add(key(c)))]  # (no two names of one experiment)
    circs = [c[0] for c in cs]; ds = po.DataSet()
    for c, pl, lay, vl in cs:
        p = dense_probs(m, pl, lay, vl); ks = sorted(p); rec.skip(min(p.values()) < 0.02 and False)
        ds.add_count_dict(c, {k: int(r.randint(0, 60)) + 1 for k in ks})
    ds.done_adding_data()
    from pygsti.tools import logl, logl_jacobian, logl_hessian, chi2
    kw = {"minProbClip": 0.05, "radius": 1e-4}
    rec.skip(any(abs(v - 0.05) < 0.01 for c in cs for v in dense_probs(m, *c[1:]).values()))
    us = dirs(r, N, 1); m1 = m.copy(); prod = any(prodlike(o) for d in (m.preps, m.povms, m.operations) for o in d.values())
    def at(f):
        def g(x): m1.from_vector(x); return f(m1)
        return g
    for pp in (True, False):
        if not pp: rec.skip(any(not 0.01 < q < 0.995 for c in cs for q in dense_probs(m, *c[1:]).values()))  # (logarithms of values above 1 are cut off)
        f = at(lambda q: np.array(logl(q, ds, circs, poissonPicture=pp, **kw)))
        g = at(lambda q: np.array(logl_jacobian(q, ds, circs, poissonPicture=pp, **kw)))
        J = g(x0); rec.check(J.shape == (N,), "gradient shape", J.shape)
        for u in us:
            n1 = fd(f, x0, u, 1e-4); near(rec, J @ u, n1, 1e-5, "logl_jacobian, poisson" if pp else "logl_jacobian")
        if N <= 24 and not prod:
            m1.from_vector(x0); Hx = np.array(logl_hessian(m1, ds, circs, poissonPicture=pp, **kw))
            if all(min(dense_probs(m, *c[1:]).values()) > 0.01 for c in cs):
                for u in us: near(rec, Hx @ u, fd(g, x0, u, 1e-4), 1e-4, "logl_hessian, poisson" if pp else "logl_hessian")
    m1.from_vector(x0)
    f = at(lambda q: np.array(chi2(q, ds, circs, minProbClipForWeighting=1e-6)))
    if all(min(dense_probs(m, *c[1:]).values()) > 0.01 for c in cs):
        J = np.array(chi2(m, ds, circs, returnGradient=True, minProbClipForWeighting=1e-6)[1])
        for u in us: near(rec, J @ u, fd(f, x0, u, 1e-4), 1e-5, "chi2 gradient")
        if N <= 24 and not prod:
            g = at(lambda q: np.array(chi2(q, ds, circs, returnGradient=True, minProbClipForWeighting=1e-6)[1]))
            Hx = np.array(chi2(m, ds, circs, returnGradient=True, returnHessian=True, minProbClipForWeighting=1e-6)[2])
            for u in us: near(rec, Hx @ u, fd(g, x0, u, 1e-4), 1e-4, "chi2 Hessian")
