"""C15: likelihood and chi-squared equal their definitions on every data set."""
TECH = "Hypothesis: generated models, circuits and (sparse, zero-count, weighted, aliased, time-stamped) data sets; every objective compared with a reference that sums the textbook terms over probabilities from an independent dense product, gradients and Hessians with central differences of the reference, plus metamorphic relations (order, batches, caches, added data)"
NOTE = "Generated-input search: explicit models on 1-2 qubits of every parameterisation, <= 6 circuits of <= 7 layers; gradients and Hessians of models with <= 24 parameters, compared with differences (tolerance 1e-5 relative; regularisation radii 0.01-0.2 there)."
import itertools, warnings
import numpy as np, scipy.stats as sst
from hypothesis import strategies as st
from vt import facet, models as M
from vt.gen import *
from vt.mstrat import *
import pygsti
import pygsti.objects as po, pygsti.tools as pt, pygsti.algorithms.core as core
from pygsti.objects import Circuit, Label
from pygsti.objects.smartcache import SmartCache
warnings.simplefilter("ignore")

DK = ["static", "tp", "full", "linear", "lind:CPTP", "lind:H+S", "lind:GLND", "composed", "embedded", "eig", "shared"]
DK = [k for k in DK if k in M.OPKINDS + ["shared"]]
key = lambda c: str((c[1], [y for l in c[2] for y in flat(l)], c[3]))


# ------------------------------------------------------------------------------------ the definitions
def g0(p, a):   # the rounded N*p of outcomes that were not seen
    return p if p >= a else -p**3 / (3 * a * a) + p * p / a + a / 3


def L1(n, N, p, mp, a, pois):
    """one outcome's log-likelihood"""
    if n == 0: return -N * g0(p, a) if pois else 0.0
    q = max(p, mp); v = n * np.log(q) - (N * q if pois else 0.0); v = min(v, 0.0)
    if p < mp: v += (n / mp - (N if pois else 0.0)) * (p - mp) - 0.5 * n / mp**2 * (p - mp)**2
    return v


def logl_ref(cnts, p, mp, a, pois):
    """one circuit's log-likelihood; cnts: outcome -> count of the recorded outcomes, p: all the model's outcomes"""
    N = float(sum(cnts.values())); v = sum(L1(n, N, p[o], mp, a, pois) for o, n in cnts.items())
    if pois and len(cnts) < len(p): v -= N * g0(1 - sum(max(p[o], mp) for o in cnts), a)
    return v


def max_ref(cnts, pois):
    N = float(sum(cnts.values()))
    return sum(n * (np.log(n / N) - (1 if pois else 0)) for n in cnts.values() if n > 0)


def chi2_ref(cnts, p, mp, hi=1e10):
    N = float(sum(cnts.values()))
    v = sum(N * (p[o] - n / N)**2 / min(max(p[o], mp), hi) for o, n in cnts.items())
    if len(cnts) < len(p):
        om = 1 - sum(p[o] for o in cnts); v += N * om**2 / min(max(om, mp), 1 - mp)
    return v


def near(rec, got, want, tol, *msg):
    got, want = np.asarray(got, float), np.asarray(want, float)
    rec.check(got.shape == want.shape, *msg, "shape", got.shape, "expected", want.shape)
    s = max(1.0, float(np.max(np.abs(want))) if want.size else 1.0)
    rec.check(np.all(np.isfinite(got)) and (got.size == 0 or np.max(np.abs(got - want)) <= tol * s), *msg, "got", got.ravel()[:6].tolist(), "definition", want.ravel()[:6].tolist())


# ------------------------------------------------------------------------------------ cases
cnt = st.sampled_from([0, 0, 1, 1, 2, 5, 10, 37, 100, 1000])


@st.composite
def cases(draw, nq=None, kinds=None, inst=True, hi=6, eps=True):
    s = draw(explicit_specs(kinds=kinds or DK, nq=nq if nq else draw(st.sampled_from([1, 1, 1, 2])), nops=2 if nq else 3, inst=inst, eps=eps, **({"prepkinds": TPPREP, "povmkinds": ["full", "tp", "static", "comp", "lind:CPTP", "lind:H+S"], "one": True} if nq else {})))
    cs = ecircs(draw, 1, hi)
    return {"m": s, "c": cs, "d": [draw(st.lists(st.tuples(st.booleans(), cnt).map(list), min_size=8, max_size=8)) for _ in cs], "sparse": draw(st.booleans()), "alias": draw(st.sampled_from([None, None, None, [0, [1, 0]], [1, [0, 0]], [0, []]])),
            "pois": draw(st.booleans()), "mp": draw(st.sampled_from([1e-6, 1e-4, 0.01, 0.1])), "a": draw(st.sampled_from([1e-4, 0.01, 0.1])), "clip": draw(st.sampled_from([None, None, None, [0, 1], [0.05, 0.9]])), "sim": draw(st.sampled_from(["matrix", "matrix", "map"])), "seed": draw(seeds)}


TPPREP = [k for k in ["static", "tp", "full", "static", "lind:CPTP", "lind:H+S"] if k in M.PREPKINDS]


def setup(case, rec, dup=False):
    """(model, [(circuit, prep label, layers, povm label)], [recorded counts], data set, aliases)"""
    spec = case["m"]; m = M.explicit(spec); m.set_simtype(case["sim"]); al = case["alias"]
    labs = list(m.operations.keys()); aliases = None
    cs, seen = [], set()
    for c, d in zip(case["c"], case["d"]):
        if al: c = dict(c, l=[x for x in c["l"] if not isinstance(x, list)])
        t = make_circuit(spec, m, c)
        if key(t) in seen: continue
        seen.add(key(t)); cs.append((t, d))
    if al:
        src = labs[al[0] % len(labs)]; aliases = {src: Circuit([labs[i % len(labs)] for i in al[1] if labs[i % len(labs)] != src], tuple(spec["lines"]))}
    ds = po.DataSet(); cnts = []; used = {}
    out = []
    for t, d in cs:
        c, pl, lay, vl = t; ks = sorted(dense_probs(m, pl, lay, vl))
        dc = c if not al else Circuit([y for l in c for y in (tuple(aliases[l]) if l in aliases else (l,))], tuple(spec["lines"]))
        if dc in used: continue
        used[dc] = 1
        k = {o: float(d[i % 8][1]) for i, o in enumerate(ks) if not case["sparse"] or d[i % 8][0]}
        if sum(k.values()) == 0: k[ks[0]] = 7.0
        if "frac" in case and case["frac"]: k = {o: v * 0.37 for o, v in k.items()}
        ds.add_count_dict(dc, {(o if len(o) > 1 else o[0]): v for o, v in k.items()})
        if al: k = {o: k.get(o, 0.0) for o in ks}     # (with aliases every outcome of the model is an element)
        out.append(t); cnts.append(k)
    ds.done_adding_data()
    return m, out, cnts, ds, aliases


def probs_of(m, cs, clip=None):
    out = [dense_probs(m, pl, lay, vl) for c, pl, lay, vl in cs]
    return out if clip is None else [{k: min(max(v, clip[0]), clip[1]) for k, v in p.items()} for p in out]


@facet(lambda: cases(), quick=260, rule="two circuits, or an outcome that was not recorded", case_s=60)
def values(case, rec):
    m, cs, cnts, ds, al = setup(case, rec); circs = [t[0] for t in cs]; pois, mp, a, clip = case["pois"], case["mp"], case["a"], case["clip"]
    P = probs_of(m, cs, clip); rec.note("sparse" if case["sparse"] else "", "alias" if al else "", case["sim"])
    rec.nt(len(cs) > 1 or any(len(k) < len(p) for k, p in zip(cnts, P)))
    kw = dict(minProbClip=mp, radius=a, poissonPicture=pois, opLabelAliases=al)
    if clip: kw["probClipInterval"] = clip
    want = [logl_ref(k, p, mp, a, pois) for k, p in zip(cnts, P)]; mx = [max_ref(k, pois) for k in cnts]
    near(rec, pt.logl_terms(m, ds, circs, **kw), want, 1e-8, "logl_terms")
    near(rec, pt.logl(m, ds, circs, **kw), sum(want), 1e-8, "logl")
    near(rec, pt.logl_max_terms(m, ds, circs, pois, al), mx, 1e-9, "logl_max_terms")
    near(rec, pt.logl_max(m, ds, circs, pois, opLabelAliases=al), sum(mx), 1e-9, "logl_max")
    two = 2 * (np.array(mx) - np.array(want))
    near(rec, pt.two_delta_logl(m, ds, circs, **kw), two.sum(), 1e-8, "two_delta_logl")
    near(rec, pt.two_delta_logl_terms(m, ds, circs, **kw), two, 1e-8, "two_delta_logl_terms")
    if not al:
        # degrees of freedom: one less than the number of outcomes seen, per circuit
        t, ns, pv = pt.two_delta_logl(m, ds, circs, dof_calc_method="all", **kw)
        k = max(ds.get_degrees_of_freedom(circs) - m.num_params(), 1)
        near(rec, [t, ns, pv], [two.sum(), (two.sum() - k) / np.sqrt(2 * k), sst.chi2.sf(two.sum(), k)], 1e-6, "two_delta_logl with statistics")
        near(rec, ds.get_degrees_of_freedom(circs), sum(len([o for o in kk]) - 1 if False else dof(kk, p) for kk, p in zip(cnts, P)), 0, "degrees of freedom")
        near(rec, pt.two_delta_logl_terms(m, ds, **kw), two, 1e-8, "two_delta_logl_terms of all circuits"); k = int(np.ceil(k / len(circs)))
        t, ns, pv = pt.two_delta_logl_terms(m, ds, dof_calc_method="all", **kw)
        near(rec, [t, ns, pv], [two, (two - k) / np.sqrt(2 * k), sst.chi2.sf(two, k)], 1e-6, "two_delta_logl_terms with statistics")
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always"); near(rec, pt.logl_max(m, ds, None if al is None else circs, pois, True, opLabelAliases=al), sum(mx), 1e-9, "checked logl_max")
    rec.check(not any("upper bound mismatch" in str(x.message) for x in ws), "logl_max disagrees with its own check")
    # chi-squared
    P2 = probs_of(m, cs, clip); ckw = dict(minProbClipForWeighting=mp, clipTo=clip, opLabelAliases=al)
    cw = [chi2_ref(k, p, mp) for k, p in zip(cnts, P2)]
    near(rec, pt.chi2_terms(m, ds, circs, **ckw), cw, 1e-8, "chi2_terms")
    near(rec, pt.chi2(m, ds, circs, **ckw), sum(cw), 1e-8, "chi2")
    # the upper bound
    if pois and all(n == 0 or n / sum(k.values()) >= mp for k in cnts for n in k.values()):
        v = np.array(pt.logl_terms(m, ds, circs, **kw)); rec.check(np.all(v <= np.array(mx) + 1e-9 * (1 + np.abs(mx))), "log-likelihood above its maximum", v.tolist(), mx)
    # order, batches, caches
    r = rng(case["seed"]); o = r.permutation(len(circs))
    near(rec, pt.logl_terms(m, ds, [circs[i] for i in o], **kw), [want[i] for i in o], 1e-8, "logl_terms, other order of circuits")
    near(rec, pt.chi2_terms(m, ds, [circs[i] for i in o], **ckw), [cw[i] for i in o], 1e-8, "chi2_terms, other order of circuits")
    j = len(circs) // 2
    near(rec, pt.logl(m, ds, circs[:j], **kw) if j else 0.0, sum(want[:j]), 1e-8, "logl of the first circuits")
    if al is None: near(rec, pt.logl(m, ds, **kw), sum(want), 1e-8, "logl of all circuits of the data set"); near(rec, pt.chi2(m, ds, **ckw), sum(cw), 1e-8, "chi2 of all circuits of the data set")
    cache = {}; sc = SmartCache()
    for i in range(2):
        near(rec, pt.logl_terms(m, ds, circs, evaltree_cache=cache, **kw), want, 1e-8, "logl_terms with an evaluation-tree cache")
        near(rec, pt.chi2_terms(m, ds, circs, evaltree_cache=cache, **ckw), cw, 1e-8, "chi2_terms with an evaluation-tree cache")
        near(rec, pt.chi2(m, ds, circs, evaltree_cache=cache, **ckw), sum(cw), 1e-8, "chi2 with an evaluation-tree cache")
        near(rec, pt.logl_max_terms(m, ds, circs, pois, al, cache), mx, 1e-9, "logl_max_terms with an evaluation-tree cache")
    # outcomes recorded in another order
    ds2 = po.DataSet()
    for c in ds.keys(): ds2.add_count_dict(c, dict(reversed([((k if len(k) > 1 else k[0]), v) for k, v in ds[c].counts.items()])))
    ds2.done_adding_data()
    near(rec, pt.logl(m, ds2, circs, **kw), sum(want), 1e-8, "logl, outcomes in another order"); near(rec, pt.chi2(m, ds2, circs, **ckw), sum(cw), 1e-8, "chi2, outcomes in another order")
    # adding data sets adds likelihoods (of data with the same outcomes seen)
    ds3 = po.DataSet(collisionAction="aggregate"); f = 3
    for c in ds.keys():
        kk = {(k if len(k) > 1 else k[0]): v for k, v in ds[c].counts.items()}
        ds3.add_count_dict(c, kk); ds3.add_count_dict(c, {k: v * f for k, v in kk.items()})
    ds3.done_adding_data()
    near(rec, pt.logl_terms(m, ds3, circs, **kw), (1 + f) * np.array(want), 1e-8, "logl of added data")


def dof(cnts, p):
    return max(len([o for o in cnts]) - 1, 0)


# ------------------------------------------------------------------------------------ derivatives
def total(fn, m, cs, cnts, w=None):
    def F(x):
        m.from_vector(x); P = probs_of(m, cs)
        return sum((1 if w is None else w[i]) * fn(k, p) for i, (k, p) in enumerate(zip(cnts, P)))
    return F


def fd(f, x, u, h):
    return (8 * (np.asarray(f(x + h * u)) - np.asarray(f(x - h * u))) - (np.asarray(f(x + 2 * h * u)) - np.asarray(f(x - 2 * h * u)))) / (12 * h)


def fd2(f, x, u, w, h):
    return (f(x + h * u + h * w) - f(x + h * u - h * w) - f(x - h * u + h * w) + f(x - h * u - h * w)) / (4 * h * h)


def kinks(P, cnts, mp, a, pois):
    """probabilities near a point where the regularised term is not smooth, or where a fourth-order difference is inaccurate"""
    for p, k in zip(P, cnts):
        N = sum(k.values())
        for o, n in k.items():
            if abs(p[o] - mp) < 2e-3 or abs(p[o] - a) < 2e-3 or abs(p[o] - (1 - mp)) < 2e-3: return True
            if n > 0 and (p[o] > 0.995): return True
            if n > 0 and pois and n * np.log(max(p[o], mp)) - N * max(p[o], mp) >= 0: return True
        if len(k) < len(p):
            for om in (1 - sum(p[o] for o in k), 1 - sum(max(p[o], mp) for o in k)):
                if abs(om - a) < 2e-3 or abs(om - mp) < 2e-3 or abs(om - 1 + mp) < 2e-3: return True
    return False


@st.composite
def dcases(draw):
    c = draw(cases(nq=1, hi=4, kinds=["static", "tp", "full", "linear", "lind:H+S", "lind:CPTP"]))
    return dict(c, mp=draw(st.sampled_from([0.02, 0.1, 0.2])), a=draw(st.sampled_from([0.02, 0.1, 0.2])), clip=None, mem=draw(st.booleans()))


def smooth(case, rec, cap=24):
    m, cs, cnts, ds, al = setup(case, rec); N = m.num_params(); rec.skip(N == 0 or N > cap)
    P = probs_of(m, cs); rec.skip(kinks(P, cnts, case["mp"], case["a"], case["pois"]))
    return m, cs, cnts, ds, al, N, m.to_vector().copy(), m.copy()


@facet(lambda: dcases(), quick=300, rule="an outcome is below the regularisation threshold, or was not recorded", case_s=90)
def derivatives(case, rec):
    m, cs, cnts, ds, al, N, x0, m2 = smooth(case, rec); circs = [t[0] for t in cs]; mp, a, pois = case["mp"], case["a"], case["pois"]; P = probs_of(m, cs)
    low = any(p[o] < mp for p, k in zip(P, cnts) for o in k); sp = any(len(k) < len(p) for p, k in zip(P, cnts))
    rec.nt(low or sp); rec.note("low" if low else "", "sparse" if sp else "", "poisson" if pois else "")
    kw = dict(minProbClip=mp, radius=a, poissonPicture=pois, opLabelAliases=al); r = rng(case["seed"]); us = [r.normal(size=N) for _ in range(2)]; us = [u / np.linalg.norm(u) for u in us]
    F = total(lambda k, p: logl_ref(k, p, mp, a, pois), m2, cs, cnts); C = total(lambda k, p: chi2_ref(k, p, mp), m2, cs, cnts)
    J = pt.logl_jacobian(m, ds, circs, **kw); rec.check(J.shape == (N,), "gradient shape", J.shape)
    dt = 2e-5 if case["sim"] == "matrix" else 3e-3      # (the map simulator's derivatives are forward differences)
    for u in us: near(rec, J @ u, fd(F, x0, u, 3e-4), dt, "logl_jacobian")
    ckw = dict(minProbClipForWeighting=mp, opLabelAliases=al)
    c, G = pt.chi2(m, ds, circs, returnGradient=True, **ckw)
    near(rec, c, C(x0), 1e-7, "chi2 (with gradient)")
    for u in us: near(rec, G @ u, fd(C, x0, u, 3e-4), dt, "chi2 gradient")
    if case["sim"] == "map": return      # (finite differences of finite differences)
    try: H = pt.logl_hessian(m, ds, circs, **kw)
    except NotImplementedError: return
    rec.check(H.shape == (N, N) and np.allclose(H, H.T), "Hessian shape or symmetry")
    near(rec, us[0] @ H @ us[1], fd2(F, x0, us[0], us[1], 2e-4), 2e-3, "logl_hessian")
    near(rec, us[0] @ H @ us[0], fd2(F, x0, us[0], us[0], 2e-4), 2e-3, "logl_hessian")
    if not sp:
        D = [(k, [(o, np.array([fd(lambda x, o=o: (m2.from_vector(x), dense_probs(m2, *t[1:])[o])[1], x0, e, 3e-4) for e in us])) for o in k]) for t, k in zip(cs, cnts)]
        c, G, H2 = pt.chi2(m, ds, circs, returnGradient=True, returnHessian=True, **ckw)
        near(rec, us[0] @ H2 @ us[1], fd2(C, x0, us[0], us[1], 2e-4), 2e-3, "chi2 Hessian")
        c2, H3 = pt.chi2(m, ds, circs, returnHessian=True, **ckw); near(rec, H3, H2, 1e-9, "chi2 Hessian without gradient")
        # approximate Hessians leave out the terms with second derivatives of the probabilities
        wl = wc = 0.0
        for p, (k, d) in zip(P, D):
            tot = sum(k.values())
            for o, dp in d:
                q, n = p[o], k[o]
                l2 = (-n / mp**2 if q < mp else -n / q**2) if n > 0 else (0.0 if q >= a or not pois else -tot * (2 / a - 2 * q / a**2))
                c2_ = tot * 2 / mp if q < mp else 2 * tot * (n / tot)**2 / q**3
                wl += l2 * dp[0] * dp[1]; wc += c2_ * dp[0] * dp[1]
        A = pt.logl_approximate_hessian(m, ds, circs, **kw); near(rec, us[0] @ A @ us[1], wl, 1e-5, "logl_approximate_hessian")
        c, G, A = pt.chi2(m, ds, circs, returnGradient=True, returnHessian=True, approximateHessian=True, **ckw); near(rec, us[0] @ A @ us[1], wc, 1e-5, "approximate chi2 Hessian")
        c, A2 = pt.chi2(m, ds, circs, returnHessian=True, approximateHessian=True, **ckw); near(rec, A2, A, 1e-9, "approximate chi2 Hessian without gradient")


# ------------------------------------------------------------------------------------ the functions that are optimised
@st.composite
def ocases(draw):
    c = draw(cases(nq=1, hi=4, kinds=["static", "tp", "full", "linear", "lind:H+S", "lind:CPTP"]))
    return dict(c, mp=draw(st.sampled_from([1e-4, 0.02, 0.1])), a=draw(st.sampled_from([0.02, 0.1])), clip=None, pois=True, frac=draw(st.booleans()), kind=draw(st.sampled_from(["logl", "chi2", "fchi2", "logl", "chi2"])), w=draw(st.one_of(st.none(), st.lists(st.sampled_from([0.25, 1.0, 2.0, 3.5]), min_size=4, max_size=4))),
                pen=draw(st.sampled_from([None, None, None, ["cptp", 0.7], ["spam", 1.3], ["both", 0.4], ["reg", 0.8]])), verb=draw(st.sampled_from([0, 0, 5])), force=draw(st.booleans()))


def captured(fn, *args, **kw):
    """run the estimation function up to its optimiser and return the objective it would optimise"""
    box = {}; old = core._do_runopt
    class Stop(Exception): pass
    def fake(mdl, objective, *a, **k): box["o"] = objective; raise Stop()
    core._do_runopt = fake
    try:
        with np.errstate(all="ignore"): fn(*args, **kw)
    except Stop: pass
    finally: core._do_runopt = old
    return box["o"]


def trnorm(h): return float(np.sum(np.linalg.svd(h, compute_uv=False)))


def choi(G):
    """Choi matrix (trace 1) of a process matrix in the normalised Pauli basis"""
    ps = [M.pmat(x) for x in M.paulis(1)]; d = 2
    return sum(G[i, j] * np.kron(ps[i], ps[j].conj()) for i in range(4) for j in range(4)) / (2.0 * d)


def penalties(case, m, x):
    out = []; pen = case["pen"]
    if not pen: return out
    if pen[0] == "reg": return list(pen[1] * np.maximum(0, np.abs(x) - 1.0)**1)
    if pen[0] in ("cptp", "both"): out += [pen[1] * np.sqrt(trnorm(choi(np.asarray(o.todense())))) for o in m.operations.values()]
    if pen[0] in ("spam", "both"):
        mat = lambda v: sum(c * M.pmat(q) for c, q in zip(np.asarray(v.todense()).ravel(), M.paulis(1))) / np.sqrt(2)
        out += [pen[1] * np.sqrt(trnorm(mat(v))) for v in m.preps.values()] + [pen[1] * np.sqrt(trnorm(mat(v))) for pv in m.povms.values() for v in pv.values()]
    return out


@facet(lambda: ocases(), quick=200, rule="the objective has a penalty, weights, an outcome that was not recorded or a probability below threshold", case_s=90)
def objectives(case, rec):
    kind, pen = case["kind"], case["pen"]
    if kind == "logl" and pen and pen[0] == "reg": case = dict(case, pen=None); pen = None
    m, cs, cnts, ds, al = setup(case, rec); circs = [t[0] for t in cs]; N = m.num_params(); rec.skip(N == 0 or N > 40)
    P = probs_of(m, cs); mp, a = case["mp"], case["a"]; w = case["w"][:len(cs)] if case["w"] else None; W = w or [1.0] * len(cs)
    if kind == "logl": rec.skip(any(0 < n < mp * sum(k.values()) for k in cnts for n in k.values()))     # (see rare_outcomes)
    sp = any(len(k) < len(p) for p, k in zip(P, cnts)); low = any(p[o] < mp for p, k in zip(P, cnts) for o in k)
    rec.note(kind, pen[0] if pen else "", "w" if w else "", "sparse" if sp else ""); rec.nt(bool(pen or w or sp or low))
    x0 = m.to_vector().copy(); com = dict(circuitWeights=None if w is None else np.array(w), opLabelAliases=al, verbosity=case["verb"])
    pk = {}
    if pen: pk = {"cptp": dict(cptp_penalty_factor=pen[1]), "spam": dict(spam_penalty_factor=pen[1]), "both": dict(cptp_penalty_factor=pen[1], spam_penalty_factor=pen[1]), "reg": dict(regularizeFactor=pen[1])}[pen[0]]
    wc = [{o: n * f for o, n in k.items()} for k, f in zip(cnts, W)]
    if kind in ("logl",):
        forc = None
        if case["force"]: r0 = rng(case["seed"] + 1); forc = r0.normal(size=(2, N))
        import contextlib, io
        with contextlib.redirect_stdout(io.StringIO()):
            obj = captured(core._do_mlgst_base, ds, m.copy(), circs, minProbClip=mp, radius=a, poissonPicture=True, forcefn_grad=forc, **com, **pk)
        ref = lambda k, p: max_ref(k, True) - logl_ref(k, p, mp, a, True)
    else:
        import contextlib, io
        with contextlib.redirect_stdout(io.StringIO()):
            obj = captured(core.do_mc2gst, ds, m.copy(), circs, minProbClipForWeighting=mp, useFreqWeightedChiSq=kind == "fchi2", **com, **pk)
        ref = lambda k, p: chi2_ref(k, p, mp, 1 - mp)
        forc = None
    def run(f, x):
        with contextlib.redirect_stdout(io.StringIO()): return np.array(f(x), float)
    v = run(obj.fn, x0); n = len(v) - obj.ex
    if kind != "fchi2": near(rec, np.sum(v[:n]**2), sum(ref(k, p) for k, p in zip(wc, P)), 1e-8 * (10 + sum(map(lambda k: sum(k.values()), wc))), kind, "sum of squares")
    elif not sp:   # frequency-weighted: the weights are those of the (smoothed) recorded frequencies
        want = 0.0
        for k, p in zip(cnts, P):
            tot = sum(k.values())
            for o, c in k.items(): f2 = (c / tot + 1) / (tot + 2); want += tot / (f2 * (1 - f2)) * (p[o] - c / tot)**2
        near(rec, np.sum(v[:n]**2), want, 1e-6, kind, "sum of squares")
    m2 = m.copy(); m2.from_vector(x0)
    ex = penalties(case, m2, x0)
    near(rec, v[n:n + len(ex)], ex, 1e-6, kind, "penalty terms", pen)
    if forc is None: rec.check(len(v) == n + len(ex), "number of terms", len(v), n, len(ex))
    else:
        e = v[n + len(ex):]**2; sh = e + forc @ x0; rec.check(len(e) == 2 and np.all(sh > 0) , "forcing terms")
    # (the element order of circuits is the tree's; each circuit's elements sum to its term)
    for i, (k, p) in enumerate(zip(wc, P)):
        if kind != "fchi2": near(rec, np.sum(v[:n][obj.lookup[i]]**2), ref(k, p), 1e-8 * (10 + sum(k.values())), kind, "circuit", str(circs[i]))
    # the Jacobian is the derivative
    if kinks(P, cnts, mp, a, True) or (mp < 0.01 and any(0 < q < 0.01 or q < 0 for p in P for q in p.values())): return
    r = rng(case["seed"]); J = run(obj.jfn, x0); rec.check(J.shape == (len(v), N), "Jacobian shape", J.shape)
    tolr = 1e-4 if case["sim"] == "matrix" else 5e-3
    for _ in range(2):
        u = r.normal(size=N); u /= np.linalg.norm(u); h = 1e-4
        d = fd(lambda x: run(obj.fn, x), x0, u, h); g = J @ u
        ok = np.ones(len(v), bool); ok[:n] = v[:n] > 0.02        # (square roots are not smooth at zero)
        if pen and pen[0] != "reg": # trace norms are not smooth where an eigenvalue vanishes
            ok[n:n + len(ex)] = False if not nonsing(m2, pen, ex) else True
        if pen and pen[0] == "reg": ok[n:n + len(ex)] = np.abs(np.abs(x0) - 1) > 1e-3
        if forc is not None: near(rec, v[n + len(ex):] * 2 * g[n + len(ex):] if False else g[n + len(ex):], d[n + len(ex):], 1e-6, kind, "derivative of the forcing terms"); ok[n + len(ex):] = False
        near(rec, g[ok], d[ok], tolr, kind, "Jacobian", pen, "elements", np.where(ok)[0].tolist()[:10])


def nonsing(m, pen, ex):
    mat = lambda v: sum(c * M.pmat(q) for c, q in zip(np.asarray(v.todense()).ravel(), M.paulis(1))) / np.sqrt(2)
    ms = []
    if pen[0] in ("cptp", "both"): ms += [choi(np.asarray(o.todense())) for o in m.operations.values()]
    if pen[0] in ("spam", "both"): ms += [mat(v) for v in m.preps.values()] + [mat(v) for pv in m.povms.values() for v in pv.values()]
    return all(np.min(np.abs(np.linalg.eigvalsh(x))) > 1e-3 for x in ms)


@facet(st.sampled_from([{"n": 1, "N": 20000}]), quick=1, rule="always", shards=1)
def rare_outcomes(case, rec):
    """an outcome seen less often than the probability cutoff allows for"""
    rec.nt(); from pygsti.construction import std1Q_XYI as std
    m = std.target_model(); ds = po.DataSet(); c = Circuit([], (0,)); x = Circuit([Label("Gi")])
    n, N = case["n"], case["N"]; ds.add_count_dict(Circuit(["Gi"]), {"0": N - n, "1": n}); ds.done_adding_data()
    mm = m.copy(); e = n / N; mm.povms["Mdefault"] = po.UnconstrainedPOVM([("0", (1 - e) * np.array(m.povms["Mdefault"]["0"].todense()) + e * np.array(m.povms["Mdefault"]["1"].todense())), ("1", e * np.array(m.povms["Mdefault"]["0"].todense()) + (1 - e) * np.array(m.povms["Mdefault"]["1"].todense()))])
    obj = captured(core._do_mlgst_base, ds, mm, [Circuit(["Gi"])], minProbClip=1e-4, radius=1e-4, poissonPicture=True)
    with np.errstate(all="ignore"): v = np.array(obj.fn(mm.to_vector()))
    rec.check(np.all(np.isfinite(v)), "log-likelihood objective is not a number for a frequency below the probability cutoff", v.tolist())
