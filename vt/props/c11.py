"""C11: gauge changes and gauge optimisation never change predictions."""
TECH = "property-based testing (metamorphic): generated models, gauge groups and group elements; predictions, spectra and counts compared before and after by independently computed dense products and numerical ranks"
NOTE = "Generated-input search: explicit models of every transformable parameterisation, elements of every gauge group, gauge optimisation by every method and metric; oracle: dense products of the members, explicit similarity transforms, finite differences and singular values of finite-difference Jacobians."
import warnings
import numpy as np
import scipy.linalg as sla
from hypothesis import strategies as st
from vt.runner import facet
from vt import models as M
from vt.gen import *
from vt.mstrat import *
import pygsti
from pygsti import objects as po
from pygsti.objects import operation as _op, spamvec as _sv, gaugegroup as gg
from pygsti.algorithms import gaugeopt_to_target, gaugeopt_custom
from pygsti.algorithms.gaugeopt import _create_objective_fn

GROUPS = ["Full", "TP", "Diag", "TPDiag", "Unitary", "Spam", "TPSpam", "Trivial"]


def mkgroup(name, n):
    d = 4**n
    return {"Full": lambda: gg.FullGaugeGroup(d), "TP": lambda: gg.TPGaugeGroup(d), "Diag": lambda: gg.DiagGaugeGroup(d), "TPDiag": lambda: gg.TPDiagGaugeGroup(d),
            "Unitary": lambda: gg.UnitaryGaugeGroup(d, "pp"), "Spam": lambda: gg.SpamGaugeGroup(d), "TPSpam": lambda: gg.TPSpamGaugeGroup(d), "Trivial": lambda: gg.TrivialGaugeGroup(d)}[name]()


def params(g, name, r, eps):
    x0 = np.asarray(g.get_initial_params(), float); k = g.num_params()
    if name in ("Diag", "TPDiag", "Spam", "TPSpam"): return np.exp(eps * r.randn(k)) - 1 if k else x0   # (added to the identity)
    return x0 + eps * r.randn(k) * (1.0 if name == "Unitary" else 0.5)


@facet(st.fixed_dictionaries({"group": st.sampled_from(GROUPS), "n": st.sampled_from([1, 1, 2]), "seed": seeds, "eps": st.sampled_from([0.01, 0.2, 0.6]), "steps": st.integers(1, 3)}),
       quick=300, rule="the element is not the identity")
def elements(case, rec):
    r = np.random.RandomState(case["seed"]); n = case["n"]; d = 4**n; name = case["group"]; g = mkgroup(name, n)
    sizes = {"Full": d * d, "TP": d * d - d, "Diag": d, "TPDiag": d - 1, "Unitary": d - 1, "Spam": 2, "TPSpam": 1, "Trivial": 0}
    rec.check(g.num_params() == sizes[name], "number of gauge parameters", g.num_params())
    x0 = g.get_initial_params(); rec.check(len(x0) == g.num_params(), "initial parameters", len(x0))
    v = params(g, name, r, case["eps"]); el = g.get_element(v); other = g.get_element(v)
    oS = np.array(other.get_transform_matrix())
    for step in range(case["steps"]):
        if step:
            v = params(g, name, r, case["eps"]); el.from_vector(v)
        S = np.asarray(el.get_transform_matrix())
        if np.linalg.cond(S) > 1e4: rec.skip("nearly singular element")
        Si = np.asarray(el.get_transform_matrix_inverse())
        rec.check(np.abs(S @ Si - np.eye(d)).max() < 1e-8, "inverse isn't the inverse", np.abs(S @ Si - np.eye(d)).max())
        rec.check(len(v) == el.num_params() == len(el.to_vector()) and (len(v) == 0 or np.abs(el.to_vector() - v).max() < 1e-12), "parameters read back differ")
        if name in ("TP", "TPDiag", "TPSpam", "Unitary"): rec.check(np.abs(S[0] - np.eye(d)[0]).max() < 1e-9 and np.abs(Si[0] - np.eye(d)[0]).max() < 1e-9, name, "element isn't trace preserving")
        if name in ("Diag", "TPDiag", "Spam", "TPSpam"): rec.check(np.abs(S - np.diag(np.diag(S))).max() < 1e-12, name, "element isn't diagonal")
        if name in ("Spam", "TPSpam"): rec.check(np.ptp(np.diag(S)[1:]) < 1e-12, name, "element scales differently")
        if name == "Unitary": rec.check(np.abs(S @ S.T - np.eye(d)).max() < 1e-9, "unitary element isn't orthogonal")
        if name == "Trivial": rec.check(np.array_equal(S, np.eye(d)), "trivial element")
        if name == "Full": rec.check(np.abs(S.ravel() - v).max() < 1e-12, "full element")
        if name == "TP": rec.check(np.abs(S[1:].ravel() - v).max() < 1e-12, "TP element")
        if g.num_params():
            D = np.asarray(el.deriv_wrt_params()).reshape(d, d, -1); rec.check(D.shape[2] == g.num_params(), "derivative shape", D.shape)
            h = 1e-5
            idx = list(range(g.num_params())) if g.num_params() <= 16 else sorted(r.choice(g.num_params(), 8, replace=False).tolist())
            for i in idx:
                e = np.zeros(g.num_params()); e[i] = h
                fd = (np.asarray(g.get_element(v + e).get_transform_matrix()) - np.asarray(g.get_element(v - e).get_transform_matrix())) / (2 * h)
                rec.check(np.abs(fd - D[:, :, i]).max() < 1e-6, "derivative of group element differs by", np.abs(fd - D[:, :, i]).max())
            W = np.asarray(el.deriv_wrt_params(idx[:3])).reshape(d, d, -1); rec.check(np.abs(W - D[:, :, idx[:3]]).max() < 1e-12, "filtered derivative")
        rec.check(np.array_equal(other.get_transform_matrix(), oS), "elements share their parameters")
        rec.nt(np.abs(S - np.eye(d)).max() > 1e-4)


# ------------------------------------------------------------------------------------------- transforming models
FULLK = ["full", "tp", "lind:CPTP", "lind:GLND", "lind:H+S", "static"]
KINDS = {"full": (["full", "full", "shared_full"], ["full"], ["full"], ["full"], GROUPS), "tp": (["tp"], ["tp", "full"], ["tp", "full"], ["tp"], ["TP", "TPDiag", "Unitary", "TPSpam", "Trivial"]),
         "lind": (["lind:CPTP", "lind:GLND", "full", "tp", "lind:CPTP"], ["tp", "full", "lind:CPTP"], ["full", "tp", "lind:CPTP"], ["tp", "full"], ["Unitary"])}


@st.composite
def gmodels(draw, nops=3):
    fam = draw(st.sampled_from(["full", "tp", "tp", "lind"])); ok, pk, vk, ik, gr = KINDS[fam]
    s = draw(explicit_specs(kinds=[k for k in ok if not k.startswith("shared")], prepkinds=pk, povmkinds=vk, inst=False, nops=nops))
    s["ops"] = [[a, None, k] for a, _, k in s["ops"]]
    if fam != "lind": s["inst"] = draw(st.sampled_from([None, None] + ik))
    s["eps"] = 0.05
    return {"spec": s, "group": draw(st.sampled_from(gr)), "fam": fam}


def snapshot(m):
    return ({k: np.array(v.todense()).ravel() for k, v in m.preps.items()}, {k: {l: np.array(e.todense()).ravel() for l, e in p.items()} for k, p in m.povms.items()},
            {k: np.array(v.todense()) for k, v in m.operations.items()}, {k: {l: np.array(e.todense()) for l, e in p.items()} for k, p in m.instruments.items()})


def tr_snap(s, S, Si):
    P, E, G, I = s
    return ({k: Si @ v for k, v in P.items()}, {k: {l: S.T @ e for l, e in p.items()} for k, p in E.items()}, {k: Si @ g @ S for k, g in G.items()}, {k: {l: Si @ g @ S for l, g in p.items()} for k, p in I.items()})


def flatten(s):
    return np.concatenate([np.ravel(v) for v in s[0].values()] + [np.ravel(e) for p in s[1].values() for e in p.values()] + [np.ravel(v) for v in s[2].values()] + [np.ravel(e) for p in s[3].values() for e in p.values()])


def probs_of(m, spec, cs):
    out = []
    for c in cs:
        circ, pl, lay, vl = make_circuit(spec, m, c)
        out.append((circ, dense_probs(m, pl, lay, vl), {k if isinstance(k, tuple) else (k,): v for k, v in m.probs(circ).items()}))
    return out


@facet(st.fixed_dictionaries({"m": gmodels(), "cs": st.lists(ecirc, min_size=1, max_size=4), "seed": seeds, "eps": st.sampled_from([0.01, 0.2, 0.4])}), quick=260, rule="the element is not the identity and a circuit has a gate")
def transforms(case, rec):
    spec = case["m"]["spec"]; n = spec["nq"]; r = np.random.RandomState(case["seed"]); m = M.explicit(spec)
    g = mkgroup(case["m"]["group"], n); el = g.get_element(params(g, case["m"]["group"], r, case["eps"])); S = np.array(el.get_transform_matrix())
    if np.linalg.cond(S) > 50: rec.skip("ill-conditioned element")
    Si = np.linalg.inv(S)
    s0 = snapshot(m); p0 = probs_of(m, spec, case["cs"]); ev0 = {k: np.linalg.eigvals(G) for k, G in s0[2].items()}
    # several circuits at once, before and after
    circs = [c for c, _, _ in p0]
    keep = m.copy(); m.transform(el)
    exp = tr_snap(s0, S, Si); s1 = snapshot(m)
    sc = max(1.0, np.abs(flatten(exp)).max())
    rec.check(np.abs(flatten(s1) - flatten(exp)).max() < 1e-7 * sc, case["m"]["group"], "transform isn't the similarity transform; off by", np.abs(flatten(s1) - flatten(exp)).max())
    p1 = probs_of(m, spec, case["cs"])
    for (c, d0, q0), (_, d1, q1) in zip(p0, p1):
        rec.check(set(q0) == set(q1), "outcomes changed", c)
        for k in q0: rec.check(abs(q0[k] - q1[k]) < 1e-7 * sc, "probability of", k, "of", c.str, "changed by", q1[k] - q0[k])
    bulk = m.bulk_probs(circs) if len(set(circs)) == len(circs) else None
    if bulk is not None:
        for (c, _, q0) in p0:
            for k, v in q0.items(): rec.check(abs(bulk[c][k] - v) < 1e-7 * sc, "bulk probability changed", k)
    for k, w in ev0.items():
        w1 = np.linalg.eigvals(s1[2][k])
        c0, c1 = np.poly(s0[2][k]), np.poly(s1[2][k]); rec.check(np.abs(c0 - c1).max() < 1e-6 * max(1, np.abs(c0).max()), "spectrum of", str(k), "changed")
    rec.check(np.abs(flatten(snapshot(keep)) - flatten(s0)).max() < 1e-12, "a copy changed with the model")
    # the parameter vector describes the transformed model
    vec = m.to_vector().copy(); m.from_vector(vec); rec.check(np.abs(flatten(snapshot(m)) - flatten(exp)).max() < 1e-7 * sc, "parameters of the transformed model don't describe it")
    # and back
    name = case["m"]["group"]
    if name in ("Full", "TP", "Diag", "TPDiag", "Spam", "TPSpam"):
        x = {"Full": Si.ravel(), "TP": Si[1:].ravel(), "Diag": np.diag(Si) - 1, "TPDiag": np.diag(Si)[1:] - 1, "Spam": np.diag(Si)[:2] - 1, "TPSpam": np.diag(Si)[1:2] - 1}[name]
        back = g.get_element(np.array(x))
        if np.abs(np.asarray(back.get_transform_matrix()) - Si).max() > 1e-9: rec.check(False, name, "element with the inverse's parameters isn't the inverse")
    elif name == "Unitary": back = g.get_element(-np.asarray(el.to_vector()))
    else: back = el
    m.transform(back)
    rec.check(np.abs(flatten(snapshot(m)) - flatten(s0)).max() < 1e-6 * sc, "transforming back doesn't restore the model; off by", np.abs(flatten(snapshot(m)) - flatten(s0)).max())
    # distances with a transform are those of the transformed model
    if not spec.get("inst"):
        keep2 = M.explicit(dict(spec, seed=spec["seed"] + 1)); w = {"gates": 0.3, "spam": 2.0, list(keep.operations.keys())[0]: 1.7} if r.randint(2) else None
        t = keep.copy(); t.transform(el)
        rec.check(abs(keep.frobeniusdist(keep2, S, w) - t.frobeniusdist(keep2, None, w)) < 1e-7 * sc, "distance with a transform")
        A, B = snapshot(t), snapshot(keep2); tot = cnt = 0.0; w = w or {}
        for i in (0, 2):
            for k in A[i]: x = w.get(k, w.get("spam" if i == 0 else "gates", 1.0)); tot += x * np.sum((A[i][k] - B[i][k])**2); cnt += x * A[i][k].size
        for k in A[1]:
            for l in A[1][k]: x = w.get(k + "_" + l, w.get("spam", 1.0)); tot += x * np.sum((A[1][k][l] - B[1][k][l])**2); cnt += x * A[1][k][l].size
        rec.check(abs(t.frobeniusdist(keep2, None, w) - np.sqrt(tot / cnt)) < 1e-7 * sc, "distance", t.frobeniusdist(keep2, None, w), np.sqrt(tot / cnt))
        rec.check(abs(t.frobeniusdist(keep2, None, w, normalize=False) - np.sqrt(tot)) < 1e-6 * sc, "unnormalised distance")
    rec.nt(np.abs(S - np.eye(4**n)).max() > 1e-4 and any(len(c["l"]) for c in case["cs"]))


# ------------------------------------------------------------------------------------------- gauge optimisation
@facet(st.fixed_dictionaries({"m": gmodels(2), "cs": st.lists(ecirc, min_size=1, max_size=3), "seed": seeds, "how": st.sampled_from(["ls", "ls", "auto", "L-BFGS-B"]), "metric": st.sampled_from(["frobenius", "frobenius", "frobenius", "tracedist", "fidelity"]),
                              "w": st.sampled_from([None, None, {"gates": 1.0, "spam": 1e-2}, {"gates": 0.3, "spam": 2.0}, {"Gx": 3.0, "spam": 0.1}]), "pen": st.sampled_from([0, 0, 0, 1.0]), "exact": st.booleans(),
                              "given": st.booleans()}),
       quick=110, rule="the optimisation moved the model", case_s=90)
def optimisation(case, rec):
    spec = case["m"]["spec"]; n = spec["nq"]; name = case["m"]["group"]; r = np.random.RandomState(case["seed"])
    if n == 2 and (case["how"] != "ls" or case["pen"] or case["m"]["fam"] == "lind" or name in ("Full", "TP") or case["metric"] != "frobenius"): rec.skip("slow")
    spec = dict(spec, inst=None); metric = case["metric"] if name == "Unitary" else "frobenius"; how = case["how"]
    if metric != "frobenius": how = "auto" if how == "ls" else how
    target = M.explicit(spec); m = target.copy()
    if not case["exact"]: m.from_vector(m.to_vector() + 0.02 * r.randn(m.num_params()))
    g = mkgroup(name, n); el = g.get_element(params(g, name, r, 0.05)); m.transform(el)
    if name == "Trivial" and m.default_gauge_group is not None and m.default_gauge_group.num_params() and not case["given"]: pass
    m.default_gauge_group = g
    if metric == "fidelity" and np.abs(np.asarray(m.to_vector())).max() > 3: rec.skip("far")
    s0 = snapshot(m); sT = snapshot(target); p0 = probs_of(m, spec, case["cs"]); w = case["w"]
    obj, jac = _create_objective_fn(m, target, w, case["pen"], case["pen"], metric, metric, "ls" if metric == "frobenius" and how in ("ls", "auto") else "L-BFGS-B")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try: res = gaugeopt_to_target(m, target, w, case["pen"], case["pen"], metric, metric, gauge_group=g if case["given"] or name != "Trivial" else None, method=how, maxiter=200, tol=1e-9, returnAll=True)
        except np.linalg.LinAlgError:
            if name in ("Unitary", "Trivial"): raise
            rec.skip("the search stepped onto a singular element")
        before, after = np.linalg.norm(obj(m.copy())), np.linalg.norm(obj(res[-1].copy()))
    val, gel, out = res
    rec.check(np.abs(flatten(snapshot(m)) - flatten(s0)).max() < 1e-12, "the given model was changed"); rec.check(np.abs(flatten(snapshot(target)) - flatten(sT)).max() < 1e-12, "the target was changed")
    S = np.asarray(gel.get_transform_matrix()); Si = np.linalg.inv(S); exp = tr_snap(s0, S, Si); sc = max(1.0, np.abs(flatten(exp)).max())
    rec.check(np.abs(flatten(snapshot(out)) - flatten(exp)).max() < 1e-6 * sc, "returned gauge element doesn't give the returned model")
    p1 = probs_of(out, spec, case["cs"])
    for (c, _, q0), (_, _, q1) in zip(p0, p1):
        for k in q0: rec.check(abs(q0[k] - q1[k]) < 1e-6 * sc, "gauge optimisation changes the probability of", k, "of", c.str, "by", q1[k] - q0[k])
    rec.check(after <= before + 1e-7 * max(1, before), "gauge optimisation makes the objective worse:", before, "->", after)
    if val is not None: rec.check(abs(np.linalg.norm(np.atleast_1d(val)) - after) < 1e-6 * max(1, after), "reported objective value", val, after)
    if metric == "frobenius" and case["pen"] == 0:
        ww = w or None
        rec.check(out.frobeniusdist(target, None, ww) <= m.frobeniusdist(target, None, ww) + 1e-7, "distance to the target grows", m.frobeniusdist(target, None, ww), out.frobeniusdist(target, None, ww))
        if case["exact"] and name in ("Unitary", "TPSpam", "Spam", "TPDiag", "TP", "Full") and how in ("ls", "auto"):
            d1 = out.frobeniusdist(target); d0 = m.frobeniusdist(target)
            rec.check(d1 < 1e-3 * d0 + 1e-6, "a gauge-transformed target isn't brought back:", d0, "->", d1)
    rec.nt(np.abs(S - np.eye(4**n)).max() > 1e-5)


@facet(st.fixed_dictionaries({"m": gmodels(2), "seed": seeds, "w": st.sampled_from([None, {"gates": 0.3, "spam": 2.0}, {"Gx": 3.0, "spam": 0.1}, {"rho0": 2.5, "gates": 0.5}]), "pen": st.sampled_from([0, 0, 0.7])}), quick=150, rule="the Jacobian is non-zero")
def objective_jacobian(case, rec):
    spec = dict(case["m"]["spec"], inst=None); n = spec["nq"]; name = case["m"]["group"]; r = np.random.RandomState(case["seed"])
    if n == 2 and (name in ("Full", "TP") or case["pen"] or case["m"]["fam"] == "lind"): rec.skip("slow")
    target = M.explicit(dict(spec)); m = target.copy(); m.from_vector(m.to_vector() + 0.05 * r.randn(m.num_params()))
    g = mkgroup(name, n)
    if not g.num_params(): rec.skip("no parameters")
    v = params(g, name, r, 0.1); el = g.get_element(v)
    obj, jac = _create_objective_fn(m, target, case["w"], case["pen"], case["pen"], "frobenius", "frobenius", "ls")
    def f(x):
        e = g.get_element(x); c = m.copy(); c.transform(e); return obj(c)
    post = m.copy(); post.transform(el); J = np.array(jac(m.copy(), post, el))
    idx = list(range(g.num_params())) if g.num_params() <= 16 else sorted(r.choice(g.num_params(), 6, replace=False).tolist()); h = 1e-5
    if case["pen"] and min(np.abs(np.linalg.eigvalsh(M_ := np.real_if_close(0.5 * (lambda c: c + c.conj().T)(pygsti.tools.fast_jamiolkowski_iso_std(G.todense(), "pp"))))).min() for G in post.operations.values()) < 1e-3: rec.skip("at a kink of the penalty")
    for i in idx:
        e = np.zeros(len(v)); e[i] = h; fd = (f(v + e) - f(v - e)) / (2 * h)
        rec.check(fd.shape == J[:, i].shape, "Jacobian shape", fd.shape, J.shape)
        rec.check(np.abs(fd - J[:, i]).max() < 1e-4 * max(1, np.abs(fd).max()), "Jacobian of the gauge objective differs by", np.abs(fd - J[:, i]).max(), "at element", int(np.abs(fd - J[:, i]).argmax()))
    rec.nt(np.abs(J).max() > 1e-6)


# ------------------------------------------------------------------------------------------- counts
@facet(st.fixed_dictionaries({"fam": st.sampled_from(["full", "tp", "CPTP", "H+S", "mixed"]), "nops": st.integers(2, 3), "seed": seeds, "w": st.booleans(), "npovm": st.sampled_from([1, 1, 2])}), quick=40, rule="the model has gauge parameters", case_s=90)
def counts(case, rec):
    r = np.random.RandomState(case["seed"]); fam = case["fam"]; n = 1
    kop = {"full": ["full"], "tp": ["tp"], "CPTP": ["lind:CPTP"], "H+S": ["lind:H+S"], "mixed": ["full", "tp", "lind:CPTP", "static"]}[fam]
    kpr = {"full": ["full"], "tp": ["tp"], "CPTP": ["tp", "static"], "H+S": ["tp", "static"], "mixed": ["full", "tp", "static"]}[fam]
    kpo = {"full": ["full"], "tp": ["tp"], "CPTP": ["tp", "static"], "H+S": ["tp", "static"], "mixed": ["full", "tp", "static"]}[fam]
    m = po.ExplicitOpModel([(0,)], "pp")
    m.preps["rho0"] = M.mk_prep(kpr[r.randint(len(kpr))], 1, r, 0.1)
    for i in range(case["npovm"]): m.povms["Mdefault" if i == 0 else "M%d" % i] = M.mk_povm(kpo[r.randint(len(kpo))], 1, r, 0.1)
    for i in range(case["nops"]): m.operations["G" + "xyz"[i]] = M.mk_op(kop[r.randint(len(kop))], 1, r, 0.05, U=M.rand_unitary(2, r), dense=True)
    labs = list(m.operations.keys()); N = m.num_params()
    if N == 0: rec.skip("no parameters")
    x = m.to_vector().copy(); mm = m.copy()
    words = [()] + [(a,) for a in range(len(labs))] + [tuple(r.randint(len(labs), size=r.randint(2, 9))) for _ in range(120)]
    def f(v):
        mm.from_vector(v); G = [np.asarray(mm.operations[l].todense()) for l in labs]; rho = np.asarray(mm.preps["rho0"].todense()).ravel()
        Es = np.array([np.asarray(e.todense()).ravel() for p in mm.povms.values() for e in p.values()]); out = []
        for w in words:
            s = rho
            for i in w: s = G[i] @ s
            out.append(Es @ s)
        return np.concatenate(out)
    h = 1e-5; J = np.array([(f(x + h * e) - f(x - h * e)) / (2 * h) for e in np.eye(N)]).T
    sv = np.linalg.svd(J, compute_uv=False); rel = sv / sv[0]
    rank = int((rel > 1e-6).sum())
    gap = rel[rank - 1] / (rel[rank] if rank < len(rel) else 1e-12)
    if gap < 30 or rel[rank - 1] < 1e-5: rec.skip("rank is not clear")
    rec.check(m.num_nongauge_params() == rank, fam, "counts", m.num_nongauge_params(), "non-gauge parameters, the predictions' derivatives have rank", rank)
    rec.check(m.num_gauge_params() == N - rank, "counts", m.num_gauge_params(), "gauge parameters instead of", N - rank)
    w = {"gates": 1.0, "spam": 0.2} if case["w"] else None
    P = np.asarray(m.get_nongauge_projector(itemWeights=w))
    rec.check(P.shape == (N, N) and np.abs(P @ P - P).max() < 1e-6 and np.abs(P - P.T).max() < 1e-6, "non-gauge projector isn't an orthogonal projector")
    rec.check(int(round(np.trace(P))) == rank, "non-gauge projector has rank", np.trace(P), "instead of", rank)
    s2 = np.linalg.svd(J @ P, compute_uv=False); rec.check(int((s2 / sv[0] > 1e-7).sum()) >= rank, "projected directions don't all change predictions")
    if w is None: rec.check(np.abs(J @ (np.eye(N) - P)).max() < 1e-5 * max(1, np.abs(J).max()), "directions called gauge change predictions by", np.abs(J @ (np.eye(N) - P)).max())
    rec.check(np.array_equal(m.to_vector(), x), "counting changed the model")
    rec.nt(N > rank)


@facet(st.fixed_dictionaries({"typ": st.sampled_from(["full", "TP", "CPTP", "H+S", "S", "GLND", "static"]), "n": st.sampled_from([1, 2]), "seed": seeds}), quick=40, rule="the group has parameters")
def default_groups(case, rec):
    r = np.random.RandomState(case["seed"]); n = case["n"]
    m = M.explicit({"nq": n, "ops": [["Gx", None, "static"], ["Gy", None, "static"]], "prep": "static", "povm": "static", "seed": case["seed"], "eps": 0.0})
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        m.set_all_parameterizations(case["typ"])
    g = m.default_gauge_group; exp = {"full": gg.FullGaugeGroup, "TP": gg.TPGaugeGroup, "CPTP": gg.UnitaryGaugeGroup, "H+S": gg.UnitaryGaugeGroup, "S": gg.UnitaryGaugeGroup, "GLND": gg.UnitaryGaugeGroup, "static": gg.TrivialGaugeGroup}[case["typ"]]
    rec.note(case["typ"])
    if g is not None and g.num_params():
        el = g.get_element(params(g, "Unitary" if isinstance(g, gg.UnitaryGaugeGroup) else "Full", r, 0.1))
        S = np.asarray(el.get_transform_matrix()); s0 = snapshot(m)
        try: m.transform(el)
        except (ValueError, NotImplementedError) as e: rec.skip("cannot transform: %s" % type(e).__name__)
        if case["typ"] in ("full", "TP", "GLND", "CPTP"): rec.check(np.abs(flatten(snapshot(m)) - flatten(tr_snap(s0, S, np.linalg.inv(S)))).max() < 1e-6, case["typ"], "default group's element isn't applied exactly", np.abs(flatten(snapshot(m)) - flatten(tr_snap(s0, S, np.linalg.inv(S)))).max())
        rec.nt(True)
