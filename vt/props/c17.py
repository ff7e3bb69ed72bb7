"""C17: tomography recovers the model that generated the data."""
TECH = "Hypothesis: generated true models, exact and sampled data, circuit structures, parameterisations, objectives and optimiser settings; fits compared with the known truth, with the start, the target, earlier stages and independent optimality conditions"
NOTE = "Generated-input search: the packaged one-qubit gate sets with errors up to a few percent, germ powers up to length 4; nonlinear least-squares and minimisation problems in <= 5 variables. Fits of multi-qubit or term-simulated models are not exercised."
import contextlib, io, warnings
import numpy as np
from hypothesis import strategies as st
from vt import facet, models as M
from vt.gen import *
import pygsti
import pygsti.objects as po, pygsti.tools as pt, pygsti.algorithms.core as core, pygsti.construction as pc, pygsti.optimize as opt
from pygsti.construction import std1Q_XYI, std1Q_XY, std1Q_XZ, std1Q_XYZI
from pygsti.objects import Circuit
warnings.simplefilter("ignore")
STD = {"XYI": std1Q_XYI, "XY": std1Q_XY, "XYZI": std1Q_XYZI, "XZ": std1Q_XZ}


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()): yield


def truth(case, par=None):
    """a model near the target in the given parameterisation"""
    r = rng(case["s"]); t = STD[case["std"]].target_model(); par = par or case["true"]
    if par in ("TP", "full"):
        m = t.depolarize(op_noise=0.05, spam_noise=0.05); m.set_all_parameterizations(par)
        m.from_vector(m.to_vector() + case["eps"] * 0.3 * r.randn(m.num_params()))
    else:
        m = t.depolarize(op_noise=0.02, spam_noise=0.02); m.set_all_parameterizations(par); m.from_vector(m.to_vector() + case["eps"] * r.randn(m.num_params()))
    return m


def exact(m, circs, N, extra=()):
    ds = po.DataSet()
    for c in list(dict.fromkeys(list(circs) + list(extra))): ds.add_count_dict(c, {k: N * v for k, v in m.probs(c).items()})
    ds.done_adding_data(); return ds


def rcirc(r, m, L=8, lines=("*",)):
    ops = list(m.operations.keys()); return Circuit([ops[r.randint(len(ops))] for _ in range(r.randint(0, L + 1))])


def physical(rec, m, *msg):
    """every gate completely positive and trace preserving, states and effects positive"""
    for l, o in m.operations.items():
        rec.check(np.abs(o.todense()[0] - [1, 0, 0, 0]).max() < 1e-9, *msg, l, "not trace preserving"); J = pt.jamiolkowski_iso(o.todense(), m.basis, "std")
        rec.check(np.linalg.eigvalsh((J + J.conj().T) / 2).min() > -1e-8, *msg, l, "not completely positive")
    for v in m.preps.values():
        d = pt.vec_to_stdmx(np.asarray(v.todense()).ravel(), m.basis); rec.check(np.linalg.eigvalsh(d).min() > -1e-8 and abs(np.trace(d) - 1) < 1e-8, *msg, "state", np.linalg.eigvalsh(d))
    for p in m.povms.values():
        E = {k: pt.vec_to_stdmx(np.asarray(e.todense()).ravel(), m.basis) for k, e in p.items()}
        rec.check(min(np.linalg.eigvalsh(e).min() for e in E.values()) > -1e-8 and np.abs(sum(E.values()) - np.eye(2)).max() < 1e-8, *msg, "effects")


# ------------------------------------------------------------------------------------ linear inversion
lin = st.fixed_dictionaries({"std": st.sampled_from(sorted(STD)), "true": st.sampled_from(["TP", "CPTP", "H+S"]), "eps": st.sampled_from([0.0, 0.02, 0.05]), "s": seeds, "par": st.sampled_from(["full", "TP"]), "fid": st.sampled_from(["std", "shuffled", "more", "fewer"]),
                             "guess": st.sampled_from([None, None, "same", "near"]), "sub": st.booleans(), "alias": st.booleans(), "N": st.sampled_from([1, 1000])})


@facet(lin, quick=70, rule="the true model is not the target", case_s=60)
def lgst(case, rec):
    std = STD[case["std"]]; r = rng(case["s"] + 1); t = std.target_model(); t.set_all_parameterizations(case["par"])
    m = truth(case); rec.nt(case["eps"] > 0); rec.note(case["true"])
    P, E = list(std.prepStrs), list(std.effectStrs)
    if case["fid"] == "shuffled": r.shuffle(P); r.shuffle(E)
    if case["fid"] == "more": P = P + [x for x in (rcirc(r, t, 3) for _ in range(2)) if x not in P]; E = [x for x in (rcirc(r, t, 3) for _ in range(1)) if x not in E] + E
    if case["fid"] == "fewer" and len(P) > 4: P, E = P[:4], E[:4]
    P, E = list(dict.fromkeys(P)), list(dict.fromkeys(E))
    labels = [(l,) for l in t.operations]; kw, al = {}, None
    if case["alias"]:   # the target's first gate is called something else in the data
        l0 = labels[-1][0]; al = {po.Label("Gnew"): Circuit([l0])}
    # the fiducial sets must be informationally complete for the target and the true model
    A = np.array([[np.array([m.probs(p + e)[("0",)] for e in E]) for p in P]]).reshape(len(P), len(E)); s = np.linalg.svd(A, compute_uv=False)
    A2 = np.array([[t.probs(p + e)[("0",)] for e in E] for p in P])
    if s[3] < 0.05 or np.linalg.svd(A2, compute_uv=False)[3] < 0.05: rec.skip(True)
    lst = pc.make_lgst_list(list(t.operations), P, E) if hasattr(pc, "make_lgst_list") else pc.list_lgst_circuits(P, E, list(t.operations))
    ds = exact(m, lst, case["N"])
    if case["guess"]: kw["guessModelForGauge"] = t.copy() if case["guess"] == "same" else (lambda g: (g.from_vector(g.to_vector() + 0.01 * r.randn(g.num_params())), g)[1])(t.copy())
    if case["sub"]: kw["opLabels"] = [l[0] for l in labels][:2]
    est = core.do_lgst(ds, P, E, t, **kw)
    keep = list(est.operations.keys()); rec.check(set(keep) == set(kw.get("opLabels", t.operations.keys())), "operations", keep)
    if case["guess"] == "near" and case["par"] == "full" or True:
        for _ in range(5):
            c = Circuit([keep[r.randint(len(keep))] for _ in range(r.randint(0, 7))]); a, b = est.probs(c), m.probs(c)
            for k in b: rec.check(abs(a[k] - b[k]) < 2e-4, c.str, k, "linear inversion", a[k], "truth", b[k])
    if case["par"] == "TP" and not case["guess"]:
        for l in keep: rec.check(np.abs(est.operations[l].todense()[0] - [1, 0, 0, 0]).max() < 1e-9, l, "left the TP set")
    rank, sv, st_ = core.gram_rank_and_evals(ds, P, E, t)
    gm = lambda q: np.linalg.svd(np.array([[q.probs(p + e)[k] for p in P] for e in E for k in q.povms["Mdefault"].keys()]), compute_uv=False)
    g = gm(m); rec.check(np.abs(sv[:len(g)] - g[:len(sv)]).max() < 1e-5, "Gram values", sv, g); rec.check(np.abs(st_ - gm(t)[:len(st_)]).max() < 1e-9, "target's Gram values", st_); rec.check(rank >= 4, "Gram rank", rank)


# ------------------------------------------------------------------------------------ fits
def structs(std, L, nger=None): return pc.make_lsgst_structs(std.target_model(), std.prepStrs, std.effectStrs, list(std.germs)[:nger] if nger else std.germs, L)


fitc = st.fixed_dictionaries({"std": st.sampled_from(["XYI", "XY", "XY"]), "true": st.sampled_from(["TP", "CPTP", "H+S"]), "eps": st.sampled_from([0.01, 0.03]), "s": seeds, "par": st.sampled_from(["TP", "TP", "full", "CPTP", "H+S"]), "L": st.sampled_from([[1], [1], [1, 2], [1, 2, 4]]), "N": st.sampled_from([100, 1000, 10000]),
                              "obj": st.sampled_from(["logl", "chi2", "logl"]), "start": st.sampled_from(["target", "near", "near"]), "sim": st.sampled_from(["matrix"] * 5 + ["map"]), "mle": st.sampled_from([None, "always", "only"]), "pois": st.just(True), "data": st.sampled_from(["exact", "exact", "sampled"]),
                              "acc": st.booleans(), "ftol": st.sampled_from([1e-8, 1e-9])})


@facet(fitc, quick=48, shards=8, rule="always (a whole fit)", case_s=240)
def fits(case, rec):
    std = STD[case["std"]]; m = truth(case); r = rng(case["s"] + 1); rec.nt(); rec.note(case["par"] + " " + case["data"])
    t = std.target_model(); start = t.depolarize(0.02, 0.02) if case["par"] in ("CPTP", "H+S") else t.copy(); start.set_all_parameterizations(case["par"])
    if case["mle"] == "only" and case["obj"] == "logl":   # the likelihood alone has local optima far from the data: start close by
        start = m.copy() if case["par"] in ("TP", "full") else start; start.set_all_parameterizations(case["par"])
    if case["start"] == "near" or case["mle"] == "only" or case["par"] in ("CPTP", "H+S"): start.from_vector(start.to_vector() + 0.01 * r.randn(start.num_params()))
    if case["par"] == "TP" or case["sim"] == "matrix": start.set_simtype(case["sim"])
    L = [1] if case["sim"] == "map" else case["L"]; ss = structs(std, L, 4); lists = [s.allstrs for s in ss]; fin = lists[-1]
    ds = exact(m, fin, case["N"]) if case["data"] == "exact" else pc.generate_fake_data(m, fin, case["N"], "multinomial", seed=int(case["s"] % 2**31))
    lk = dict(minProbClip=1e-4, radius=1e-4, poissonPicture=case["pois"]); v0 = start.to_vector().copy()
    if case["obj"] == "logl":
        out = core.do_iterative_mlgst(ds, start.copy(), lists, tol=dict(relx=1e-10, relf=case["ftol"], f=1e-7, jac=1e-7, maxdx=1.0), maxiter=60, returnAll=True, poissonPicture=case["pois"], alwaysPerformMLE=case["mle"] is not None, onlyPerformMLE=case["mle"] == "only", returnMaxLogL=True, extra_lm_opts={"use_acceleration": case["acc"]} if case["acc"] else None)
        mx, models = [out[0]], out[1]
    else: mx, models = core.do_iterative_mc2gst(ds, start.copy(), lists, tol=dict(relx=1e-10, relf=case["ftol"], f=1e-7, jac=1e-7, maxdx=1.0), maxiter=60, returnAll=True, returnErrorVec=True); mx = mx if isinstance(mx, list) else [mx]
    rec.check(len(models) == len(lists), "one model per stage", len(models)); rec.check(np.array_equal(start.to_vector(), v0), "the start model changed")
    f = models[-1]; rec.check(f.num_params() == start.num_params(), "parameterisation changed")
    logl = lambda q: pt.logl(q, ds, fin, **lk); chi = lambda q: pt.chi2(q, ds, fin, minProbClipForWeighting=1e-4)
    if case["obj"] == "logl": rec.check(abs(mx[-1] - logl(f)) < 1e-6 * max(1, abs(mx[-1])), "reported log-likelihood", mx[-1], "of the returned model", logl(f))
    elif case["par"] != "full": rec.check(abs(np.sum(np.asarray(mx[-1])**2) - chi(f)) < 1e-6 * max(1, chi(f)), "reported chi2", np.sum(np.asarray(mx[-1])**2), "of the returned model", chi(f))
    score = (lambda q: -2 * logl(q)) if case["obj"] == "logl" else chi; best = score(f); slack = 1e-3 * max(1, 1e-3 * abs(best)) + 1e-9 * abs(best)
    # no worse than the start, the earlier stages and (inside the class) the target
    rec.check(best <= score(start) + slack, "worse than the start", best, score(start))
    for i, q in enumerate(models[:-1]): rec.check(best <= score(q) + slack + (0.5 if case["obj"] == "logl" and case["mle"] is None else 0), "worse than stage", i, best, score(q))
    if case["par"] == "TP":
        rec.check(best <= score(t) + slack, "worse than the target", best, score(t))
        rec.check(best <= score(m) + (0.05 if case["data"] == "exact" else 1.0), "worse than the true model", best, score(m))
        for l, o in f.operations.items(): rec.check(np.abs(o.todense()[0] - [1, 0, 0, 0]).max() < 1e-9, l, "left the TP set")
    if case["par"] == "full": rec.check(best <= score(m) + (0.05 if case["data"] == "exact" else 1.0), "worse than the true model", best, score(m))
    if case["par"] == "CPTP":
        physical(rec, f, "CPTP fit")
    if case["par"] in ("CPTP", "H+S"):
        for l, o in f.operations.items(): rec.check(np.abs(o.todense()[0] - [1, 0, 0, 0]).max() < 1e-9, l, "left the TP set")
    # exact data from inside the class: the predictions are the truth's, on other circuits too
    if case["data"] == "exact" and case["par"] in ("TP", "full") and case["N"] == 10000:
        for _ in range(4):
            c = rcirc(r, m, 6); a, b = f.probs(c), m.probs(c)
            for k in b: rec.check(abs(a[k] - b[k]) < 5e-3, c.str, k, "fit", a[k], "truth", b[k])
    if case["par"] == "TP":   # a richer parameterisation started from this fit is no worse
        g = f.copy(); g.set_all_parameterizations("full")
        if case["obj"] == "logl": _, g = core.do_mlgst(ds, g, fin, tol=dict(relx=1e-10, relf=case["ftol"], f=1e-7, jac=1e-7, maxdx=1.0), maxiter=60, poissonPicture=case["pois"])
        else: _, g = core.do_mc2gst(ds, g, fin, tol=dict(relx=1e-10, relf=case["ftol"], f=1e-7, jac=1e-7, maxdx=1.0), maxiter=60)
        rec.check(score(g) <= best + slack, "a richer fit is worse", score(g), best)


# ------------------------------------------------------------------------------------ drivers and what they record
drv = st.fixed_dictionaries({"std": st.sampled_from(["XYI", "XY"]), "true": st.sampled_from(["TP", "CPTP"]), "eps": st.sampled_from([0.01, 0.03]), "s": seeds, "L": st.sampled_from([[1], [1, 2]]), "how": st.sampled_from(["long", "gst", "standard", "lgst", "base"]), "modes": st.sampled_from(["TP", "TP,Target", "full,TP", "CPTP,TP", "TP,full"]), "all": st.booleans(), "go": st.sampled_from([None, "one", "std"]), "test": st.booleans()})


@facet(drv, quick=24, shards=8, rule="always (a whole analysis)", case_s=240)
def drivers(case, rec):
    std = STD[case["std"]]; m = truth(case); rec.nt(); rec.note(case["how"]); t = std.target_model(); t.set_all_parameterizations("TP"); germs = list(std.germs)[:3]; L = case["L"]
    ss = pc.make_lsgst_structs(t, std.prepStrs, std.effectStrs, germs, L); lists = [s.allstrs for s in ss]; lg = pc.list_lgst_circuits(std.prepStrs, std.effectStrs, list(t.operations)) if hasattr(pc, "list_lgst_circuits") else pc.make_lgst_list(list(t.operations), std.prepStrs, std.effectStrs)
    ds = pc.generate_fake_data(m, list(dict.fromkeys(list(lists[-1]) + list(lg))), 500, "multinomial", seed=int(case["s"] % 2**31))
    from pygsti.protocols import gst, ProtocolData
    go = {None: False, "one": {"itemWeights": {"gates": 1.0, "spam": 0.1}}, "std": {"itemWeights": {"gates": 1.0, "spam": 1e-3}}}[case["go"]]
    with quiet():
        if case["how"] == "long": res = pygsti.do_long_sequence_gst(ds, t, std.prepStrs, std.effectStrs, germs, L, gaugeOptParams=go, verbosity=0)
        elif case["how"] == "base": res = pygsti.do_long_sequence_gst_base(ds, t, [list(x) for x in lists], gaugeOptParams=go, verbosity=0)
        else:
            data = ProtocolData(gst.StandardGSTDesign(t, std.prepStrs, std.effectStrs, germs, L), ds)
            suite = None if case["go"] is None else {"go0": dict(go)}
            if case["how"] == "gst": res = gst.GateSetTomography(t, gaugeopt_suite=suite, verbosity=0).run(data)
            elif case["how"] == "lgst": res = gst.LinearGateSetTomography(t, gaugeopt_suite=suite, verbosity=0).run(ProtocolData(gst.GateSetTomographyDesign(t, [lists[0]]), ds) if False else ProtocolData(gst.StandardGSTDesign(t, std.prepStrs, std.effectStrs, germs, [1]), ds))
            else: res = gst.StandardGST(case["modes"] + (",truth" if case["test"] else ""), gaugeopt_suite=suite, advancedOptions={"all": {"tolerance": 1e-7}} if case["all"] else None, modelsToTest={"truth": m} if case["test"] else None, verbosity=0).run(data)
    rec.check(list(res.dataset.keys()) == list(ds.keys()) and all(dict(res.dataset[c].counts) == dict(ds[c].counts) for c in list(ds.keys())[:30]), "recorded data set")
    if case["how"] != "lgst":
        got = [list(x) for x in res.circuit_lists["iteration"]]; rec.check(got == [list(x) for x in lists], "recorded circuits per stage", [len(x) for x in got], [len(x) for x in lists]); rec.check(list(res.circuit_lists["final"]) == list(lists[-1]), "final list")
    want = set(case["modes"].split(",")) | ({"truth"} if case["test"] else set()) if case["how"] == "standard" else None
    if want is not None: rec.check(set(res.estimates) == want, "estimates", list(res.estimates), want)
    lk = dict(minProbClip=1e-4, radius=1e-4); fin = list(lists[-1]); ll = lambda q: 2 * pt.logl(q, ds, fin, **lk)
    for name, e in res.estimates.items():
        if name in ("Target", "truth"):
            q = e.models["final iteration estimate"]; ref = t if name == "Target" else m
            for c in fin[:20]: rec.check(all(abs(q.probs(c)[k] - v) < 1e-9 for k, v in ref.probs(c).items()), name, "estimate is another model")
            continue
        mods = e.models; rec.check("target" in mods and "final iteration estimate" in mods, name, list(mods))
        rec.check(np.abs(np.concatenate([o.todense() for o in mods["target"].operations.values()]) - np.concatenate([o.todense() for o in t.operations.values()])).max() < 1e-12, "recorded target")
        f = mods["final iteration estimate"]
        if case["how"] != "lgst":
            rec.check(len(mods["iteration estimates"]) == len(L), "models per stage"); a = mods["iteration estimates"][-1]
            rec.check(abs(ll(a) - ll(f)) < 1e-6, "final iteration estimate is not the last stage's"); rec.check(ll(f) >= ll(t) - 1e-3, name, "fits worse than the target", ll(f), ll(t))
            if name in ("TP", "full") or want is None: rec.check(ll(f) >= ll(m) - 0.7, name, "fits worse than the truth", ll(f), ll(m))
            if name == "CPTP": physical(rec, f, "CPTP")
        for k, q in mods.items():   # gauge-optimised versions predict the same
            if k.startswith("go") and q is not f: rec.check(abs(ll(q) - ll(f)) < 0.01, name, k, "gauge optimisation changed the fit", ll(q), ll(f)); rec.note("gauge optimised")


# ------------------------------------------------------------------------------------ optimisers
lsq = st.fixed_dictionaries({"n": st.integers(1, 5), "k": st.integers(0, 4), "s": seeds, "kind": st.sampled_from(["linear", "tanh", "exp", "rosen", "poly"]), "x": st.sampled_from([0.1, 1.0, 3.0]), "acc": st.booleans(), "fd": st.sampled_from([0, 0, 2]), "clip": st.sampled_from([None, None, [1e-6, 10.0]]), "up": st.sampled_from([0.0, 0.0, 1.5, 1.9]), "maxdx": st.sampled_from([1.0, 0.1, None]),
                             "munu": st.sampled_from(["auto", "auto", [1.0, 2]]), "iters": st.sampled_from([3, 500, 500]), "oob": st.sampled_from([0, 0, 1, 3])})


def problem(case):
    r = rng(case["s"]); n, mm = case["n"], case["n"] + case["k"]; A = r.randn(mm, n); A[:n] += 2 * np.eye(n); y = r.randn(mm); k = case["kind"]
    if k == "linear": return (lambda x: A @ x - y), (lambda x: A.copy())
    if k == "tanh": return (lambda x: np.concatenate([np.tanh(A @ x) - 0.3 * np.tanh(y), 0.2 * x])), (lambda x: np.concatenate([(1 - np.tanh(A @ x)**2)[:, None] * A, 0.2 * np.eye(n)]))
    if k == "exp": return (lambda x: np.concatenate([np.exp(0.3 * A @ x) - np.exp(0.3 * y), 0.3 * x])), (lambda x: np.concatenate([0.3 * np.exp(0.3 * A @ x)[:, None] * A, 0.3 * np.eye(n)]))
    if k == "poly": return (lambda x: np.concatenate([(A @ x) + 0.1 * (A @ x)**2 - y, x**3])), (lambda x: np.concatenate([(1 + 0.2 * (A @ x))[:, None] * A, np.diag(3 * x**2)]))

    def F(x): return np.concatenate([np.array([3 * (x[i + 1] - x[i]**2) for i in range(n - 1)]), 1 - x])

    def J(x):
        j = np.zeros((2 * n - 1, n))
        for i in range(n - 1): j[i, i + 1] = 3; j[i, i] = -6 * x[i]
        j[n - 1:] = -np.eye(n); return j
    return F, J


@facet(lsq, quick=300, rule="nonlinear problem", case_s=60)
def least_squares(case, rec):
    F, J = problem(case); r = rng(case["s"] + 1); x0 = case["x"] * r.randn(case["n"]); rec.nt(case["kind"] != "linear"); n0 = F(x0) @ F(x0); calls = []

    def fn(x, oob_check=False): calls.append(1); return F(x)
    kw = dict(f_norm2_tol=0, jac_norm_tol=1e-9, rel_ftol=1e-14, rel_xtol=1e-12, max_iter=case["iters"], num_fd_iters=case["fd"], max_dx_scale=case["maxdx"], damping_clip=tuple(case["clip"]) if case["clip"] else None, use_acceleration=case["acc"], uphill_step_threshold=case["up"], init_munu="auto" if case["munu"] == "auto" else tuple(case["munu"]), oob_check_interval=case["oob"])
    with quiet(): x, conv, msg, mu, nu = opt.custom_leastsq(fn, J, x0.copy(), **kw)
    f = F(x); n1 = f @ f; g = J(x).T @ f
    rec.check(np.isfinite(n1) and n1 <= n0 * (1 + 1e-12), "worse than the start", n1, n0, msg)
    rec.note(msg[:24])
    if conv and "Maximum" not in msg and case["up"] == 0:
        rec.check(np.abs(g).max() < 1e-4 * max(1, np.linalg.norm(J(x))) * max(1, np.sqrt(n1)), "reported convergence at a point with gradient", g, msg)
        if case["kind"] == "linear": rec.check(np.abs(x - np.linalg.lstsq(J(x), J(x) @ x - f, rcond=None)[0]).max() < 1e-5 * max(1, np.abs(x).max()), "not the least-squares solution", x)


mins = st.fixed_dictionaries({"n": st.integers(1, 4), "k": st.integers(0, 2), "s": seeds, "kind": st.sampled_from(["linear", "tanh", "exp", "rosen", "poly"]), "x": st.sampled_from([0.1, 1.0, 2.0]), "method": st.sampled_from(["simplex", "supersimplex", "customcg", "BFGS", "L-BFGS-B", "CG", "Nelder-Mead", "basinhopping", "evolve", "swarm", "brute", "Powell"]), "jac": st.booleans()})


@facet(mins, quick=150, rule="nonlinear problem", case_s=60)
def minimisers(case, rec):
    F, J = problem(case); r = rng(case["s"] + 1); x0 = case["x"] * r.randn(case["n"]); me = case["method"]; rec.nt(case["kind"] != "linear"); rec.note(me)
    f = lambda x: float(F(np.asarray(x)) @ F(np.asarray(x))); g = lambda x: 2 * J(np.asarray(x)).T @ F(np.asarray(x)); f0 = f(x0)
    if me == "brute" and case["n"] > 3 or me == "evolve" and case["n"] < 2: rec.skip(True)
    np.random.seed(7); import random; random.seed(7)
    with quiet(): s = opt.minimize(f, x0.copy(), method=me, tol=1e-9, maxiter={"evolve": 8, "swarm": 4, "basinhopping": 5}.get(me, 3000), jac=g if case["jac"] else None)
    x = np.asarray(s.x, float); rec.check(np.all(np.isfinite(x)) and x.shape == x0.shape, "solution", x); rec.check(abs(f(x) - s.fun) <= 1e-8 * max(1, abs(s.fun)), "reported value", s.fun, "at the solution", f(x))
    if me != "brute": rec.check(s.fun <= f0 + 1e-12 * max(1, f0), "worse than the start", s.fun, f0)
    if me in ("BFGS", "L-BFGS-B", "CG", "customcg") and s.success: rec.check(np.abs(g(x)).max() < 1e-2 * max(1, f0), "reported success at gradient", g(x))
    if me in ("simplex", "Nelder-Mead", "supersimplex", "Powell") and s.success and case["kind"] == "linear" and case["n"] <= 2: rec.check(np.abs(g(x)).max() < 1e-2 * max(1, np.linalg.norm(J(x))**2), "reported success at gradient", g(x))
