"""C25: statistical comparisons, error bars and wildcard budgets follow their definitions."""
TECH = "Hypothesis: generated p-values, test graphs, count tables, models and budgets; compared with the published step procedures, SciPy-free likelihood ratios, pseudo-inverses of numerically differentiated likelihoods, and the convex optimum found by bisection"
NOTE = "Generated-input search: <= 7 hypotheses, <= 6 circuits with <= 4 outcomes, one-qubit models for confidence regions; budgets of <= 6 outcomes per circuit."
import itertools, warnings, collections, types
import numpy as np
from fractions import Fraction as Fr
from hypothesis import strategies as st
from scipy import stats
from vt import facet
from vt.gen import *
import pygsti
import pygsti.objects as po
from pygsti.objects import Circuit, Label, DataSet, MultiDataSet, DataComparator
from pygsti.objects.hypothesistest import HypothesisTest
from pygsti.objects import datacomparator as dcm
from pygsti.objects.confidenceregionfactory import ConfidenceRegionFactory, ConfidenceRegionFactoryView
from pygsti.objects import modelfunction as mf
from pygsti.objects.wildcardbudget import PrimitiveOpsWildcardBudget
from pygsti.tools import hypothesis as hyp, likelihoodfns as lf
warnings.simplefilter("ignore")
PV = st.one_of(st.floats(0, 1), st.floats(0, 0.06), st.sampled_from([0.0, 0.05, 0.025, 0.01, 1.0, 1e-12]))


# ---------------------------------------------------------------- hypothesis tests
def holm(p, a):
    o = sorted(range(len(p)), key=lambda i: p[i]); r = [False] * len(p)
    for k, i in enumerate(o):
        if p[i] > a / (len(p) - k): break
        r[i] = True
    return r


def hochberg(p, a):
    s = sorted(p, reverse=True); cut = next((x for k, x in enumerate(s) if x <= a / (k + 1)), None); return [cut is not None and x <= cut for x in p]


def benjamini(p, a):
    m = len(p); s = sorted(p); cut = max([x for k, x in enumerate(s) if x <= a * (k + 1) / m], default=None); return [cut is not None and x <= cut for x in p]


PROC = {"Holms": holm, "Hochberg": hochberg, "Benjamini-Hochberg": benjamini, "Bonferroni": lambda p, a: [x <= a / len(p) for x in p], "none": lambda p, a: [x <= a for x in p]}


def clear(p, a):
    "p-values well away from every threshold the procedures could use"
    m = len(p); T = [a / k for k in range(1, m + 1)] + [a * k / m for k in range(1, m + 1)]
    return all(abs(x - t) > 1e-9 * max(t, 1e-30) for x in p for t in T)


@st.composite
def tests(draw):
    nh = draw(st.integers(1, 5)); sizes = [draw(st.sampled_from([0, 0, 0, 1, 2, 3, 6])) for _ in range(nh)]
    G = draw(st.sampled_from(["Holms", "zero", "graph", "graph"])) if nh > 1 else "zero"
    return {"sizes": sizes, "p": [[draw(PV) for _ in range(max(s, 1))] for s in sizes], "w": draw(st.one_of(st.none(), st.lists(st.integers(0, 4), min_size=nh, max_size=nh).filter(lambda w: sum(w) > 0))), "alpha": draw(st.sampled_from([0.05, 0.01, 0.3, 0.9])),
            "corr": draw(st.sampled_from(sorted(PROC))), "G": G, "g": [[draw(st.integers(0, 3)) for _ in range(nh)] for _ in range(nh)], "perdict": draw(st.booleans()), "c2": draw(st.lists(st.sampled_from(sorted(PROC)), min_size=nh, max_size=nh))}


@facet(tests(), quick=900, rule="a nested set of two or more hypotheses, or a graph passing significance", case_s=20)
def multiple_tests(case, rec):
    sizes, nh, a = case["sizes"], len(case["sizes"]), case["alpha"]; names = []; pv = {}
    for i, s in enumerate(sizes):
        if s == 0: names.append("h%d" % i); pv["h%d" % i] = case["p"][i][0]
        else:
            t = tuple("h%d_%d" % (i, j) for j in range(s)); names.append(t); pv.update(zip(t, case["p"][i]))
    rec.nt(max(sizes) > 1 or (nh > 1 and case["G"] != "zero")); rec.note(case["G"], case["corr"])
    w = case["w"]; weights = {n: x for n, x in zip(names, w)} if w else "equal"; wt = [Fr(x, sum(w)) for x in w] if w else [Fr(1, nh)] * nh
    if case["G"] == "Holms": graph = "Holms"; g = [[Fr(0) if i == j or sizes[i] else Fr(1, nh - 1) for j in range(nh)] for i in range(nh)]
    else:
        g = [[Fr(0) if i == j or sizes[i] or case["G"] == "zero" else Fr(case["g"][i][j]) for j in range(nh)] for i in range(nh)]
        g = [[x / max(sum(r), 1) for x in r] for r in g]; graph = np.array([[float(x) for x in r] for r in g])
        if case["G"] == "graph": g = [[Fr(x).limit_denominator(1000) for x in r] for r in g]
    corr = {n: c for n, c in zip(names, case["c2"])} if case["perdict"] else case["corr"]
    ht = HypothesisTest(tuple(names), significance=a, weighting=weights, passing_graph=graph, local_corrections=corr)
    p0 = dict(pv); ht.add_pvalues(pv); ht.implement(); rec.check(pv == p0, "the p-values are changed")
    # graphical procedure (Bretz et al.)
    A = [Fr(a) * x for x in wt]; left = set(range(nh)); rej = {}; G = [r[:] for r in g]; close = False
    while True:
        for i in left:
            if not sizes[i] and abs(pv[names[i]] - float(A[i])) <= 1e-9 * max(float(A[i]), 1e-30): close = True
        hit = [i for i in sorted(left) if not sizes[i] and pv[names[i]] <= float(A[i])]
        if not hit: break
        h = hit[0]; left.discard(h); rej[names[h]] = True
        for l in left: A[l] += A[h] * G[h][l]
        N = [[Fr(0)] * nh for _ in range(nh)]
        for l in left:
            for k in left:
                if l != k:
                    b = 1 - G[l][h] * G[h][l]; N[l][k] = (G[l][k] + G[l][h] * G[h][k]) / b if b else Fr(0)
        G = N
    rec.skip(close and not all(pv[n] == 0 for n in names if isinstance(n, str) and pv[n] <= 1e-30))
    for i, n in enumerate(names):
        if not sizes[i]: rec.check(ht.hypothesis_rejected[n] == rej.get(n, False), "hypothesis of the graph", n, [float(x) for x in A])
        else:
            P = [pv[x] for x in n]; al = float(A[i]); rec.skip(not clear(P, al)) if al else None
            c = case["c2"][i] if case["perdict"] else case["corr"]; want = PROC[c](P, al)
            rec.check([ht.hypothesis_rejected[x] for x in n] == want, c + " in a nested set", [n, P, al], want)
            th = ht.pvalue_pseudothreshold[n]; got = [ht.hypothesis_rejected[x] for x in n]
            rec.check(all(r == (x <= th * (1 + 1e-12)) for x, r in zip(P, got)), c + ": pseudo-threshold separates", [P, th], got)
    rec.check(set(ht.hypothesis_rejected) == set(pv), "hypotheses reported")


@facet(st.fixed_dictionaries({"a": st.floats(1e-4, 0.9), "n": st.lists(st.integers(1, 20), min_size=1, max_size=5), "w": st.lists(st.integers(1, 5), min_size=5, max_size=5), "m": st.sampled_from(["bonferroni", "sidak"])}), quick=200, rule="more than one test", case_s=10)
def corrections(case, rec):
    a, n = case["a"], case["n"]; w = np.array(case["w"][:len(n)], float); w /= w.sum(); rec.nt(len(n) > 1); m0 = n[0]
    rec.check(abs(hyp.bonferroni_correction(a, m0) * m0 - a) < 1e-12, "bonferroni_correction"); s = hyp.sidak_correction(a, m0); rec.check(abs((1 - s)**m0 - (1 - a)) < 1e-12, "sidak_correction")
    rec.check(np.allclose(hyp.generalized_bonferroni_correction(a, w), a * w, atol=1e-14), "generalized_bonferroni_correction")
    x = hyp.generalized_bonferroni_correction(a, w, numtests=n, nested_method=case["m"]); y = [a * wi / k if case["m"] == "bonferroni" else 1 - (1 - a * wi)**(1 / k) for wi, k in zip(w, n)]
    rec.check(np.allclose(x, y, atol=1e-13), "generalized_bonferroni_correction, nested", x, y)


# ---------------------------------------------------------------- comparing data sets
CIRCS = ["{}", "Gx", "Gy", "GxGy", "Gx^2", "GyGxGi"]


@st.composite
def tables(draw):
    nd = draw(st.integers(2, 4)); nc = draw(st.integers(1, 6)); no = draw(st.integers(2, 4)); fixed = draw(st.integers(0, 3)) == 0; T = []
    for c in range(nc):
        same = draw(st.integers(0, 4)) == 0; base = draw(st.lists(st.integers(0, 40), min_size=no, max_size=no)); rows = []
        for d in range(nd):
            r = base if same else draw(st.one_of(st.lists(st.integers(0, 40), min_size=no, max_size=no), st.just([x + 1 for x in base])))
            if fixed: r = [50 - min(49, r[0])] + [0] * (no - 2) + [min(49, r[0])]
            rows.append(list(r))
        T.append(rows)
    if not fixed:
        for rows in T:
            for r in rows:
                if sum(r) == 0 and draw(st.integers(0, 5)): r[0] = 3
    return {"T": T, "multi": draw(st.booleans()), "ex": draw(st.sampled_from([None, ["Gx"], ["Gy", "Gi"]])), "inc": draw(st.sampled_from([None, ["Gx"], ["Gi"]])), "sig": draw(st.sampled_from([0.05, 0.3])), "corr": draw(st.sampled_from(sorted(PROC))), "agw": draw(st.sampled_from([0.0, 0.5, 0.8, 1.0])), "passa": draw(st.booleans()), "shuf": draw(seeds), "names": draw(st.booleans())}


def gtest(rows):
    C = np.sum(rows, axis=0); out = 0.0
    for r in rows:
        for n, c in zip(r, C):
            if n: out += 2 * n * np.log(n * C.sum() / (c * sum(r)))
    return out


@facet(tables(), quick=260, rule="two or more circuits whose counts differ between the data sets", case_s=40)
def comparator(case, rec):
    T = case["T"]; nd, no = len(T[0]), len(T[0][0]); outs = ["0", "1", "2", "3"][:no]; circs = [pygsti.construction.circuit_list([()] )[0] if s == "{}" else Circuit(None, stringrep=s) for s in CIRCS[:len(T)]]
    bad = [min(sum(r) for r in rows) == 0 for rows in T]; rec.nt(len(T) > 1 and any(rows[0] != rows[1] for rows in T)); rec.note(case["corr"])
    def mk(order, darr):
        ds = []
        for d in darr:
            x = DataSet(outcomeLabels=outs)
            for c in order: x.add_count_dict(circs[c], {o: v for o, v in zip(outs, T[c][d])})
            x.done_adding_data(); ds.append(x)
        if not case["multi"]: return ds
        m = MultiDataSet(outcomeLabels=outs)
        for k, x in zip(darr, ds): m.add_dataset("D%d" % k, x)
        return m
    kw = dict(op_exclusions=case["ex"], op_inclusions=case["inc"], allow_bad_circuits=any(bad)); order = list(range(len(T)))
    keep = [c for c in order if not bad[c] and (case["ex"] is None or not any(Label(g) in circs[c] for g in case["ex"])) and (case["inc"] is None or len(circs[c]) == 0 or any(Label(g) in circs[c] for g in case["inc"]))]
    rec.skip(not keep); D = mk(order, range(nd)); nm = ["n%d" % i for i in range(nd)]
    if case["names"]: kw["DS_names"] = nm
    dc = DataComparator(D, **kw); dof = (nd - 1) * (no - 1)
    if case["names"]: rec.check(list(dc.DS_names) == nm, "names of the data sets", dc.DS_names)
    rec.check(set(dc.pVals) == {circs[c] for c in keep}, "circuits compared"); tot = 0.0
    rows = {circs[c]: T[c] for c in keep}
    for c, r in rows.items():
        L = gtest(r); tot += L; N = sum(map(sum, r)); s = 1e-7 * (1 + L)
        rec.check(abs(dc.get_LLR(c) - L) < s and abs(dc.llrs[c] - L) < s, "log-likelihood ratio", dc.get_LLR(c), L); rec.check(abs(dc.get_JSD(c) - L / 2 / N) < s, "Jensen-Shannon divergence"); rec.check(abs(dc.get_pvalue(c) - stats.chi2.sf(L, dof)) < 1e-6, "p-value", dc.get_pvalue(c), stats.chi2.sf(L, dof))
        if nd == 2: rec.check(abs(dc.get_TVD(c) - 0.5 * sum(abs(x / sum(r[0]) - y / sum(r[1])) for x, y in zip(*r))) < 1e-9, "TVD")
        if all(x == r[0] for x in r): rec.check(abs(dc.get_LLR(c)) < 1e-8 and dc.get_pvalue(c) > 1 - 1e-3, "identical data")
    K = len(keep); rec.check(abs(dc.get_aggregate_LLR() - tot) < 1e-7 * (1 + tot) and abs(dc.get_aggregate_pvalue() - stats.chi2.sf(tot, K * dof)) < 1e-6 and abs(dc.get_aggregate_nsigma() - (tot - K * dof) / np.sqrt(2 * K * dof)) < 1e-6, "aggregate statistics")
    dc.implement(significance=case["sig"], per_sequence_correction=case["corr"], aggregate_test_weighting=case["agw"], pass_alpha=case["passa"], verbosity=0)
    cs = list(rows); P = [dc.pVals[c] for c in cs]; al, ag = (1 - case["agw"]) * case["sig"], case["agw"] * case["sig"]; pa = dc.aggregate_pVal
    if abs(pa - ag) > 1e-9:
        ar = pa <= ag
        if ar and case["passa"]: al += ag
        if clear(P, al) or al == 0:
            want = PROC[case["corr"]](P, al); rec.check([bool(dc.results.hypothesis_rejected[c]) for c in cs] == want, "significant circuits", [P, al, case["corr"]], want)
            rec.check(bool(dc.inconsistent_datasets_detected) == (ar or any(want)) and dc.number_of_significant_sequences == sum(want), "inconsistency detected")
            th = dc.get_pvalue_pseudothreshold(); lt = dc.get_LLR_pseudothreshold()
            rec.check(all((x <= th * (1 + 1e-12)) == w for x, w in zip(P, want)), "p-value pseudo-threshold")
            if 0 < th < 1: rec.check(abs(stats.chi2.sf(lt, dof) - th) < 1e-9, "LLR pseudo-threshold")
            if dc.fixed_totalcount_data:
                N = sum(map(sum, rows[cs[0]])); rec.check(dc.counts_per_sequence == N, "counts per sequence"); jt = dc.get_JSD_pseudothreshold()
                if 0 < th < 1: rec.check(abs(jt - lt / (2 * N)) < 1e-12 + 1e-9 * jt, "JSD pseudo-threshold is that of the log-likelihood ratio", [jt, lt, N])
            for c, w in zip(cs, want):
                if nd == 2: rec.check(dc.get_SSTVD(c) == (dc.tvds[c] if w else None), "SSTVD")
                rec.check(dc.get_SSJSD(c) == (dc.jsds[c] if w else None), "SSJSD")
            if nd == 2:
                c, v = dc.get_maximum_SSTVD(); best = [dc.tvds[c] for c, w in zip(cs, want) if w]; rec.check(v == (max(best) if best else None), "maximum SSTVD")
    if case["agw"] > 0: rec.check(abs(dc.get_aggregate_pvalue_threshold() - ag) < 1e-12 and abs(stats.chi2.sf(dc.get_aggregate_LLR_threshold(), K * dof) - ag) < 1e-9 and abs(dc.get_aggregate_nsigma_threshold() - (dc.get_aggregate_LLR_threshold() - K * dof) / np.sqrt(2 * K * dof)) < 1e-9, "aggregate thresholds")
    w = dc.get_worst_circuits(2); rec.check([v for c, v in w] == sorted(P)[:2] and all(dc.pVals[c] == v for c, v in w), "worst circuits")
    # order of circuits and of data sets
    r = rng(case["shuf"]); kw.pop("DS_names", None); o2 = list(r.permutation(len(T))); d2 = DataComparator(mk(o2, list(r.permutation(nd))), **kw)
    rec.check(set(d2.llrs) == set(dc.llrs) and all(abs(d2.llrs[c] - dc.llrs[c]) < 1e-9 * (1 + dc.llrs[c]) for c in rows) and abs(d2.aggregate_llr - dc.aggregate_llr) < 1e-8 * (1 + tot), "the order of circuits and data sets matters")


# ---------------------------------------------------------------- confidence regions
def region_model(case):
    from pygsti.construction import std1Q_XY, std1Q_XYI
    r = rng(case["seed"]); mdl = (std1Q_XY if case["kind"] != "full3" else std1Q_XYI).target_model(); mdl.set_all_parameterizations({"full": "full", "full3": "full", "TP": "TP", "HS": "H+S"}.get(case["kind"], "TP"))
    if case["kind"] == "HS": v = mdl.to_vector(); mdl.from_vector(v + 0.05 + 0.03 * r.random(len(v)))
    else: mdl = mdl.depolarize(op_noise=0.1, spam_noise=0.03).rotate(max_rotate=0.1, seed=int(case["seed"]) % 1000)
    return mdl


_exp = {}


def circuits_for(mdl):
    ops = sorted(mdl.operations.keys(), key=str)
    if len(ops) not in _exp:
        from pygsti.construction import std1Q_XY
        F = [(), (ops[0],), (ops[1],), (ops[0], ops[0]), (ops[0],) * 3, (ops[1],) * 3]; _exp[len(ops)] = list(dict.fromkeys(Circuit(a + g + b) for g in [()] + [(o,) for o in ops] + [(ops[0], ops[1])] for a in F for b in F))
    return _exp[len(ops)]


@st.composite
def regions(draw):
    return {"kind": draw(st.sampled_from(["TP", "TP", "full", "HS"])), "seed": draw(seeds), "level": draw(st.sampled_from([50.0, 68.0, 95.0, 99.0])), "N": draw(st.sampled_from([100, 1000])), "nm": draw(st.sampled_from([0, 0, 3.5])), "obj": draw(st.sampled_from(["logl", "logl", "chi2"])), "approx": draw(st.booleans())}


@facet(regions(), quick=24, rule="always", case_s=150)
def error_bars(case, rec):
    mdl = region_model(case); circs = circuits_for(mdl); N = case["N"]; rec.nt(True); rec.note(case["kind"], case["obj"])
    ds = pygsti.construction.generate_fake_data(mdl, circs, N, "none"); x0 = mdl.to_vector(); n = len(x0)
    par = types.SimpleNamespace(models={"m": mdl}, parameters={"objective": case["obj"], "minProbClip": 1e-6, "radius": 1e-6, "minProbClipForWeighting": 1e-6}, parent=types.SimpleNamespace(circuit_lists={"c": circs}, dataset=ds))
    crf = ConfidenceRegionFactory(par, "m", "c"); H = crf.compute_hessian(approximate=case["approx"])
    # Fisher information of the exact data, from numerically differentiated probabilities
    w = mdl.copy(); pr = lambda v: (w.from_vector(v), np.array([[d[o] for o in (("0",), ("1",))] for d in (w.probs(c) for c in circs)]))[1].ravel()
    J = np.array([(pr(x0 + 1e-5 * e) - pr(x0 - 1e-5 * e)) / 2e-5 for e in np.eye(n)]).T; p = pr(x0); F = N * (J.T / p) @ J
    if case["kind"] == "full": pass      # outcome probabilities need not sum to one: the Poisson picture has the same second derivatives
    tol = 2e-3 * np.abs(F).max(); rec.check(np.allclose(np.abs(H), np.abs(F), atol=tol), "the Hessian of the objective at the exact data is the Fisher information", float(np.max(np.abs(np.abs(H) - np.abs(F)))), float(np.abs(F).max()))
    Q = crf.project_hessian("std"); s = np.linalg.svd(J / np.sqrt(p)[:, None], compute_uv=False); k = int(np.sum(s > 1e-5 * s[0])); rec.check(crf.nNonGaugeParams == k and crf.nGaugeParams == n - k, "numbers of parameters", [crf.nNonGaugeParams, crf.nGaugeParams], k)
    I = np.linalg.pinv(F, rcond=1e-9 if case["kind"] != "HS" else 1e-9); sc = np.abs(I).max()
    evs = np.linalg.eigvalsh(F)[n - k:]; rec.skip(evs[0] < 1e-5 * evs[-1]); lev = case["level"] / 100
    rec.check(np.allclose(np.sign(np.trace(Q)) * Q, I, atol=2e-2 * sc), "inverse of the projected Hessian", float(np.max(np.abs(np.abs(Q) - np.abs(I))) / sc))
    v = crf.view(case["level"]); z = stats.norm.ppf(0.5 + lev / 2); A = np.abs(np.diag(Q))
    rec.check(np.allclose(v.get_profile_likelihood_confidence_intervals(), z * np.sqrt(A), atol=1e-9) and np.allclose(z * np.sqrt(A), z * np.sqrt(np.diag(I)), atol=2e-2 * z * np.sqrt(sc)), "profile-likelihood intervals")
    ks = {"nonmark": case["nm"]}; v2 = ConfidenceRegionFactoryView(mdl, Q, None, case["level"], case["nm"], k, n - k) if case["nm"] else v
    if case["nm"]: c1, ck = stats.ncx2.ppf(lev, 1, case["nm"]), stats.ncx2.ppf(lev, k, case["nm"]); rec.check(np.allclose(v2.get_profile_likelihood_confidence_intervals()**2, c1 * A / np.sqrt(k), rtol=1e-8) and v2.get_errobar_type() == "non-markovian", "non-Markovian intervals")
    else: c1, ck = z * z, stats.chi2.ppf(lev, k)
    rec.check(abs(v2.intervalScaling - np.sqrt(ck / c1)) < 1e-9 and abs(v2.stdIntervalScaling - np.sqrt(z * z / c1)) < 1e-6 and abs(v2.stdRegionScaling - np.sqrt(stats.chi2.ppf(lev, k) / c1)) < 1e-6, "scaling to full regions")
    for lbl in list(mdl.operations) + list(mdl.preps) + list(mdl.povms):
        o = mdl.operations[lbl] if lbl in mdl.operations else (mdl.preps[lbl] if lbl in mdl.preps else mdl.povms[lbl]); rec.check(np.array_equal(v.get_profile_likelihood_confidence_intervals(lbl), v.profLCI[o.gpindices]), "intervals of a member", str(lbl))
    # functions of the model: linear propagation
    B = np.sign(np.trace(Q)) * Q; ge = lambda f: np.array([(f(x0 + 1e-5 * e) - f(x0 - 1e-5 * e)) / 2e-5 for e in np.eye(n)]); gl = sorted(mdl.operations, key=str)[0]
    def at(f): return lambda x: (w.from_vector(x), f(w))[1]
    def band(G): return z * np.sqrt(np.abs(np.einsum("p...,pq,q...->...", G, B, G)))
    g0 = w.operations[gl].todense().copy(); probe = circs[-3]; r = rng(case["seed"] + 1); M = r.normal(size=(4, 4))
    fns = [("float", lambda m: float(np.sum(M * m.operations[gl].todense())**2 / 10), ["all"]), ("prob", lambda m: m.probs(probe)[("0",)], ["all"]), ("complex", lambda m: complex(np.trace(M @ m.operations[gl].todense()), m.operations[gl].todense()[1, 2]), [("gate", gl)]), ("array1", lambda m: m.operations[gl].todense() @ M[0], [("gate", gl)]),
           ("array2", lambda m: m.operations[gl].todense() @ M, [("gate", gl)]), ("prep", lambda m: float(M[1] @ m.preps["rho0"].todense().ravel()), [("prep", "rho0")]), ("spam", lambda m: float(m.povms["Mdefault"]["0"].todense().ravel() @ m.preps["rho0"].todense().ravel()), ["spam"]), ("carray", lambda m: m.operations[gl].todense()[:2] @ (M[0] + 1j * M[2]), ["all"])]
    nm, f, dep = fns[int(case["seed"]) % len(fns)]
    class Fn(mf.ModelFunction):
        def evaluate(self, m): return f(m)
    for nm, f, dep in fns:
        df, f0 = v.get_fn_confidence_interval(Fn(mdl, dep), returnFnVal=True); G = ge(at(f)); want = band(G.real) + 1j * band(G.imag) if np.iscomplexobj(G) else band(G)
        rec.check(np.allclose(f0, at(f)(x0), atol=1e-10), nm + ": value"); scl = np.max(np.abs(want)) + 1e-12
        rec.check(np.allclose(df, want, atol=2e-3 * scl + 1e-6 * z * np.sqrt(sc)), nm + ": error bar by linear propagation", np.asarray(df).tolist() if not np.iscomplexobj(df) else str(df), str(want))
    dct = v.get_fn_confidence_interval(type("D", (mf.ModelFunction,), {"evaluate": lambda s, m: {"a": fns[0][1](m), "b": fns[3][1](m)}})(mdl, ["all"])); rec.check(np.allclose(dct["a"], band(ge(at(fns[0][1]))), rtol=3e-3, atol=1e-6 * z * np.sqrt(sc)) and np.allclose(dct["b"], band(ge(at(fns[3][1]))), rtol=3e-3, atol=1e-5 * z * np.sqrt(sc)), "dictionary of functions")
    # function factories evaluate the function on the named members
    tgt = pygsti.construction.std1Q_XY.target_model() if case["kind"] != "full3" else mdl; mdl.from_vector(x0)
    rec.check(np.array_equal(mf.opfn_factory(lambda a, b: a)(mdl, gl).evaluate(mdl), mdl.operations[gl].todense()) and mf.opfn_factory(lambda a, b: a)(mdl, gl).get_dependencies() == [("gate", gl)], "opfn_factory")
    a, b = mf.opsfn_factory(lambda a, b, c: np.array([a, b]))(mdl, tgt, gl).evaluate(mdl); rec.check(np.array_equal(a, mdl.operations[gl].todense()) and np.array_equal(b, tgt.operations[gl].todense()), "opsfn_factory")
    for l, t, x, y in (("rho0", "prep", mdl.preps["rho0"], tgt.preps["rho0"]), ("Mdefault:1", "effect", mdl.povms["Mdefault"]["1"], tgt.povms["Mdefault"]["1"])):
        rec.check(np.array_equal(mf.vecfn_factory(lambda a, b: a)(mdl, l, t).evaluate(mdl), x.todense()), "vecfn_factory"); a, b = mf.vecsfn_factory(lambda a, b, c: np.array([a, b]))(mdl, tgt, l, t).evaluate(mdl); rec.check(np.array_equal(a, x.todense()) and np.array_equal(b, y.todense()), "vecsfn_factory", l)
    rec.check(mf.spamfn_factory(lambda p, m: (p, m))(mdl).evaluate(mdl) == (list(mdl.preps.values()), list(mdl.povms.values())) and mf.modelfn_factory(lambda m: m)(mdl).evaluate(mdl) is mdl and mf.povmfn_factory(lambda m: m)(mdl).evaluate(mdl) is mdl, "model function factories")


# ---------------------------------------------------------------- wildcard budgets
@st.composite
def budgets(draw):
    nc = draw(st.integers(1, 5)); C = []
    for _ in range(nc):
        no = draw(st.integers(2, 6)); C.append({"w": draw(st.lists(st.sampled_from(["Gx", "Gy", "Gc"]), max_size=4)), "q": [draw(st.sampled_from([0.02, 0.1, 0.3, 1, 1, 2, 5, 0])) for _ in range(no)], "f": [draw(st.sampled_from([0, 0, 1, 1, 2, 3, 10, 50])) for _ in range(no)], "same": draw(st.integers(0, 7)) == 0, "neg": draw(st.integers(0, 5)) == 0})
    return {"C": C, "b": [draw(st.sampled_from([0, 0.001, 0.01, 0.05, 0.2, -0.03])) for _ in range(4)], "spam": draw(st.booleans()), "pre": draw(st.booleans())}


def optimum(q, f, W):
    "the distribution within total variation W of q that makes f likeliest: min(q, a f) above, max(q, b f) below"
    if 0.5 * np.abs(q - f).sum() <= W: return f.copy()
    def bis(g, lo, hi):
        for _ in range(200):
            m = (lo + hi) / 2; lo, hi = (m, hi) if g(m) > W else (lo, m)
        return (lo + hi) / 2
    A = q > f; r = np.max(q[A] / f[A]) if A.any() else 1; a = bis(lambda a: np.clip(q[A] - a * f[A], 0, None).sum(), 1, r); b = -bis(lambda b: np.clip(-b * f[~A] - q[~A], 0, None).sum(), -1, 0)
    p = q.copy(); p[A] = np.minimum(q[A], a * f[A]); p[~A] = np.maximum(q[~A], b * f[~A]); return p


@facet(budgets(), quick=500, rule="a circuit whose data lie outside a non-zero budget", case_s=20)
def wildcard(case, rec):
    ops = [Label("Gx", 0), Label("Gy", 1), Label("Gc", (0, 1))]; nm = {o.name: o for o in ops}; wb = PrimitiveOpsWildcardBudget(ops, add_spam=case["spam"], start_budget=0.25)
    rec.check(np.array_equal(wb.to_vector(), [0.25] * (3 + case["spam"])), "start budget"); vec = np.array(case["b"][:3 + case["spam"]]); wb.from_vector(vec); rec.check(np.array_equal(wb.to_vector(), vec), "budget vector")
    circs, q, f, idx, W = [], [], [], [], []
    for c in case["C"]:
        layers = []
        for g in c["w"]:
            if g == "Gy" and layers and layers[-1] == [nm["Gx"]]: layers[-1] = [nm["Gx"], nm["Gy"]]
            else: layers.append([nm[g]])
        circs.append(Circuit(layers, line_labels=(0, 1))); x = np.array(c["q"], float); x = x / x.sum() if x.sum() else np.full(len(x), 1 / len(x)); y = np.array(c["f"], float); y = y / y.sum() if y.sum() else np.full(len(y), 1 / len(y))
        if c["same"]: y = x.copy()
        if c["neg"]:
            i = int(np.argmin(x)); d = x[i] + 0.02; x[i] -= d; x[int(np.argmax(x))] += d
        idx.append(np.arange(len(q), len(q) + len(x))); q += list(x); f += list(y)
        W.append(sum(abs(vec[["Gx", "Gy", "Gc"].index(g)]) for g in c["w"]) + (abs(vec[3]) if case["spam"] else 0))
    q, f = np.array(q), np.array(f); pre = wb.get_precomp_for_circuits(circs) if case["pre"] else None
    rec.check(np.allclose(wb.circuit_budgets(circs, pre), W, atol=1e-12) and np.allclose([wb.circuit_budget(c) for c in circs], W, atol=1e-12) and all(abs(wb.get_op_budget(o) - abs(v)) < 1e-15 for o, v in zip(ops, vec)), "budget of a circuit", wb.circuit_budgets(circs, pre), W)
    dd = wb.get_descriptive_dict(); rec.check([dd[o][1] for o in ops] == list(np.abs(vec[:3])) and len(dd) == len(vec), "descriptive dictionary")
    out = np.full(len(q), np.nan); q0, f0 = q.copy(), f.copy()
    wb.update_probs(q, out, f, circs, idx, pre); rec.check(np.array_equal(q, q0) and np.array_equal(f, f0), "update_probs changes its input")
    for i, (ix, w) in enumerate(zip(idx, W)):
        a, b, p = q[ix], f[ix], out[ix]; tv = 0.5 * np.abs(a - b).sum(); rec.nt(tv > w > 0)
        rec.check(abs(p.sum() - 1) < 1e-5, "adjusted probabilities sum to one", p.tolist(), [a.tolist(), b.tolist(), w]); rec.check(0.5 * np.abs(p - a).sum() <= w + 5e-6, "the change exceeds the budget", 0.5 * np.abs(p - a).sum(), [w, a.tolist(), b.tolist()])
        if not case["C"][i]["neg"]:
            best = optimum(a, np.where(b == 0, 1e-8, b), w); L = lambda z: sum(y * np.log(max(x, 1e-300)) for x, y in zip(z, b) if y)
            rec.check(np.allclose(p, best, atol=2e-5), "adjusted probabilities are the likeliest within the budget", p.tolist(), best.tolist()); rec.check(L(p) >= L(a) - 1e-6, "the fit gets worse")


@facet(st.fixed_dictionaries({"seed": seeds, "b": st.lists(st.sampled_from([0, 0.002, 0.02, 0.1]), min_size=3, max_size=3), "N": st.sampled_from([100, 1000]), "mode": st.sampled_from(["logl", "2dl"])}), quick=30, rule="a non-zero budget", case_s=60)
def wildcard_likelihood(case, rec):
    from pygsti.construction import std1Q_XY
    mdl = std1Q_XY.target_model().depolarize(op_noise=0.05, spam_noise=0.05); ops = list(mdl.operations); circs = pygsti.construction.circuit_list([(), ("Gx",), ("Gy",), ("Gx", "Gx"), ("Gx", "Gy"), ("Gy",) * 4, ("Gx",) * 5]); rec.nt(any(case["b"]))
    gen = mdl.rotate(max_rotate=0.3, seed=int(case["seed"]) % 999); ds = pygsti.construction.generate_fake_data(gen, circs, case["N"], "multinomial", seed=int(case["seed"]) % 2**31)
    wb = PrimitiveOpsWildcardBudget(ops, add_spam=True); wb.from_vector(np.array(case["b"])); mx, base, got, want = 0, 0, 0, 0
    for c in circs:
        row = ds[c]; n = np.array([row.counts.get(("0",), 0), row.counts.get(("1",), 0)]); N = n.sum(); q = mdl.probs(c); q = np.array([q[("0",)], q[("1",)]]); W = case["b"][2] + sum(case["b"][ops.index(g)] for g in c)
        p = optimum(q, np.where(n == 0, 1e-8, n / N), W); want += sum(k * np.log(x) for k, x in zip(n, p) if k); mx += sum(k * np.log(k / N) for k in n if k); base += sum(k * np.log(x) for k, x in zip(n, q) if k)
    if case["mode"] == "logl": L = lf.logl(mdl, ds, circs, minProbClip=1e-10, radius=1e-10, poissonPicture=False, wildcard=wb); rec.check(abs(L - want) < 2e-3 + 1e-6 * abs(want), "likelihood with a budget", [L, want, base, mx])
    else: L = lf.two_delta_logl(mdl, ds, circs, minProbClip=1e-10, radius=1e-10, poissonPicture=False, wildcard=wb, dof_calc_method=None); rec.check(abs(L - 2 * (mx - want)) < 4e-3 + 1e-6 * abs(want), "2 delta log L with a budget", [L, 2 * (mx - want)])


@facet(st.just({"outcomes": 4, "budget": 0}), quick=1, shards=1, rule="always")
def slow_wildcard(case, rec):
    rec.nt(True); wb = PrimitiveOpsWildcardBudget([Label("Gx")], add_spam=False); q = np.array([0.2, 0.36, 0.12, 0.32]); f = np.array([0.1, 0.3, 0.05, 0.55]); out = np.zeros(4)
    wb.slow_update_probs(q, out, f, [Circuit([Label("Gx")])], [np.arange(4)]); rec.check(0.5 * np.abs(out - q).sum() < 1e-5, "slow_update_probs without a budget changes probabilities", out.tolist(), q.tolist())
