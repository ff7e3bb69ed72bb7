"""C22: randomized-benchmarking and phase-estimation analyses invert their own models."""
TECH = "Hypothesis: generated decays, noisy group models, count tables, benchmarking designs and rotation angles; fits compared with the generating parameters, theory with exhaustive enumeration of the benchmark, phase estimates with the exact branch-tracking bound"
NOTE = "Generated-input search: 1-3 qubits' decay parameters, one-qubit groups of up to 24 elements (all sequences up to length 2-4 enumerated), designs of <= 5 depths x 4 circuits, phase estimation up to depth 64."
import itertools, warnings
import numpy as np
from hypothesis import strategies as st
from vt import facet, models as M, cliff
from vt.gen import *
import pygsti
import pygsti.objects as po
import pygsti.construction as pc
from pygsti.objects import Circuit, DataSet, DataComparator
from pygsti.algorithms import rbfit
from pygsti.tools import rbtheory, rbtools, group as grp
from pygsti.protocols import rb, rpe, protocol as proto
from pygsti.protocols.protocol import ProtocolData
from pygsti.extras.rpe import rpeconstruction as rcons, rpetools
from pygsti.extras.rpe.rpeconfig_GxPi2_GyPi2_00 import rpeconfig_GxPi2_GyPi2_00 as CFG00
from pygsti.extras.rpe.rpeconfig_GxPi2_GyPi2_UpDn import rpeconfig_GxPi2_GyPi2_UpDn as CFGUD
warnings.simplefilter("ignore")


# ---- fits
LENS = st.lists(st.integers(0, 40), min_size=5, max_size=9, unique=True).map(sorted)


def rate(p, d, rtype): return (1 - p) * (d - 1) / d if rtype == "AGI" else (1 - p) * (d * d - 1) / d**2


@facet(st.fixed_dictionaries({"n": st.integers(1, 3), "p": st.floats(0.5, 0.99), "dA": st.floats(-0.05, 0.15), "b": st.floats(0.3, 1.0), "lens": LENS, "rtype": st.sampled_from(["EI", "AGI"]),
                              "how": st.sampled_from(["std-full", "std-FA", "both", "A", "B", "AB", "none"]), "seed": st.booleans()}), quick=150, rule="full three-parameter fit, or a rate of the non-default type")
def fits(case, rec):
    n, p, L = case["n"], case["p"], case["lens"]; A0 = 1 / 2**n; how = case["how"]
    span = p**L[0] - p**L[-1]
    if span < 0.25 or p**L[-1] > 0.75 or sum(p**m > 0.05 for m in L) < 3: rec.skip("decay not resolved by these lengths"); return
    A = A0 if how in ("std-FA",) else A0 + case["dA"]; A = max(A, 0.02); B = case["b"] * (1 - A)
    y = [A + B * p**m for m in L]; kw = {}; lens, ys = list(L), list(y)
    if how.startswith("std") or how == "both":
        if case["seed"]: kw["seed"] = (0.8, 0.95)
        if how == "std-FA" and case["dA"] > 0.05: A_fix = A0 + case["dA"]; y = [A_fix + B * p**m for m in L]; A = A_fix; kw["asymptote"] = A_fix
        ys = list(y)
        r = rbfit.std_least_squares_data_fitting(L, y, n, ftype={"std-full": "full", "std-FA": "FA", "both": "full+FA"}[how], rtype=case["rtype"], **kw)
        if how == "both":
            r, fa = r
            rec.check(fa["variable"] == {"A": False, "B": True, "p": True} and fa["success"] and abs(fa["estimates"]["A"] - A0) < 1e-12, "fixed-asymptote fit does not keep its asymptote", str(fa))
            e = fa["estimates"]; rec.check(abs(e["r"] - rate(e["p"], 2**n, case["rtype"])) < 1e-9, "error rate of the fixed-asymptote fit", e, case["rtype"])
            # least-squares optimality of the fixed fit: no worse than the values on a small grid around it
            f = lambda b, q: sum((e["A"] + b * q**m - v)**2 for m, v in zip(L, y))
            best = f(e["B"], e["p"])
            for db, dq in ((1e-3, 0), (-1e-3, 0), (0, 1e-3), (0, -1e-3), (2e-3, 1e-3), (-2e-3, -1e-3), (2e-3, -1e-3), (-2e-3, 1e-3)):
                if 0 < e["p"] + dq <= 1: rec.check(f(e["B"] + db, e["p"] + dq) >= best - 1e-9, "fixed-asymptote fit is not a minimum", e, db, dq)
        fixed = {"A"} if how == "std-FA" else set()
    else:
        fixed = {"A": {"A"}, "B": {"B"}, "AB": {"A", "B"}, "none": set()}[how]
        if "A" in fixed: kw["A"] = A
        if "B" in fixed: kw["B"] = B
        r = rbfit.custom_least_squares_data_fitting(L, y, n, rtype=case["rtype"], **kw)
    rec.check(L == lens and y == ys, "fit modified its inputs")
    rec.check(r["success"], "fit to an exact decay failed")
    e = r["estimates"]; rec.check({k for k, v in r["variable"].items() if not v} == fixed, "wrong parameters reported as fixed", r["variable"], fixed)
    tol = 2e-4
    if how == "B":   # with only B fixed the residual has local minima: require the curve to be right only where the fit explains the data
        if max(abs(float(np.squeeze(e["A"])) + B * float(np.squeeze(e["p"]))**m - v) for m, v in zip(L, y)) > 1e-6: rec.note("local minimum"); return
        tol = 2e-3
    rec.check(abs(float(np.squeeze(e["p"])) - p) < tol and abs(float(e["A"]) - A) < 10 * tol and abs(float(e["B"]) - B) < 10 * tol, "fit did not return the decay it was given", {k: float(np.squeeze(v)) for k, v in e.items()}, (A, B, p))
    rec.check(abs(float(np.squeeze(e["r"])) - rate(p, 2**n, case["rtype"])) < tol, "error rate", float(np.squeeze(e["r"])), rate(p, 2**n, case["rtype"]), case["rtype"])
    q = float(np.squeeze(e["p"]))
    for t in ("EI", "AGI"):
        rec.check(abs(rbtools.p_to_r(q, 2**n, t) - rate(q, 2**n, t)) < 1e-12 and abs(rbtools.r_to_p(rbtools.p_to_r(q, 2**n, t), 2**n, t) - q) < 1e-12, "p_to_r and r_to_p", t)
    rec.nt(not fixed or case["rtype"] == "AGI")


# ---- theory
I2 = np.eye(2, dtype=complex); PX = np.array([[0, 1], [1, 0]], complex); PZ = np.diag([1, -1]).astype(complex); PY = 1j * PX @ PZ
HH = (PX + PZ) / np.sqrt(2); SS = np.diag([1, 1j])


def closure(gens):
    """(words, unitaries) of the group generated, up to phase, identity first; word = names applied in order"""
    us = [((), I2)]; i = 0
    key = lambda u: np.round(M.super_of([u]).real, 6).tobytes() if False else tuple(np.round(np.real(ptm(u)).ravel(), 4) + 0.0)
    seen = {key(I2)}
    while i < len(us):
        w, u = us[i]; i += 1
        for nm, g in gens:
            v = g @ u; k = key(v)
            if k not in seen: seen.add(k); us.append((w + (nm,), v))
    return us


def ptm(u):
    ps = [I2, PX, PY, PZ]
    return np.real(np.array([[np.trace(a.conj().T @ u @ b @ u.conj().T) / 2 for b in ps] for a in ps]))


GENS = {"cliff24": [("Ghh", HH), ("Gss", SS)], "pauli4": [("Gxpi", PX), ("Gzpi", PZ)], "tetra12": [("Gcyc", SS @ HH), ("Gxpi", PX)], "pauliC": [("Gxp", PX), ("Gii", I2), ("Gzp", PZ)]}
_GC = {}


def grp_of(k):
    if k not in _GC:
        us = closure(GENS[k]); labs = ["Ga%d" % i for i in range(len(us))]
        _GC[k] = (us, labs, grp.MatrixGroup([ptm(u) for _, u in us], labs))
    return _GC[k]


def noisy(u, g, s, kind):
    if kind == "unitary": v = g.normal(size=3) * s; e = [np.cos(np.linalg.norm(v)) * I2 - 1j * np.sinc(np.linalg.norm(v) / np.pi) * (v[0] * PX + v[1] * PY + v[2] * PZ)]; A = ptm(e[0])
    else:
        ks = [np.eye(2) + s * (g.normal(size=(2, 2)) + 1j * g.normal(size=(2, 2))), s * 1.5 * (g.normal(size=(2, 2)) + 1j * g.normal(size=(2, 2)))]
        S = sum(k.conj().T @ k for k in ks); w, V = np.linalg.eigh(S); R = V @ np.diag(w**-0.5) @ V.conj().T; ks = [k @ R for k in ks]; A = sum(np.real(np.array([[np.trace(a @ k @ b @ k.conj().T) / 2 for b in (I2, PX, PY, PZ)] for a in (I2, PX, PY, PZ)])) for k in ks)
    return A @ ptm(u)


def mk_model(ops, g, spam):
    m = po.ExplicitOpModel([("Q0",)], basis="pp")
    for k, v in ops.items(): m.operations[k] = np.asarray(v)
    r = np.array([1, 0, 0, 1]) / np.sqrt(2); e = r.copy()
    if spam: r = r * np.array([1, 1, 1, 0.9]) + np.array([0, 0.05, -0.03, 0]); e = e * np.array([1.02, 1, 1, 0.93]) + np.array([0, 0.02, 0.04, 0])
    m.preps["rho0"] = r; m.povms["Mdefault"] = po.UnconstrainedPOVM([("0", e), ("1", np.array([np.sqrt(2), 0, 0, 0]) - e)])
    return m, r, e


def t_st(tier): return st.fixed_dictionaries({"g": st.sampled_from(sorted(GENS)), "comp": st.booleans(), "tw": st.booleans(), "s": st.floats(0.005, 0.12), "kind": st.sampled_from(["unitary", "kraus"]), "spam": st.booleans(), "w": st.lists(st.integers(1, 5), min_size=24, max_size=24), "useW": st.booleans(),
                                              "mmin": st.integers(0, 2), "step": st.integers(1, 2), "out": st.sampled_from(["0", "1"]), "tup": st.booleans(), "seed": seeds})


@facet(t_st(0), quick=60, rule="gate-dependent noise that is not unitary, or weighted sampling", case_s=120)
def theory(case, rec):
    us, labs, G = grp_of(case["g"]); g = rng(case["seed"]); N = len(us); comp = case["comp"]
    if comp:
        gens = dict(GENS[case["g"]]); nops = {k: noisy(u, g, case["s"], case["kind"]) for k, u in gens.items()}; tops = {k: ptm(u) for k, u in gens.items()}
        alias = {l: Circuit(w, line_labels=("Q0",)) for l, (w, _) in zip(labs, us)}
        # group label of each generator
        g2m = {labs[[i for i, (_, v) in enumerate(us) if np.allclose(ptm(v), ptm(u))][0]]: k for k, u in gens.items()}
        if len(g2m) < len(gens): rec.skip("two generators equal"); return
    else:
        nops = {l: noisy(u, g, case["s"], case["kind"]) for l, (_, u) in zip(labs, us)}; tops = {l: ptm(u) for l, (_, u) in zip(labs, us)}; alias = None; g2m = None
    m, r, e = mk_model(nops, g, case["spam"]); t, _, _ = mk_model(tops, g, False)
    names = list(nops); W = {k: float(case["w"][i]) for i, k in enumerate(names)} if case["useW"] else None; w = np.array([W[k] if W else 1.0 for k in names]); w /= w.sum()
    out = case["out"]; ev = e if out == "0" else np.array([np.sqrt(2), 0, 0, 0]) - e
    def group_op(i):
        if not comp: return nops[labs[i]]
        A = np.eye(4)
        for k in us[i][0]: A = nops[k] @ A
        return A
    gops = [group_op(i) for i in range(N)]
    ids = {k: (labs.index(k) if not comp else labs.index([a for a, b in g2m.items() if b == k][0])) for k in names}
    prod = {(i, j): G.product([i, j]) for i in range(N) for j in range(N)}
    # exact average over sequences by a recursion over the ideal group element reached so far (equivalent to enumerating all sequences)
    def exact(mm):
        cur = {0: np.array(r)} if not case["tw"] else {i: gops[i] @ r / N for i in range(N)}
        for _ in range(mm):
            nxt = {}
            for i, v in cur.items():
                for k, wk in zip(names, w):
                    j = prod[(i, ids[k])]; nxt[j] = nxt.get(j, 0) + wk * (nops[k] @ v)
            cur = nxt
        return sum(float(ev @ (gops[G.get_inv(i)] @ v)) for i, v in cur.items())
    mm, P = rbtheory.exact_RB_ASPs(m, G, case["mmin"] + 3, m_min=case["mmin"], m_step=case["step"], success_outcomelabel=(out,) if case["tup"] else out, group_to_model=g2m, weights=dict(W) if W else None, compilation=alias, group_twirled=case["tw"])
    want = list(range(case["mmin"], case["mmin"] + 4, case["step"]))
    rec.check(list(mm) == want, "exact_RB_ASPs lengths", list(mm), want)
    for k, v in zip(mm, P): rec.check(abs(v - exact(int(k))) < 1e-9, "exact_RB_ASPs differs from averaging over all sequences at length", int(k), v, exact(int(k)))
    R = rbtheory.R_matrix(m, G, group_to_model=g2m, weights=dict(W) if W else None); eR = np.linalg.eigvals(R)
    pR = rbtheory.R_matrix_predicted_RB_decay_parameter(m, G, group_to_model=g2m, weights=dict(W) if W else None)
    rec.check(abs(pR - sorted(abs(eR))[-2]) < 1e-9, "R-matrix decay parameter is not its second eigenvalue")
    Lm = rbtheory.L_matrix(m, t, weights=dict(W) if W else None)
    ref = sum(wk * np.kron(nops[k].T, np.linalg.inv(tops[k])) for k, wk in zip(names, w))
    rec.check(np.allclose(Lm, ref, atol=1e-10), "L_matrix differs from its definition")
    eL = np.linalg.eigvals(Lm)
    for x in eL: rec.check(np.min(abs(eR - x)) < 2e-4 or np.min(abs(eR - x.conj())) < 2e-4, "an eigenvalue of the twirl is missing from the exact transition matrix", x)
    p = rbtheory.predicted_RB_decay_parameter(m, t, weights=dict(W) if W else None)
    rec.check(abs(p - sorted(abs(eL))[-2]) < 1e-9, "predicted decay parameter")
    for rt in ("EI", "AGI"): rec.check(abs(rbtheory.predicted_RB_number(m, t, weights=dict(W) if W else None, rtype=rt) - rate(p, 2, rt)) < 1e-9, "predicted RB number", rt)
    # the exact decay, far enough out, is the predicted one (irreducible groups, all elements sampled)
    if not comp and case["g"] in ("cliff24", "tetra12") and not W:
        a = [exact_R(R, ev, r, gops, G, N, k) for k in (30, 31, 32)]
        d1, d2 = a[1] - a[0], a[2] - a[1]
        if abs(d1) > 1e-5: rec.check(abs(d2 / d1 - p) < 1e-3, "simulated benchmark does not decay at the predicted rate", d2 / d1, p)
    em = rbtheory.errormaps(m, t)
    for k in names: rec.check(np.allclose(np.asarray(em.operations[k].todense()), nops[k] @ tops[k].T, atol=1e-10), "errormaps", k)
    rec.check(np.allclose(np.asarray(em.operations["Gavg"].todense()), sum(nops[k] @ tops[k].T for k in names) / len(names), atol=1e-10), "average error map")
    rec.nt(case["kind"] == "kraus" or bool(W))


def exact_R(R, ev, r, gops, G, N, k):
    x = np.zeros(4 * N); x[:4] = r; x = np.linalg.matrix_power(R, k) @ x
    return sum(float(ev @ (gops[G.get_inv(i)] @ x[4 * i:4 * i + 4])) for i in range(N))


@facet(st.fixed_dictionaries({"g": st.sampled_from(["cliff24", "tetra12"]), "s": st.floats(0.005, 0.06), "kind": st.sampled_from(["unitary", "kraus"]), "spam": st.booleans(), "seed": seeds}), quick=30, rule="every generated group model")
def gauge(case, rec):
    us, labs, G = grp_of(case["g"]); g = rng(case["seed"]); nops = {l: noisy(u, g, case["s"], case["kind"]) for l, (_, u) in zip(labs, us)}; tops = {l: ptm(u) for l, (_, u) in zip(labs, us)}
    m, r, e = mk_model(nops, g, case["spam"]); t, _, _ = mk_model(tops, g, False); m.set_all_parameterizations("full"); before = m.to_vector()
    m2 = rbtheory.transform_to_rb_gauge(m, t)
    rec.check(np.array_equal(before, m.to_vector()), "transform_to_rb_gauge changed its input")
    pr, pr2 = [{c: mm.probs(Circuit(c, line_labels=("Q0",))) for c in [(), (labs[3],), (labs[5], labs[2], labs[7])]} for mm in (m, m2)]
    for c in pr: rec.check(all(abs(pr[c][k] - pr2[c][k]) < 1e-7 for k in pr[c]), "the RB gauge changed a probability", c)
    inf = np.mean([1 - np.trace(np.asarray(m2.operations[l].todense()) @ tops[l].T) / 4 for l in labs]); want = rbtheory.predicted_RB_number(m, t)
    rec.check(abs(inf - want) < 1e-6, "mean infidelity in the RB gauge is not the RB number", inf, want)
    rec.nt()


# ---- data quantities
def b_st(tier):
    circ = st.fixed_dictionaries({"len": st.integers(0, 4), "ideal": st.integers(0, 3), "cnt": st.lists(st.integers(0, 40), min_size=4, max_size=4)})
    return st.fixed_dictionaries({"n": st.integers(1, 2), "depths": st.lists(st.integers(0, 12), min_size=1, max_size=4, unique=True).map(sorted), "circs": st.lists(st.lists(circ, min_size=1, max_size=3), min_size=4, max_size=4),
                                  "stat": st.sampled_from(["max", "mean", "min", "dist"]), "dt": st.sampled_from(["success_probabilities", "adjusted_success_probabilities", "success_counts", "total_counts"]), "sub": st.booleans(), "resc": st.sampled_from(["auto", "none"]), "perm": seeds})


def bitstr(i, n): return format(i % 2**n, "0%db" % n)


def mk_data(n, depths, circs):
    lines = ["Q%d" % i for i in range(n)]; lists, ideal, ds, tab = [], [], DataSet(outcomeLabels=[(bitstr(i, n),) for i in range(2**n)]), []
    k = 0
    for d, cs in zip(depths, circs):
        lists.append([]); ideal.append([]); tab.append([])
        for c in cs:
            k += 1; ci = Circuit([("Gxpi2", "Q0")] * k + [("Gypi2", "Q0")] * (c["len"] + d), line_labels=tuple(lines)); lists[-1].append(ci); ideal[-1].append((bitstr(c["ideal"], n),))
            cnt = {bitstr(i, n): c["cnt"][i] for i in range(2**n) if c["cnt"][i] > 0 or c.get("keep")}
            if not cnt: cnt = {bitstr(0, n): 1}
            ds.add_count_dict(ci, {(b,): v for b, v in cnt.items()}); tab[-1].append((bitstr(c["ideal"], n), cnt, ci))
    return rb.BenchmarkingDesign(depths, lists, ideal, qubit_labels=tuple(lines)), ds, tab


def stats_of(ideal, cnt):
    tot = sum(cnt.values()); h = [0] * (len(ideal) + 1)
    for b, v in cnt.items(): h[sum(x != y for x, y in zip(b, ideal))] += v
    return {"success_counts": cnt.get(ideal, 0), "total_counts": tot, "success_probabilities": cnt.get(ideal, 0) / tot, "hamming_distance_counts": h, "adjusted_success_probabilities": sum((-0.5)**k * v / tot for k, v in enumerate(h))}


def close(a, b): return np.allclose(np.asarray(a, float), np.asarray(b, float), atol=1e-6)


@facet(b_st(0), quick=100, rule="two qubits and more than one depth")
def summaries(case, rec):
    n = case["n"]; des, ds, tab = mk_data(n, case["depths"], case["circs"]); ds.done_adding_data(); data = ProtocolData(des, ds)
    ref = {d: [stats_of(i, c) for i, c, _ in row] for d, row in zip(case["depths"], tab)}
    sm = rb.VolumetricBenchmark().compute_summary_data(data)
    for k in ("success_counts", "total_counts", "success_probabilities", "hamming_distance_counts", "adjusted_success_probabilities"):
        rec.check(list(sm[k].keys()) == case["depths"], "depths of summary data")
        for d in case["depths"]: rec.check(close(sm[k][d], [x[k] for x in ref[d]]), "summary data", k, d, [list(np.atleast_1d(x)) for x in sm[k][d]], [x[k] for x in ref[d]])
    cd = rb.VolumetricBenchmark().compute_circuit_data(data)
    for d, row in zip(case["depths"], tab):
        rec.check([int(x) for x in cd["depth"][d]] == [c.depth() for _, _, c in row] and list(cd["width"][d]) == [n] * len(row) and list(cd["circuit_index"][d]) == list(range(len(row))) and [tuple(x) for x in cd["target"][d]] == [(i,) for i, _, _ in row], "per-circuit data", d)
    for row in tab:
        for i, cnt, c in row:
            dsr = ds[c]
            for qs in ([("Q0",)] + ([("Q0", "Q1"), ("Q1",), ("Q1", "Q0")] if n == 2 else [])):
                ix = [int(q[1]) for q in qs]; mk = lambda b: "".join(b[j] for j in ix)
                want = sum(v for b, v in cnt.items() if mk(b) == mk(i)); got = rbtools.marginalized_success_counts(dsr, c, i, qs)
                rec.check(abs(got - want) < 1e-6, "marginalized success counts", qs, got, want)
                h = [0] * (len(qs) + 1)
                for b, v in cnt.items(): h[sum(x != y for x, y in zip(mk(b), mk(i)))] += v
                rec.check(close(rbtools.marginalized_hamming_distance_counts(dsr, c, i, qs), h), "marginalized Hamming-distance counts", qs)
            h = stats_of(i, cnt); rec.check(abs(rbtools.adjusted_success_probability([x / h["total_counts"] for x in h["hamming_distance_counts"]]) - h["adjusted_success_probabilities"]) < 1e-9, "adjusted_success_probability")
    # volumetric statistics
    dep = case["depths"] if not case["sub"] else [d for d in case["depths"] if d % 2 == 0] + [77]
    vbp = rb.VolumetricBenchmark(depths="all" if not case["sub"] else dep, datatype=case["dt"], statistic=case["stat"], rescaler=case["resc"])
    res = vbp.run(ProtocolData(des, ds)); fn = {"max": max, "mean": np.mean, "min": min, "dist": list}[case["stat"]]
    used = [d for d in case["depths"] if d in dep]
    rec.check(sorted(res.volumetric_benchmarks.keys()) == sorted(used) and sorted(res.failure_counts.keys()) == sorted(used), "depths of the benchmark", sorted(res.volumetric_benchmarks.keys()), used)
    for d in used:
        v = np.array([x[case["dt"]] for x in ref[d]], float)
        if case["resc"] == "auto" and case["dt"] == "success_probabilities": v = (v - 1 / 2**n) / (1 - 1 / 2**n)
        rec.check(close(res.volumetric_benchmarks[d][n], fn(v)), "volumetric benchmark", case["stat"], case["dt"], d, str(res.volumetric_benchmarks[d][n]), list(v))
        rec.check(tuple(res.failure_counts[d][n]) == (len(v), 0), "failure counts")
    # comparison of two data sets, circuit by circuit
    g = rng(case["perm"]); ds2 = DataSet(outcomeLabels=[(bitstr(i, n),) for i in range(2**n)])
    for row in tab:
        for i, cnt, c in row: ds2.add_count_dict(c, {(b,): int(v + g.randint(5)) for b, v in cnt.items()})
    ds2.done_adding_data(); cmp = DataComparator([ds, ds2]);
    dc = rb.VolumetricBenchmark(dscomparator=cmp).compute_dscmp_data(ProtocolData(des, ds), cmp)
    for nm, src in (("tvds", cmp.tvds), ("pvals", cmp.pVals), ("jsds", cmp.jsds), ("llrs", cmp.llrs)):
        for d, row in zip(case["depths"], tab): rec.check(np.allclose([float(x) for x in dc[nm][d]], [float(src[c]) for _, _, c in row], equal_nan=True), "comparison data", nm, d)
    rec.nt(n == 2 and len(case["depths"]) > 1)


@facet(st.fixed_dictionaries({"n": st.integers(1, 2), "p": st.floats(0.6, 0.97), "dA": st.floats(-0.03, 0.1), "b": st.floats(0.4, 0.95), "lens": st.lists(st.integers(0, 30), min_size=5, max_size=8, unique=True).map(sorted), "rtype": st.sampled_from(["EI", "AGI"]), "adj": st.booleans(),
                              "asym": st.booleans(), "boot": st.sampled_from([0, 0, 2]), "sub": st.booleans(), "nc": st.integers(1, 3), "seed": seeds}), quick=60, rule="fit of a subset of depths, with bootstraps, or of adjusted probabilities")
def protocol(case, rec):
    n, p = case["n"], case["p"]; L = case["lens"]; adj = case["adj"]; A0 = 1 / 4**n if adj else 1 / 2**n; g = rng(case["seed"])
    use = L if not case["sub"] else L[1:]
    if p**use[0] - p**use[-1] < 0.25 or p**use[-1] > 0.75 or len(use) < 5 or sum(p**m > 0.05 for m in use) < 3: rec.skip("decay not resolved by these lengths"); return
    A = max(A0 + case["dA"], 0.02); B = case["b"] * (1 - A); NN = 10**6; circs = []
    for d in L:
        off = g.uniform(-0.02, 0.02, case["nc"]); off -= off.mean(); row = []
        for o in off:
            f = A + B * p**d + o; f = min(max(f, 0), 1); i = int(g.randint(2**n))
            q = (f + 0.5) / 1.5 if adj else f   # weight on the ideal string; the rest one bit away
            cnt = [0] * 4; cnt[i] = int(round(q * NN)); cnt[i ^ 1] = NN - cnt[i]; row.append({"len": 0, "ideal": i, "cnt": cnt, "keep": False})
        circs.append(row)
    if any(A + B * p**d + 0.04 > 1 for d in L): rec.skip("probability above one"); return
    des, ds, tab = mk_data(n, L, circs); ds.done_adding_data(); data = ProtocolData(des, ds)
    P = rb.RandomizedBenchmarking(datatype="adjusted_success_probabilities" if adj else "success_probabilities", asymptote=A if case["asym"] else "std", rtype=case["rtype"], bootstrap_samples=case["boot"], depths=use if case["sub"] else "all")
    with np.errstate(all="ignore"): res = P.run(data)
    rec.check(list(res.depths) == use, "depths used by the analysis", list(res.depths), use)
    e = res.fits["full"].estimates; d_ = 2**n
    rec.check(abs(e["p"] - p) < 1e-3 and abs(e["A"] - A) < 1e-2 and abs(e["B"] - B) < 1e-2, "benchmark fit did not return the decay in the data", e, (A, B, p))
    rec.check(abs(e["r"] - rate(e["p"], d_, case["rtype"])) < 1e-9, "error rate of the benchmark", e["r"], rate(e["p"], d_, case["rtype"]), case["rtype"])
    f = res.fits["A-fixed"].estimates; rec.check(abs(f["A"] - (A if case["asym"] else A0)) < 1e-12, "fixed asymptote", f["A"])
    if case["asym"]: rec.check(abs(f["p"] - p) < 1e-3 and abs(f["r"] - rate(p, d_, case["rtype"])) < 1e-3, "fixed-asymptote benchmark fit", f, p)
    if case["boot"]:
        bs = res.fits["full"].bootstraps; rec.check(len(bs["p"]) + round(res.fits["full"].bootstraps_failrate * case["boot"]) == case["boot"], "number of bootstraps")
        for a, b in zip(bs["p"], bs["r"]): rec.check(abs(b - rate(a, d_, case["rtype"])) < 1e-9, "error rate of a bootstrap")
        # every circuit within 0.02 of the mean: so is every bootstrap's estimate of the curve
    rec.nt(case["sub"] or bool(case["boot"]) or adj)


# ---- phase estimation
def wrap(x): return (x + np.pi) % (2 * np.pi) - np.pi


@facet(st.fixed_dictionaries({"th": st.floats(0, 6.28), "lens": st.lists(st.floats(1.05, 2.0), min_size=1, max_size=7), "vis": st.floats(0.4, 1.0), "err": st.lists(st.floats(-1.0, 1.0), min_size=8, max_size=8), "multi": st.booleans()}), quick=120, rule="at least three generations with raw-angle errors")
def phases(case, rec):
    Ls = [1]
    for f in case["lens"]:
        nx = max(Ls[-1] + 1, int(Ls[-1] * f))
        if nx <= 2 * Ls[-1]: Ls.append(nx)
    th = case["th"]; G_ = Circuit(["Gxpi2:Q0"], line_labels=("Q0",)) if False else Circuit([("Gxpi2", "Q0")]); prep = Circuit([("Gypi2", "Q0")]); ms, mc = Circuit([("Gypi2", "Q0")]), Circuit([("Gzpi2", "Q0")])
    pos, neg = (["00", "11"], ["01", "10"]) if case["multi"] else (["0"], ["1"])
    des = rpe.RobustPhaseEstimationDesign(G_, Ls, prep, ms, pos, neg, prep, mc, pos, neg); ds = DataSet(outcomeLabels=pos + neg); NN = 10**6; errs = []
    for k, (L, s, c) in enumerate(zip(Ls, *des.circuit_lists)):
        e = case["err"][k] * np.pi / 3 * 0.98; errs.append(e); ph = L * th + e
        for ci, v in ((s, np.sin(ph)), (c, np.cos(ph))):
            a = int(round(NN * (1 + case["vis"] * v) / 2)); d = {pos[0]: a, neg[0]: NN - a}
            if case["multi"]: d = {pos[0]: a // 3, pos[1]: a - a // 3, neg[0]: (NN - a) // 4, neg[1]: NN - a - (NN - a) // 4}
            ds.add_count_dict(ci, d)
    ds.done_adding_data(); res = rpe.RobustPhaseEstimation().run(ProtocolData(des, ds))
    est = [float(x) for x in res.angle_estimates]
    for L, e, x in zip(Ls, errs, est): rec.check(abs(wrap(x - th - e / L)) < 1e-4, "phase estimate at length %d is not on the guaranteed branch" % L, x, th + e / L)
    rec.check(abs(float(res.angle_estimate) - est[-1]) < 1e-12, "final estimate")
    ra = res.raw_angles
    rec.check(list(ra) == Ls and all(abs(wrap(ra[L] - L * th - e)) < 1e-4 for L, e in zip(Ls, errs)), "raw angles")
    mcnt = res.measured_counts; rec.check(list(mcnt) == Ls and all(int(sum(mcnt[L])) == 2 * NN for L in Ls), "measured counts")
    rec.nt(len(Ls) >= 3 and any(abs(e) > 0.05 for e in errs))


@facet(st.fixed_dictionaries({"a": st.floats(-0.35, 0.35), "e": st.floats(-0.35, 0.35), "aux": st.sampled_from([0, 0.05, 0.1]), "dep": st.floats(0, 0.01), "spam": st.floats(0, 0.03), "log": st.integers(1, 6), "wid": st.booleans(), "cfg": st.sampled_from(["00", "UpDn"])}), quick=40, rule="non-zero over-rotations with depolarization")
def rpe_sets(case, rec):
    cfg = CFG00 if case["cfg"] == "00" else CFGUD; a, e = np.pi / 2 + case["a"], np.pi / 2 + case["e"]; aux = case["aux"] if case["wid"] else 0
    m = rcons.make_parameterized_rpe_gate_set(a, e, aux, case["spam"], gateDepol=case["dep"], withId=case["wid"], rpeconfig_inst=cfg)
    D = rcons.make_rpe_angle_string_list_dict(case["log"], cfg); ks = [2**i for i in range(case["log"] + 1)]
    ds = rcons.make_rpe_data_set(m, D, 10**6, sampleError="none"); r = rpetools.analyze_rpe_data(ds, m, D, cfg, True, ks)
    rec.check(len(r["alphaHatList"]) == len(ks), "one estimate per length")
    for nm, tru in (("alpha", a), ("epsilon", e)):
        if nm == "epsilon" and aux: continue
        for k, x in zip(ks, r[nm + "HatList"]): rec.check(abs(wrap(x - tru)) <= np.pi / (2 * k), "estimate of %s outside its guaranteed interval" % nm, k, x, tru)
        rec.check(np.allclose(r[nm + "ErrorList"], [abs(tru - x) for x in r[nm + "HatList"]], atol=1e-9), "error list")
        C = r[nm + "CheckMat"]
        for i in range(len(ks)):
            for j in range(i, len(ks)): 
                dd = abs(wrap(r[nm + "HatList"][i] - r[nm + "HatList"][j]))
                if abs(dd - np.pi / (2 * ks[i])) > 1e-6: rec.check(C[i, j] == (1.0 if dd <= np.pi / (2 * ks[i]) else 0.0), "consistency check", i, j)
    rec.nt(abs(case["a"]) > 0.05 and case["dep"] > 0)
