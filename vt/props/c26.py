"""C26: drift and idle-tomography analyses recover what generated the data."""
TECH = "Hypothesis: generated Pauli operators, states, time series, frequencies, significances and idle error models; Pauli arithmetic compared with matrices, transforms with explicitly summed cosines, idle-tomography rates with the rates of an independent dense simulation"
NOTE = "Generated-input search: Pauli objects on <= 3 qubits, series of <= 40 points, idle error models on 1-2 qubits with rates small enough that second order stays below the tolerance. The Lomb-Scargle transform (astropy is not installed), drift reports and time-resolved models are not exercised."
import collections, warnings
import numpy as np
import scipy.linalg as sla
import scipy.stats as ss
from hypothesis import strategies as st
from vt import facet, models as M
from vt.gen import *
import pygsti
from pygsti.objects import DataSet, Circuit
warnings.simplefilter("ignore")
from pygsti.extras import idletomography as idt
from pygsti.extras.idletomography import pauliobjs as pb, idtcore, idttools
from pygsti.extras.drift import signal as sg

PM = {"I": np.eye(2), "X": np.array([[0, 1], [1, 0]]), "Y": np.array([[0, -1j], [1j, 0]]), "Z": np.diag([1, -1])}


def mat(s):
    A = np.eye(1)
    for c in s: A = np.kron(A, PM[c])
    return A


def rho(s):
    A = np.eye(1)
    for c, g in zip(s.rep, s.signs): A = np.kron(A, (np.eye(2) + g * PM[c]) / 2)
    return A


# ------------------------------------------------------------------------------------ Pauli objects
pq = st.integers(1, 3).flatmap(lambda n: st.fixed_dictionaries({"a": st.text("IXYZ", min_size=n, max_size=n), "b": st.text("IXYZ", min_size=n, max_size=n), "sa": st.sampled_from([1, -1]), "sb": st.sampled_from([1, -1]), "st": st.text("XYZ", min_size=n, max_size=n), "sg": st.lists(st.sampled_from([1, -1]), min_size=n, max_size=n), "m": st.text("XYZ", min_size=n, max_size=n), "mg": st.lists(st.sampled_from([1, -1]), min_size=n, max_size=n), "idx": st.lists(st.integers(0, n - 1), unique=True, max_size=n), "e": st.integers(0, 62)}))


@facet(pq, quick=900, rule="two qubits or more and the operators do not commute")
def paulis(case, rec):
    n = len(case["a"]); a, b = pb.NQPauliOp(case["a"], case["sa"]), pb.NQPauliOp(case["b"], case["sb"]); A, B = case["sa"] * mat(case["a"]), case["sb"] * mat(case["b"]); d = 2**n
    com = np.allclose(A @ B, B @ A); rec.nt(n > 1 and not com)
    rec.check(a.commuteswith(b) == com, "commuteswith", case["a"], case["b"])
    rec.check(a.dot(b) == round(np.trace(A @ B).real / d), "dot", a.dot(b))
    rec.check(((a == b) == np.array_equal(A, B)) and (a != b or hash(a) == hash(b)), "equality")
    c = a.icommutatorOver2(b); C = 1j * (A @ B - B @ A) / 2
    if com: rec.check(c is None, "commutator of commuting operators", c)
    else: rec.check(np.allclose(c.sign * mat(c.rep), C), "i[a,b]/2", str(a), str(b), str(c))
    s = pb.NQPauliState(case["st"], tuple(case["sg"])); R = rho(s)
    rec.check(abs(a.statedot(s) - np.trace(A @ R).real) < 1e-12, "statedot", str(a), str(s), a.statedot(s))
    sub = a.subpauli(case["idx"]); rec.check(sub.rep == "".join(x if i in case["idx"] else "I" for i, x in enumerate(case["a"])), "subpauli", sub.rep)
    # first-order effect of every error on every preparation, observable and outcome
    errs = idttools.allerrors(n, 2 if n > 1 else 1); want = [p for p in M.paulis(n)[1:] if sum(x != "I" for x in p) <= 2]
    rec.check(sorted(e.rep for e in errs) == sorted(want), "allerrors")
    e = errs[case["e"] % len(errs)]; P = mat(e.rep); obs = pb.NQPauliOp(case["m"]); m = pb.NQPauliState(case["m"], tuple(case["mg"]))
    for o in idttools.allobservables(m, 2 if n > 1 else 1):
        O = mat(o.rep); rec.check(abs(idtcore.hamiltonian_jac_element(s, e, o) - np.trace(O @ (-0.5j * (P @ R - R @ P))).real) < 1e-12, "Hamiltonian element", str(s), str(e), str(o), idtcore.hamiltonian_jac_element(s, e, o))
    m = pb.NQPauliState(case["st"], tuple(case["mg"])); exp = "".join("0" if x == y else "1" for x, y in zip(s.signs, m.signs))
    fl = lambda w: {"".join(c if i not in w else "10"[int(c)] for i, c in enumerate(exp)) for w in [w]}.pop()
    outs = idttools.alloutcomes(s, m, 2 if n > 1 else 1); ref = [fl((i,)) for i in range(n)] + ([fl((i, j)) for i in range(n) for j in range(i + 1, n)] if n > 1 else [])
    rec.check([o.rep for o in outs] == ref, "alloutcomes", [o.rep for o in outs], ref)
    E = {}
    for k in range(2**n):
        w = np.binary_repr(k, n); A_ = np.eye(1)
        for c, g, bit in zip(m.rep, m.signs, w): A_ = np.kron(A_, (np.eye(2) + (g if bit == "0" else -g) * PM[c]) / 2)
        E[w] = A_
    got = idtcore.stochastic_outcome(s, e, m); pr = {w: np.trace(x @ P @ R @ P).real for w, x in E.items()}
    rec.check(abs(pr[got.rep] - 1) < 1e-9, "stochastic_outcome", got.rep, pr)
    for o in outs:
        rec.check(idtcore.stochastic_jac_element(s, e, m, o) == round(pr[o.rep]), "stochastic element")


# ------------------------------------------------------------------------------------ transforms and thresholds
sers = st.fixed_dictionaries({"n": st.integers(2, 40), "counts": st.sampled_from([1, 1, 5, 100]), "kind": st.sampled_from(["random", "cosine", "constant", "edge"]), "null": st.sampled_from(["auto", "scalar", "array"]), "s": seeds, "t0": st.sampled_from([0.0, 3.5]), "dt": st.sampled_from([1.0, 0.25])})


@facet(sers, quick=600, rule="the series is not constant")
def spectra(case, rec):
    n, N = case["n"], case["counts"]; r = rng(case["s"]); k0 = int(r.randint(1, max(2, n)))
    x = {"random": lambda: r.binomial(N, 0.5, n), "cosine": lambda: N * (0.5 + 0.3 * np.cos(np.pi * k0 * (np.arange(n) + 0.5) / n)), "constant": lambda: np.full(n, N // 2 + (N == 1)), "edge": lambda: np.zeros(n)}[case["kind"]](); x = np.asarray(x, float); x0 = x.copy(); mean = x.mean() / N
    null = {"auto": None, "scalar": 0.3, "array": 0.2 + 0.5 * r.rand(n)}[case["null"]]; rec.nt(len(set(x)) > 1)
    C = np.array([np.sqrt((1 if k == 0 else 2) / n) * np.cos(np.pi * k * (np.arange(n) + 0.5) / n) for k in range(n)])
    F = np.exp(-2j * np.pi * np.outer(np.arange(n), np.arange(n)) / n) / np.sqrt(n)
    dead = null is None and (mean <= 0 or mean >= 1); p = mean if null is None else null
    tms = case["t0"] + case["dt"] * np.arange(n)
    for name, T in (("dct", C), ("dft", F)):
        f, modes, pw = sg.spectrum(x, tms, null, N, transform=name)
        rec.check(np.allclose(f, np.arange(n) / (2 * case["dt"] * n)), "frequencies", f[:3])
        if dead: ref = np.ones(n); ref[0] = 0
        else: ref = T @ ((x - N * p) / np.sqrt(N * p * (1 - p)))
        rec.check(np.allclose(modes, ref, atol=1e-9), name, "modes", modes[:4], ref[:4]); rec.check(np.allclose(pw, np.abs(ref)**2, atol=1e-9), name, "powers")
        if not dead:
            pn = p * np.ones(n); back = (sg.idct if name == "dct" else sg.idft)(modes, pn, N); rec.check(np.allclose(back, x, atol=1e-8 * N), name, "inverse", back[:3], x[:3])
            m2, p2 = sg.spectrum(x, tms, null, N, transform=name, returnfrequencies=False); rec.check(np.array_equal(m2, modes) and np.array_equal(p2, pw), "without frequencies")
    rec.check(np.array_equal(x, x0), "the series changed")
    # filters and amplitudes
    mf = int(r.randint(0, n)); keep = C @ x; keep[mf + 1:] = 0; rec.check(np.allclose(sg.lowpass_filter(x, mf), C.T @ keep, atol=1e-9 * N), "low-pass filter", mf)
    w = int(r.randint(1, n + 1)); mv = sg.moving_average(x, w)
    ref = []
    for i in range(n):
        lo = i - (w - 1) + (w - 1) // 2; idx = [j for j in range(lo, lo + w) if 0 <= j < n]; ref.append(np.mean(x[idx]))
    rec.check(np.allclose(mv, ref, atol=1e-9 * N), "moving average of width", w, mv[:4], ref[:4])
    y = np.asarray(x) / N * 1.4 - 0.2; q = sg.renormalizer(y, "sharp"); rec.check(np.array_equal(q, np.clip(y, 0, 1)), "sharp renormalizer")
    if 0.02 < y.mean() < 0.98:
        q = sg.renormalizer(y, "logistic"); rec.check(q.min() >= -1e-12 and q.max() <= 1 + 1e-12 and np.all(np.diff(q[np.argsort(y)]) >= -1e-12), "logistic renormalizer", q.min(), q.max())
    fi = sorted(set(r.randint(0, n, 3).tolist())); am = sg.amplitudes_at_frequencies(fi, {"0": x})["0"]
    for k, a in zip(fi, am): rec.check(abs(a - (np.mean(x) if k == 0 else 2 * np.mean(x * np.cos(np.pi * k * (np.arange(n) + 0.5) / n)))) < 1e-8 * N, "amplitude at", k, a)


@facet(st.fixed_dictionaries({"sig": st.sampled_from([0.05, 0.01, 0.3]), "tests": st.integers(1, 200), "dof": st.integers(1, 50), "s": seeds, "power": st.floats(0, 8)}), quick=300, rule="several tests")
def thresholds(case, rec):
    a, m, d, x = case["sig"], case["tests"], case["dof"], case["power"]; rec.nt(m > 1)
    t = sg.power_significance_threshold(a, m, d); rec.check(abs(ss.chi2.sf(t * d, d) - a / m) < 1e-9, "threshold", t)
    rec.check(abs(sg.power_to_pvalue(x, d) - ss.chi2.sf(x * d, d)) < 1e-9, "p-value"); rec.check(abs(sg.maxpower_pvalue(x, m + 1, d) - (1 - ss.chi2.cdf(x * d, d)**m)) < 1e-9, "p-value of the largest power")
    q = sg.power_significance_quasithreshold(a, m, d); rec.check(len(q) == m and all(abs(ss.chi2.sf(v * d, d) - (m - i) * a / m) < 1e-9 for i, v in enumerate(q)), "Benjamini-Hochberg thresholds")


# ------------------------------------------------------------------------------------ idle tomography
prepDict = {"X": ("Gy",), "Y": ("Gx",) * 3, "Z": (), "-X": ("Gy",) * 3, "-Y": ("Gx",), "-Z": ("Gx", "Gx")}
measDict = {"X": ("Gy",) * 3, "Y": ("Gx",), "Z": (), "-X": ("Gy",), "-Y": ("Gx",) * 3, "-Z": ("Gx", "Gx")}
U1 = {"Gx": sla.expm(-0.25j * np.pi * PM["X"]), "Gy": sla.expm(-0.25j * np.pi * PM["Y"])}


@facet(st.fixed_dictionaries({"n": st.sampled_from([1, 1, 2]), "kinds": st.sampled_from(["H", "S", "HS"]), "s": seeds, "terms": st.integers(1, 5), "L": st.sampled_from([[0, 1, 2, 4], [1, 2, 4], [1, 3]]), "mw": st.sampled_from([1, 2]), "order": st.sampled_from([1, 1, 2])}), quick=120, rule="two kinds of errors or two qubits", case_s=120, shards=8)
def idle(case, rec):
    n = case["n"]; r = rng(case["s"]); mw = min(case["mw"], n); d = 2**n; rec.skip(case["order"] == 2 and len(case["L"]) < 3); rec.nt(n > 1 or len(case["kinds"]) > 1)
    errs = [p for p in M.paulis(n)[1:] if sum(x != "I" for x in p) <= mw]; t = collections.OrderedDict()
    for p in [errs[i] for i in r.permutation(len(errs))[:case["terms"]]]:
        if "H" in case["kinds"]: t[("H", p)] = 2e-5 * r.choice([-1, 1]) * (0.5 + r.rand())
        if "S" in case["kinds"]: t[("S", p)] = 2e-5 * (0.5 + r.rand())
    G = sla.expm(M.gen_of(dict(t), n).real)    # one idle layer (Pauli-product basis)
    Ps = [mat(p) for p in M.paulis(n)]; vec = lambda R: np.array([np.trace(P @ R).real for P in Ps]); unvec = lambda v: sum(c * P for c, P in zip(v, Ps)) / d
    kw = dict(include_hamiltonian="H" in case["kinds"], include_stochastic=True, include_affine=False)
    lst = idt.make_idle_tomography_list(n, case["L"], (prepDict, measDict), maxweight=mw, **kw); rec.check(len(set(lst)) == len(lst), "repeated experiments")
    outs = [np.binary_repr(k, n) for k in range(d)]; ds = DataSet(outcomeLabels=outs); N = 10.0**6
    for c in lst:
        R = np.zeros((d, d), complex); R[0, 0] = 1
        for i in range(c.depth()):
            comps = c[i].components if hasattr(c[i], "components") else (c[i],)
            comps = [x for x in comps if str(x.name) in U1] if not isinstance(c[i], str) else comps
            if not comps: R = unvec(G @ vec(R)); continue
            U = [np.eye(2)] * n
            for x in comps: q = x.sslbls[0] if x.sslbls else 0; U[q] = U1[x.name]
            V = np.eye(1)
            for u in U: V = np.kron(V, u)
            R = V @ R @ V.conj().T
        ds.add_count_dict(c, {o: N * R[k, k].real for k, o in enumerate(outs)})
    ds.done_adding_data()
    res = idt.do_idle_tomography(n, ds, case["L"], (prepDict, measDict), maxweight=mw, advancedOptions={"fit order": case["order"]}, **kw)
    labels = [e.rep for e in idttools.allerrors(n, mw)]
    for key, k in (("hamiltonian", "H"), ("stochastic", "S")):
        if key not in res.intrinsic_rates or not (kw["include_" + key]): continue
        for l, v in zip(labels, res.intrinsic_rates[key]): rec.check(abs(v - t.get((k, l), 0)) < 2e-7, key, l, "inferred", v, "put in", t.get((k, l), 0))
