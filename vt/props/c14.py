"""C14: metrics and error generators."""
TECH = "property-based testing: metrics of generated states, unitaries, channels, measurements and error generators compared with independent textbook formulas; round-trip and recovery relations for generators"
NOTE = "Generated-input search over states, unitaries, trace-preserving and completely positive maps of one or two qubits and a qutrit, in every named basis; diamond norms are decided where closed forms exist (unitaries, Pauli channels, measurements) and by bounds and invariances elsewhere."
import itertools, warnings
import numpy as np, scipy.linalg as spl, scipy.sparse as sps
from scipy.optimize import linprog, minimize_scalar
from hypothesis import strategies as st
from vt.runner import facet
from vt.gen import *
from vt import models as M
from vt.bases import ref_named, pmx, words_n
import pygsti
from pygsti.tools import optools as ot, lindbladtools as lt, basistools as bt, matrixtools as mt
from pygsti.objects import Basis
from pygsti.report import reportables as rp
warnings.simplefilter("ignore")


def psd_sqrt(m):
    w, v = np.linalg.eigh((m + m.conj().T) / 2); return (v * np.sqrt(w.clip(0))) @ v.conj().T


def fid(a, b): return np.linalg.svd(psd_sqrt(a) @ psd_sqrt(b), compute_uv=False).sum() ** 2
def tnorm(m): return np.linalg.svd(m, compute_uv=False).sum()
def kr(ks): return sum(np.kron(k, k.conj()) for k in ks)


def choi(S):
    """normalised Choi matrix of a superoperator on row-major vectorised matrices"""
    d2 = S.shape[0]; d = int(round(d2 ** .5)); J = np.zeros((d2, d2), complex)
    for i in range(d):
        for j in range(d):
            e = np.zeros((d, d)); e[i, j] = 1; J += np.kron(e, (S @ e.reshape(-1)).reshape(d, d)) / d
    return J


def tmat(nm, d): return np.array([np.asarray(e).reshape(-1) for e in ref_named(nm, d)[0]]).T
def to_b(S, nm, d): T = tmat(nm, d); r = np.linalg.solve(T, S @ T); return r if nm == "std" else r.real.copy()


def rand_state(kind, d, r):
    if kind == "pure": v = r.normal(size=d) + 1j * r.normal(size=d); v /= np.linalg.norm(v); return np.outer(v, v.conj())
    if kind == "basis": m = np.zeros((d, d), complex); i = r.randint(d); m[i, i] = 1; return m
    if kind == "mixed_id": return np.eye(d, dtype=complex) / d
    k = {"full": d, "rank2": min(2, d)}[kind]; g = r.normal(size=(d, k)) + 1j * r.normal(size=(d, k)); m = g @ g.conj().T; return m / np.trace(m).real


KINDS = ["pure", "pure", "basis", "mixed_id", "full", "full", "rank2"]


@st.composite
def state_cases(draw): return {"d": draw(st.sampled_from([2, 2, 3, 4])), "a": draw(st.sampled_from(KINDS)), "b": draw(st.sampled_from(KINDS + ["same"])), "seed": draw(seeds), "nm": draw(st.sampled_from(["pp", "gm"]))}


@facet(state_cases, quick=300, rule="the two states differ", case_s=20)
def states(case, rec):
    d = case["d"]; r = rng(case["seed"]); a = rand_state(case["a"], d, r); b = a.copy() if case["b"] == "same" else rand_state(case["b"], d, r)
    rec.nt(case["b"] != "same"); a0, b0 = a.copy(), b.copy(); tol = 2e-6 if "rank2" in (case["a"], case["b"]) else 1e-7
    F = ot.fidelity(a, b); rec.check(isinstance(F, float) and abs(F - fid(a, b)) < tol, "fidelity %r want %r" % (F, fid(a, b)))
    rec.check(abs(ot.fidelity(b, a) - F) < tol, "fidelity symmetric")
    U = M.rand_unitary(d, r); rot = lambda m: U @ m @ U.conj().T
    rec.check(abs(ot.fidelity(rot(a), rot(b)) - F) < tol, "fidelity unitarily invariant")
    D = ot.tracedist(a, b); rec.check(abs(D - tnorm(a - b) / 2) < 1e-9 and abs(ot.tracedist(b, a) - D) < 1e-9 and abs(ot.tracedist(rot(a), rot(b)) - D) < 1e-9, "trace distance")
    rec.check(1 - np.sqrt(max(F, 0)) - 1e-4 <= D <= np.sqrt(max(1 - F, 0)) + 2e-3, "Fuchs-van de Graaf")
    if case["b"] == "same": rec.check(abs(F - 1) < tol and D < 1e-12 and ot.frobeniusdist(a, b) == 0, "equal states")
    else: rec.check((F < 1 - 1e-12) == (np.linalg.norm(a - b) > 1e-6) or abs(F - 1) < 1e-6, "fidelity one only for equal states")
    ra, rb = np.array([a.real, a.imag]), np.array([b.real, b.imag])  # (documented as the sum of squares, so for real matrices)
    rec.check(np.isclose(ot.frobeniusdist(ra, rb), np.sqrt((abs(a - b) ** 2).sum())) and np.isclose(ot.frobeniusdist2(ra, rb), (abs(a - b) ** 2).sum()), "Frobenius distances")
    rec.check(np.allclose(ot.residuals(a, b), (a - b).reshape(-1)), "residuals")
    N = r.normal(size=(d, d)) + 1j * r.normal(size=(d, d)); rec.check(np.isclose(ot.tracenorm(N), tnorm(N)), "trace norm of a general matrix")
    H = N + N.conj().T; rec.check(np.isclose(ot.tracenorm(H), np.abs(np.linalg.eigvalsh(H)).sum()), "trace norm of a Hermitian matrix")
    nm = case["nm"] if d != 3 else "gm"; T = tmat(nm, d); va, vb = [np.linalg.solve(T, m.reshape(-1))[:, None] for m in (a, b)]
    if nm != "std": va, vb = va.real, vb.real
    rec.check(abs(rp.vec_fidelity(va, vb, nm) - fid(a, b)) < tol and abs(rp.vec_infidelity(va, vb, nm) - 1 + fid(a, b)) < tol, "state (in)fidelity of vectors")
    rec.check(abs(rp.vec_tr_diff(va, vb, nm) - tnorm(a - b) / 2) < 1e-9, "trace distance of vectors")
    rec.check(np.allclose(rp.vec_as_stdmx(va, nm), a) and np.allclose(sorted(np.real(rp.vec_as_stdmx_eigenvalues(va, nm))), np.linalg.eigvalsh(a), atol=1e-7), "vector as matrix and eigenvalues")
    if case["a"] in ("pure", "basis"):
        w, v = np.linalg.eigh(a); psi = v[:, -1]; dv = ot.state_to_dmvec(psi)
        rec.check(np.allclose(dv, a.reshape(-1)), "state_to_dmvec"); p2 = ot.dmvec_to_state(dv); rec.check(p2.shape == (d, 1) and np.allclose(p2 @ p2.conj().T, a), "dmvec_to_state")
    elif case["a"] in ("full", "mixed_id"):
        try: ot.dmvec_to_state(a.reshape(-1)); rec.check(False, "mixed state accepted as pure")
        except ValueError: pass
    rec.check(np.array_equal(a, a0) and np.array_equal(b, b0), "inputs changed")


def rand_map(kind, d, r, eps):
    if kind == "unitary": return np.kron(*(lambda u: (u, u.conj()))(M.rand_unitary(d, r)))
    if kind == "cptp": return kr(M.rand_kraus(d, r, eps))
    if kind == "near": U = M.rand_unitary(d, r); return kr([k @ U for k in M.rand_kraus(d, r, .05)])
    if kind == "ident": return np.eye(d * d, dtype=complex)
    if kind == "cp": return kr([(r.normal(size=(d, d)) + 1j * r.normal(size=(d, d))) / d for _ in range(2)])
    if kind == "depol": P = np.outer(np.eye(d).reshape(-1), np.eye(d).reshape(-1)) / d; return P + (1 - r.random() * .3) * (np.eye(d * d) - P) + 0j


MK = ["unitary", "unitary", "cptp", "near", "ident", "depol"]


@st.composite
def map_cases(draw):
    d = draw(st.sampled_from([2, 2, 3, 4]))
    return {"d": d, "a": draw(st.sampled_from(MK + ["cp"])), "b": draw(st.sampled_from(MK + ["same"])), "eps": draw(st.sampled_from([.01, .3, 1.])), "seed": draw(seeds),
            "nm": draw(st.sampled_from({2: ["pp", "gm", "std"], 3: ["gm", "qt", "std"], 4: ["pp", "gm", "std"]}[d])), "obj": draw(st.booleans())}


def best_pairing(ea, eb, w):
    from scipy.optimize import linear_sum_assignment
    C = np.array([[w(x, y) for y in eb] for x in ea]); return linear_sum_assignment(C) + (C,)


@facet(map_cases, quick=300, rule="the two maps differ", case_s=20)
def maps(case, rec):
    d, nm = case["d"], case["nm"]; r = rng(case["seed"]); A = rand_map(case["a"], d, r, case["eps"]); B = A.copy() if case["b"] == "same" else rand_map(case["b"], d, r, case["eps"])
    rec.nt(case["b"] != "same"); a, b = to_b(A, nm, d), to_b(B, nm, d); bs = Basis.cast(nm, d * d) if case["obj"] else nm
    JA, JB = choi(A), choi(B); rank = "cptp near depol cp".split(); tol = 1e-5; a0, b0 = a.copy(), b.copy()
    want = fid(JA, JB); F = ot.entanglement_fidelity(a, b, bs)
    rec.check(abs(F - want) < tol, "entanglement fidelity %r want %r" % (F, want)); rec.check(abs(np.real(ot.entanglement_fidelity(b, a, bs)) - want) < tol, "symmetric")
    if case["b"] in ("unitary", "ident"): rec.check(abs(F - np.trace(np.linalg.inv(B) @ A).real / d ** 2) < 1e-8, "fidelity with a unitary is the trace formula")
    rec.check(abs(ot.entanglement_infidelity(a, b, bs) - 1 + want) < tol and abs(rp.entanglement_infidelity(a, b, bs) - 1 + want) < tol and abs(rp.entanglement_fidelity(a, b, bs) - want) < tol, "entanglement infidelity")
    ag = (d * want + 1) / (d + 1)
    rec.check(abs(ot.average_gate_fidelity(a, b, bs) - ag) < tol and abs(ot.average_gate_infidelity(a, b, bs) - 1 + ag) < tol and abs(rp.avg_gate_infidelity(a, b, bs) - 1 + ag) < tol, "average gate (in)fidelity")
    j = tnorm(JA - JB) / 2; rec.check(abs(ot.jtracedist(a, b, bs) - j) < 1e-8 and abs(ot.jtracedist(b, a, bs) - j) < 1e-8 and abs(rp.jt_diff(a, b, bs) - j) < 1e-8, "Jamiolkowski trace distance")
    if nm != "std": rec.check(np.isclose(rp.fro_diff(a, b, bs), np.linalg.norm(A - B)), "Frobenius difference")
    if case["b"] == "same" and case["a"] != "cp": rec.check(abs(F - 1) < tol and ot.jtracedist(a, b, bs) < 1e-12, "equal maps")
    # a common unitary before and after changes nothing
    V, W = rand_map("unitary", d, r, 0), rand_map("unitary", d, r, 0); a2, b2 = to_b(V @ A @ W, nm, d), to_b(V @ B @ W, nm, d)
    rec.check(abs(np.real(ot.entanglement_fidelity(a2, b2, bs)) - want) < tol and abs(ot.jtracedist(a2, b2, bs) - j) < 1e-8, "unitarily invariant")
    v = np.eye(d).reshape(-1) / np.sqrt(d); Q = np.eye(d * d) - np.outer(v, v)
    uni = lambda S: np.linalg.norm(Q @ S @ Q) ** 2 / (d * d - 1)
    if nm != "std" or True:
        rec.check(abs(np.real(ot.unitarity(a, bs)) - uni(A)) < 1e-8, "unitarity %r want %r" % (ot.unitarity(a, bs), uni(A)))
        if case["a"] in ("unitary", "ident"): rec.check(abs(ot.unitarity(a, bs) - 1) < 1e-8, "a unitary has unitarity one")
        u2 = uni(A @ np.linalg.inv(B)) if np.linalg.cond(B) < 1e6 else None
        if u2 is not None:
            rec.check(np.isclose(rp.std_unitarity(a, b, bs), u2), "relative unitarity")
            rec.check(np.isclose(rp.nonunitary_entanglement_infidelity(a, b, bs), (d * d - 1) / d ** 2 * (1 - np.sqrt(u2))) and np.isclose(rp.nonunitary_avg_gate_infidelity(a, b, bs), (d - 1) / d * (1 - np.sqrt(u2))), "non-unitary infidelities")
            lm = np.linalg.eigvals(A @ np.linalg.inv(B)); eu = ((abs(lm) ** 2).sum() - 1) / (d * d - 1)
            rec.check(np.isclose(rp.eigenvalue_unitarity(a, b), eu, atol=1e-7), "eigenvalue unitarity")
            if eu > 1e-6: rec.check(np.isclose(rp.eigenvalue_nonunitary_entanglement_infidelity(a, b, bs), (d * d - 1) / d ** 2 * (1 - np.sqrt(eu)), atol=1e-6) and np.isclose(rp.eigenvalue_nonunitary_avg_gate_infidelity(a, b, bs), (d - 1) / d * (1 - np.sqrt(eu)), atol=1e-6), "eigenvalue non-unitary infidelities")
            srt = lambda z: np.sort_complex(np.round(z, 6))
            if case["a"] in ("unitary",) and case["b"] == "unitary":
                for f in (rp.rel_eigvals, rp.rel_gate_eigenvalues): rec.check(match(f(a, b, bs), np.linalg.eigvals(np.linalg.inv(B) @ A)), "relative eigenvalues")
    ea, eb = np.linalg.eigvals(A), np.linalg.eigvals(B); i1, i2, C = best_pairing(ea, eb, lambda x, y: abs(x - y))
    rec.check(np.isclose(rp.eigenvalue_diamondnorm(a, b, bs), (d * d - 1) / d ** 2 * C[i1, i2].max(), atol=1e-5) or ambiguous(C), "eigenvalue diamond norm")
    ml = abs((eb[i2].conj() * ea[i1]).sum())
    if not ambiguous(C): rec.check(np.isclose(rp.eigenvalue_entanglement_infidelity(a, b, bs), 1 - ml / d ** 2, atol=1e-5) and np.isclose(rp.eigenvalue_avg_gate_infidelity(a, b, bs), (d * d - ml) / (d * (d + 1)), atol=1e-5), "eigenvalue infidelities")
    ev = np.linalg.eigvalsh((JA + JA.conj().T) / 2)
    rec.check(np.allclose(np.sort(np.real(rp.choi_evals(a, bs))), ev, atol=1e-7) and np.isclose(rp.choi_trace(a, bs), np.trace(JA)), "Choi eigenvalues and trace")
    rec.check(np.array_equal(a, a0) and np.array_equal(b, b0), "inputs changed")


def match(x, y):
    i, j, C = best_pairing(x, y, lambda p, q: abs(p - q)); return C[i, j].max() < 1e-6


def ambiguous(C):
    """another pairing is about as good as the best one"""
    from scipy.optimize import linear_sum_assignment
    i, j = linear_sum_assignment(C); best = C[i, j].sum()
    for k in range(len(i)):
        D = C.copy(); D[i[k], j[k]] += 1e3; p, q = linear_sum_assignment(D)
        if D[p, q].sum() < best + 1e-3 + .02 * best: return True
    return False


@st.composite
def dia_cases(draw): return {"kind": draw(st.sampled_from(["unitary", "unitary", "pauli", "mixed", "povm", "same"])), "d": draw(st.sampled_from([2, 2, 2, 3])), "seed": draw(seeds), "nm": draw(st.sampled_from(["pp", "gm"])), "near": draw(st.booleans())}


def hull_dist(z):
    """distance of the origin from the convex hull of points on the unit circle"""
    n = len(z); best = min(abs(z))
    for i, j in itertools.combinations(range(n), 2):
        p, q = z[i], z[j]; t = 0 if abs(p - q) < 1e-15 else np.clip(np.real(np.conj(p - q) * p) / abs(p - q) ** 2, 0, 1); best = min(best, abs(p + t * (q - p)))
    a = np.sort(np.angle(z)); gaps = np.diff(np.append(a, a[0] + 2 * np.pi))
    return 0. if gaps.max() <= np.pi + 1e-12 else best


@facet(dia_cases, quick=40, rule="the distance is not zero", case_s=60)
def diamond(case, rec):
    d, k, nm = case["d"], case["kind"], case["nm"] if case["d"] == 2 else "gm"; r = rng(case["seed"]); rec.nt(k != "same")
    if k == "povm":
        from pygsti.objects import ExplicitOpModel
        ms = []
        for _ in range(2):
            m = pygsti.construction.build_explicit_model([("Q0",)], ["Gi"], ["I(Q0)"], basis=nm)
            E = np.clip(r.random(2), 0, 1); U = M.rand_unitary(2, r); E0 = (U * E) @ U.conj().T; T = tmat(nm, 2)
            vs = [np.linalg.solve(T, x.reshape(-1)).real for x in (E0, np.eye(2) - E0)]; m.povms["Mdefault"] = pygsti.objects.UnconstrainedPOVM([("0", vs[0]), ("1", vs[1])]); ms.append((m, E0))
        (m1, E), (m2, F_) = ms; Es, Fs = (E, np.eye(2) - E), (F_, np.eye(2) - F_)
        w = np.abs(np.linalg.eigvalsh(E - F_)).max() * 2
        rec.check(abs(ot.povm_diamonddist(m1, m2, "Mdefault") - w) < 1e-4, "diamond distance of two-outcome measurements")
        rec.check(abs(ot.povm_jtracedist(m1, m2, "Mdefault") - sum(tnorm(e - f) for e, f in zip(Es, Fs)) / 4) < 1e-8, "Jamiolkowski distance of measurements")
        f = sum(np.linalg.svd(psd_sqrt(e / 2) @ psd_sqrt(f / 2), compute_uv=False).sum() for e, f in zip(Es, Fs)) ** 2
        rec.check(abs(ot.povm_fidelity(m1, m2, "Mdefault") - f) < 1e-5 and abs(rp.povm_entanglement_infidelity(m1, m2, "Mdefault") - 1 + f) < 1e-5, "fidelity of measurements"); return
    if k == "pauli" and d == 2:
        p, q = [x / x.sum() for x in (r.random(4), r.random(4))]; ch = lambda p: sum(x * np.kron(pmx(w), pmx(w).conj()) for x, w in zip(p, "IXYZ")); A, B, want = ch(p), ch(q), np.abs(p - q).sum()
    elif k in ("unitary", "pauli"):
        U = M.rand_unitary(d, r); V = U @ spl.expm(1j * .05 * (lambda g: g + g.conj().T)(r.normal(size=(d, d)) + 1j * r.normal(size=(d, d)))) if case["near"] else M.rand_unitary(d, r)
        A, B = np.kron(U, U.conj()), np.kron(V, V.conj()); want = 2 * np.sqrt(max(0, 1 - hull_dist(np.linalg.eigvals(U.conj().T @ V)) ** 2))
    elif k == "same": A = rand_map("cptp", d, r, .3); B = A.copy(); want = 0
    else: A, B, want = rand_map("cptp", d, r, .5), rand_map("near", d, r, .5), None
    a, b = to_b(A, nm, d), to_b(B, nm, d); D, W = ot.diamonddist(a, b, nm, return_x=True)
    if want is not None: rec.check(abs(D - want) < 2e-4, "diamond distance %r want %r" % (D, want))
    j = tnorm(choi(A) - choi(B)); rec.check(j - 1e-4 <= D <= min(2, d * j) + 1e-4, "diamond distance between its bounds")
    rec.check(abs(rp.half_diamond_norm(a, b, nm) - D / 2) < 1e-4, "half diamond norm")
    V = rand_map("unitary", d, r, 0); rec.check(abs(ot.diamonddist(to_b(V @ B, nm, d), to_b(V @ A, nm, d), nm) - D) < 2e-4, "symmetric and unitarily invariant")
    psi = rand_state("pure", d * d, r); J = np.zeros((d * d, d * d), complex)
    X = psi.reshape(d, d, d, d).transpose(0, 2, 1, 3).reshape(d * d, d * d); dif = ((A - B) @ X)  # the maps act on the first factor
    out = dif.reshape(d, d, d, d).transpose(0, 2, 1, 3).reshape(d * d, d * d); rec.check(tnorm(out) <= D + 1e-4, "an input distinguishes the maps better than the diamond norm allows")


@st.composite
def eg_cases(draw):
    return {"n": draw(st.sampled_from([1, 1, 2])), "typ": draw(st.sampled_from(["logG-logT", "logTiG", "logGTi"])), "target": draw(st.sampled_from(["unitary", "small", "ident", "clifford"])), "eps": draw(st.sampled_from([1e-3, .02, .1])), "seed": draw(seeds), "nm": draw(st.sampled_from(["pp", "gm"])), "kind": draw(st.sampled_from(["H", "S", "HSA", "HSA", "lind", "tp"]))}


def eg_of(kind, n, r, eps):
    """random error generator (row-major), with its parts"""
    d = 2 ** n; ws = words_n(n)[1:]; h = {}; s = {}; a = {}
    if "H" in kind or kind == "lind": h = {w: eps * r.normal() for w in ws}
    if "S" in kind: s = {w: eps * r.random() for w in ws}
    if "A" in kind: a = {w: eps * .3 * r.normal() for w in ws}
    L = np.zeros((d * d, d * d), complex); I = np.eye(d)
    for w, x in h.items(): P = pmx(w); L += x * -.5j * (np.kron(P, I) - np.kron(I, P.T))
    for w, x in s.items(): P = pmx(w); L += x * (np.kron(P, P.conj()) - np.eye(d * d))
    for w, x in a.items(): P = pmx(w); L += x / np.sqrt(d) * np.outer(P.reshape(-1), I.reshape(-1))
    C = None
    if kind == "lind":
        k = len(ws); g = r.normal(size=(k, k)) + 1j * r.normal(size=(k, k)); C = eps * g @ g.conj().T / k
        for i, u in enumerate(ws):
            for j, v in enumerate(ws):
                Li, Lj = pmx(u), pmx(v); Ld = Li.conj().T @ Lj; L += C[i, j] * (np.kron(Lj, Li.conj()) - .5 * (np.kron(Ld, I) + np.kron(I, Ld.T)))
    if kind == "tp":
        X = eps * r.normal(size=(d * d, d * d)); X[0] = 0; T = tmat("gm", d); L = T @ X @ np.linalg.inv(T)
    return L, h, s, a, C


def target_of(kind, d, r):
    if kind == "ident": return np.eye(d, dtype=complex)
    if kind == "clifford": return M.kron(*[(lambda g: g)([spl.expm(-1j * np.pi / 4 * pmx("X")), spl.expm(-1j * np.pi / 4 * pmx("Z")), spl.expm(-1j * np.pi / 2 * pmx("Y")), pmx("I")][r.randint(4)]) for _ in range(int(np.log2(d)))])
    g = r.normal(size=(d, d)) + 1j * r.normal(size=(d, d)); g = g + g.conj().T; return spl.expm(1j * g * (.4 / np.linalg.norm(g, 2) if kind == "small" else 1.3 / np.linalg.norm(g, 2)))


@facet(eg_cases, quick=200, rule="target is not the identity", case_s=30)
def generators(case, rec):
    n = case["n"]; d = 2 ** n; r = rng(case["seed"]); nm = case["nm"]; rec.nt(case["target"] != "ident"); typ = case["typ"]
    eps = case["eps"] / (1 if n == 1 else 4); L = eg_of(case["kind"], n, r, eps)[0]; U = target_of(case["target"], d, r); T = np.kron(U, U.conj())
    if typ == "logTiG": G = T @ spl.expm(L)
    elif typ == "logGTi": G = spl.expm(L) @ T
    else:
        ang = np.angle(np.linalg.eigvals(U)); gap = np.abs(ang[:, None] - ang[None, :]).max()
        H = -1j * spl.logm(U); lT = 1j * (np.kron(H, np.eye(d)) - np.kron(np.eye(d), H.T)); G = spl.expm(lT + L); T = spl.expm(lT)
        if case["target"] == "clifford" or gap > 2.8: rec.skip("target eigenvalues close to the branch cut")
    g, t, l = [to_b(x, nm, d) for x in (G, T, L)]; g0, t0 = g.copy(), t.copy()
    e = ot.error_generator(g, t, nm, typ); rec.check(np.isrealobj(e), "real generator")
    if typ != "logG-logT":
        rec.check(np.allclose(ot.operation_from_error_generator(e, t, typ), g, atol=1e-6), "operation rebuilt from its %s generator" % typ)
        rec.check(np.allclose(e, l, atol=1e-6), "%s generator differs from the one applied by %.2g" % (typ, abs(e - l).max()))
    else:  # documented to be a compromise between being a logarithm and being close to the target's
        lt_ = to_b(lT, nm, d); ob = lambda x: 10 * np.linalg.norm(x - lt_) ** 2 + np.abs(spl.expm(x) - g).sum()
        rec.check(ob(e + lt_) <= ob(spl.logm(g).real) + 1e-2, "compromise worse than the plain logarithm: %r > %r" % (ob(e + lt_), ob(spl.logm(g).real)))
    rec.check(np.allclose(ot.operation_from_error_generator(l, t, typ), g, atol=1e-7), "operation from the %s generator" % typ)
    rec.check(np.allclose(ot.error_generator(t, t, nm, typ), 0, atol=1e-7), "generator of a perfect operation")
    rec.check(np.array_equal(g, g0) and np.array_equal(t, t0), "inputs changed")
    f = {"logG-logT": rp.rel_logGmlogT_eigvals, "logTiG": rp.rel_logTiG_eigvals, "logGTi": rp.rel_logGTi_eigvals}[typ]
    if case["kind"] in ("H", "lind", "tp") and typ != "logG-logT": rec.check(match(f(g, t, nm), np.linalg.eigvals(l)), "eigenvalues of the generator")
    if n == 1 or case["seed"] % 3 == 0:
        f = {"logG-logT": rp.logGmlogT_and_projections, "logTiG": rp.logTiG_and_projections, "logGTi": rp.logGTi_and_projections}[typ]
        o = f(g, t, "pp") if nm == "pp" else None
        if o:
            rec.check(np.allclose(o["error generator"], e, atol=1e-6), "reported generator"); nrm = np.linalg.norm(e)
            for key, typ_ in (("hamiltonian", "H"), ("stochastic", "S"), ("affine", "A")):
                pr, gens, sc = ot.std_errgen_projections(e, key, "pp", "pp", True, True); rec.check(np.allclose(o[key + " projections"], pr, atol=1e-6), "reported %s projections" % key)
                prc = pr[1:] if key == "hamiltonian" else pr
                rec.check(np.isclose(o[key + " projection power"], ((pr / sc) ** 2).sum() / nrm ** 2, atol=1e-4), "%s projection power" % key)


@st.composite
def proj_cases(draw): return {"n": draw(st.sampled_from([1, 1, 2])), "kind": draw(st.sampled_from(["H", "S", "A", "HS", "SA", "lind", "lind"])), "seed": draw(seeds), "nm": draw(st.sampled_from(["pp", "gm", "std"])), "sparse": draw(st.booleans()), "norm": draw(st.booleans()), "mode": draw(st.sampled_from(["cptp", "unconstrained", "depol", "reldepol"])), "keep": draw(st.integers(1, 15))}


@facet(proj_cases, quick=200, rule="two kinds of term or off-diagonal terms", case_s=30)
def projections(case, rec):
    n = case["n"]; d = 2 ** n; r = rng(case["seed"]); nm = case["nm"]; k = case["kind"]; rec.nt(len(k) > 1); ws = words_n(n)[1:]
    L, h, s, a, C = eg_of(k, n, r, .1); l = to_b(L, nm, d); bs = Basis.cast("pp", d * d)
    B = [pmx(w) / np.sqrt(d) for w in ["I" * n] + ws]; I = np.eye(d)
    # the generators themselves
    w = r.randint(1, d * d); Q = B[w]; R = B[r.randint(1, d * d)]
    for sp in (False, True):
        arr = lambda x: x.toarray() if sps.issparse(x) else np.asarray(x); q = sps.csr_matrix(Q) if sp else Q; rr = sps.csr_matrix(R) if sp else R
        rec.check(np.allclose(arr(lt.hamiltonian_to_lindbladian(q, sp)), np.sqrt(d) / 2 * -1j * (np.kron(Q, I) - np.kron(I, Q.T))), "hamiltonian_to_lindbladian")
        rec.check(np.allclose(arr(lt.nonham_lindbladian(q, rr, sp)), d * (np.kron(R, Q.conj()) - .5 * (np.kron(Q.conj().T @ R, I) + np.kron(I, (Q.conj().T @ R).T)))), "nonham_lindbladian")
        rec.check(np.allclose(arr(lt.stochastic_lindbladian(q, sp)), d * np.kron(Q, Q.conj())), "stochastic_lindbladian")
        rec.check(np.allclose(arr(lt.affine_lindbladian(q, sp)), np.outer(Q.reshape(-1), I.reshape(-1))), "affine_lindbladian")
    # projections recover the coefficients
    hh, ss, aa = [np.array([x.get(w, 0.) for w in ws]) for x in (h, s, a)]
    pr = ot.std_errgen_projections(l, "hamiltonian", "pp", nm); rec.check(np.allclose(pr[1:], hh / 2, atol=1e-7), "Hamiltonian projections")  # coefficients of -i[P, rho]
    if k != "lind":
        pr = ot.std_errgen_projections(l, "stochastic", "pp", nm); rec.check(np.allclose(pr[1:], ss, atol=1e-7), "stochastic projections %s want %s" % (pr[1:], ss))
        pr, gens, sc = ot.std_errgen_projections(l, "affine", "pp", nm, True, True); rec.check(np.allclose(pr[1:], aa * np.sqrt(d), atol=1e-7), "affine projections %s want %s" % (pr[1:4], aa[:3]))
    pr, gens, sc = ot.std_errgen_projections(l, "hamiltonian", "pp", nm, True, True)
    if k == "H": rec.check(np.allclose(np.tensordot(pr, gens, (0, 0)), L), "projections times generators")
    # Lindblad-form projections
    m_ = "all" if k == "lind" else "diag_affine" if "A" in k else "diagonal"; sp = case["sparse"] and n == 1
    pb = Basis.cast("pp", d * d) if not sp else Basis.cast("pp", d * d, sparse=True); ll = sps.csr_matrix(l) if sp else l
    H, O = ot.lindblad_errgen_projections(ll, pb, pb, nm, normalize=False, other_mode=m_, sparse=sp)
    rec.check(np.allclose(np.real(H), hh, atol=1e-6) and np.allclose(np.imag(H), 0, atol=1e-6), "Lindblad Hamiltonian coefficients")
    want = C if m_ == "all" else np.array([ss, aa]) if m_ == "diag_affine" else ss
    rec.check(np.allclose(O, want, atol=1e-6), "Lindblad %s coefficients" % m_)
    HN, ON, hg, og = ot.lindblad_errgen_projections(l, "pp", "pp", nm, normalize=True, return_generators=True, other_mode=m_)
    tot = np.tensordot(HN, hg, (0, 0)) + (np.tensordot(ON, og, (0, 0)) if m_ == "diagonal" else np.tensordot(ON, og, ((0, 1), (0, 1))))
    rec.check(np.allclose(tot, L, atol=1e-6), "normalised coefficients times generators"); rec.check(np.allclose([np.linalg.norm(x) for x in hg], 1), "generators normalised")
    # coefficients <-> terms <-> parameters
    td, tb = ot.projections_to_lindblad_terms(H, O, bs, bs, m_); H2, O2, hb, ob = ot.lindblad_terms_to_projections(td, tb, m_)
    gen = lambda H, O, hb, ob: np.tensordot(H, ot.lindblad_error_generators(hb.elements, None, False, m_)[0], (0, 0)) + (lambda og: np.tensordot(O, og, (0, 0)) if m_ == "diagonal" else np.tensordot(O, og, ((0, 1), (0, 1))))(ot.lindblad_error_generators(None, ob.elements, False, m_)[1])
    rec.check(np.allclose(gen(H2, O2, hb, ob), L, atol=1e-6), "terms rebuilt into projections"); rec.check(len(td) == len(ws) + O.size and all(np.isclose(td[("H", w)], x) for w, x in zip(ws, hh)), "Lindblad terms")
    keep = [key for i, key in enumerate(td) if i % (case["keep"] % 5 + 1) == 0]; sub = {key: td[key] for key in keep}
    H3, O3, hb, ob = ot.lindblad_terms_to_projections(sub, tb, m_); g3 = np.zeros_like(L)
    if H3 is not None: g3 = g3 + np.tensordot(H3, ot.lindblad_error_generators(hb.elements, None, False, m_)[0], (0, 0))
    if O3 is not None: og = ot.lindblad_error_generators(None, ob.elements, False, m_)[1]; g3 = g3 + (np.tensordot(O3, og, (0, 0)) if m_ == "diagonal" else np.tensordot(O3, og, ((0, 1), (0, 1))))
    full = np.zeros_like(L); dd = dict(zip([""] + ws, B))
    for key, c in sub.items():
        P = pmx(key[1])
        if key[0] == "H": full += c * -.5j * (np.kron(P, I) - np.kron(I, P.T))
        elif key[0] == "A": full += c / np.sqrt(d) * np.outer(P.reshape(-1), I.reshape(-1))
        else: Pl = pmx(key[-1]); q = P.conj().T @ Pl; full += c * (np.kron(Pl, P.conj()) - .5 * (np.kron(q, I) + np.kron(I, q.T)))
    rec.check(np.allclose(g3, full, atol=1e-6), "a subset of Lindblad terms")
    pm = case["mode"] if m_ != "all" or case["mode"] in ("cptp", "unconstrained") else "cptp"
    Oin = np.array(O); Oin = Oin.real if m_ != "all" else Oin; cc = .03 + r.random() * .1
    if pm in ("depol", "reldepol"): (Oin if m_ == "diagonal" else Oin[0])[:] = cc * (-1 if pm == "reldepol" and case["keep"] % 2 else 1)
    H0, O0 = np.array(H).real.copy(), Oin.copy(); pv = ot.lindblad_projections_to_paramvals(np.array(H).real, Oin, pm, m_, truncate=True)
    H4, O4 = ot.paramvals_to_lindblad_projections(pv, d * d, d * d, pm, m_)
    rec.check(np.isrealobj(pv) and np.allclose(H4, H0, atol=1e-6) and np.allclose(O4, O0, atol=1e-6), "coefficients -> parameters -> coefficients (%s, %s)" % (pm, m_)); rec.check(np.array_equal(Oin, O0), "coefficients changed")
    if pm == "cptp" and m_ != "diag_affine":
        bad = -np.eye(len(ws)) * .1 if m_ == "all" else -np.ones(len(ws)) * .1
        try: ot.lindblad_projections_to_paramvals(np.array(H).real, bad, pm, m_, truncate=False); rec.check(False, "non-CPTP coefficients accepted without truncation")
        except AssertionError: pass
        pv = ot.lindblad_projections_to_paramvals(np.array(H).real, bad, pm, m_, truncate=True); rec.check(np.allclose(ot.paramvals_to_lindblad_projections(pv, d * d, d * d, pm, m_)[1], 0, atol=1e-6), "truncation of non-CPTP coefficients")


@st.composite
def rot_cases(draw): return {"ax": [[draw(st.integers(-3, 3)) for _ in range(3)] for _ in range(2)], "ang": [draw(st.floats(.1, 3.)) for _ in range(2)], "eps": draw(st.sampled_from([0, 0, .02])), "seed": draw(seeds), "n": draw(st.sampled_from([1, 1, 2])), "nm": draw(st.sampled_from(["pp", "gm"]))}


@facet(rot_cases, quick=150, rule="two different axes", case_s=40)
def rotations(case, rec):
    r = rng(case["seed"]); n = case["n"]; d = 2 ** n; nm = case["nm"]
    v = r.normal(size=d * d - 1); U = spl.expm(-.5j * sum(x * pmx(w) for x, w in zip(v, words_n(n)[1:]))); S = np.kron(U, U.conj())
    rec.check(np.allclose(ot.rotation_gate_mx(v, nm), to_b(S, nm, d)), "rotation_gate_mx"); rec.check(np.allclose(ot.unitary_to_process_mx(U), S) and np.allclose(ot.unitary_to_pauligate(U), to_b(S, "pp", d)), "process matrix of a unitary")
    V = ot.process_mx_to_unitary(S); rec.check(np.allclose(np.kron(V, V.conj()), S, atol=1e-7), "unitary of a process matrix")
    axs = [np.array(a, float) if any(a) else np.array([0, 0, 1.]) for a in case["ax"]]; axs = [a / np.linalg.norm(a) for a in axs]; ths = case["ang"]
    Us = [spl.expm(-.5j * t * sum(x * pmx(w) for x, w in zip(a, "XYZ"))) for a, t in zip(axs, ths)]; gs = [to_b(np.kron(u, u.conj()), "pp", 2) for u in Us]
    rec.nt(abs(axs[0] @ axs[1]) < .99)
    lam = 1 - case["eps"]; gs = [g @ np.diag([1, lam, lam, lam]) for g in gs]
    D = [ot.decompose_gate_matrix(g) for g in gs]
    for q, a, t in zip(D, axs, ths):
        rec.check(q["isValid"] and q["isUnitary"] == (case["eps"] == 0), "rotation not recognised: %s" % q["msg"])
        rec.check(abs(abs(q["pi rotations"]) - t / np.pi) < 1e-5, "rotation angle %r want %r" % (q["pi rotations"], t / np.pi)); ax = np.real(q["axis of rotation"])[1:]
        rec.check(abs(abs(ax @ a) - 1) < 1e-5 and abs(q["axis of rotation"][0]) < 1e-5, "axis of rotation"); rec.check(abs(q["decay of diagonal rotation terms"] - case["eps"]) < 1e-6 and abs(q["decay of off diagonal rotation terms"] - case["eps"]) < 1e-6, "decay of rotation terms")
        fx = np.real(q["fixed point"]); rec.check(np.linalg.norm(fx[1:]) < 1e-5 * np.linalg.norm(fx), "fixed point")
    c = abs(axs[0] @ axs[1]); rec.check(abs(abs(np.cos(np.pi * rp.model_model_angles_btwn_axes(gs[0], gs[1], "pp"))) - c) < 1e-5, "angle between rotation axes")
    m = pygsti.construction.build_explicit_model([("Q0",)], ["Gx", "Gy"], ["I(Q0)", "I(Q0)"]); m.operations["Gx"] = gs[0]; m.operations["Gy"] = gs[1]
    an = rp.angles_btwn_rotn_axes(m); rec.check(abs(abs(np.cos(np.pi * an[0, 1])) - c) < 1e-5 and an[0, 1] == an[1, 0], "angles between a model's axes")
    f = rp.upper_bound_fidelity(gs[0], "pp"); rec.check(abs(f - np.linalg.eigvalsh(choi(tmat("pp", 2) @ gs[0] @ np.linalg.inv(tmat("pp", 2)))).max()) < 1e-6, "fidelity upper bound")
    # model level quantities
    t = m.copy(); t.operations["Gx"] = to_b(np.kron(Us[0], Us[0].conj()), "pp", 2); t.operations["Gy"] = to_b(np.eye(4), "pp", 2); w = {l: r.random() for l in t.operations}
    inf = {l: 1 - np.trace(m.operations[l].todense() @ np.linalg.inv(t.operations[l].todense())) / 4 for l in t.operations}
    rec.check(abs(ot.gateset_infidelity(m, t, "EI") - np.mean(list(inf.values()))) < 1e-8, "model entanglement infidelity"); rec.check(abs(ot.gateset_infidelity(m, t, "AGI", w) - sum(w[l] * inf[l] * 2 / 3 for l in w) / sum(w.values())) < 1e-8, "weighted model infidelity")
    if case["seed"] % 4 == 0 and case["eps"] == 0:
        rec.check(abs(rp.closest_unitary_fidelity(gs[0], gs[1], "pp") - abs(np.trace(Us[0].conj().T @ Us[1]) / 2) ** 2) < 1e-5, "closest-unitary fidelity")
    if case["seed"] % 4 == 0 and case["eps"]:
        rec.check(abs(rp.closest_unitary_fidelity(gs[0], gs[1], "pp") - abs(np.trace(Us[0].conj().T @ Us[1]) / 2) ** 2) < 1e-4, "closest-unitary fidelity of depolarised rotations")


@st.composite
def pm_cases(draw): return {"seed": draw(seeds), "typ": "logTiG", "k": draw(st.sampled_from(["H", "S", "HS", "lind"]))}


@facet(pm_cases, quick=40, rule="always", case_s=40)
def project(case, rec):
    rec.nt(True); r = rng(case["seed"]); t = pygsti.construction.build_explicit_model([("Q0",)], ["Gx", "Gy"], ["X(pi/2,Q0)", "Y(pi/4,Q0)"]); m = t.copy(); m.set_all_parameterizations("full"); parts = {}
    for l in list(t.operations):
        L, h, s, a, C = eg_of(case["k"], 1, r, .03); m.operations[l] = ot.operation_from_error_generator(to_b(L, "pp", 2), t.operations[l].todense(), case["typ"])
    v0 = m.to_vector().copy(); types = ("H", "S", "H+S", "LND", "LNDF"); ms, Np = ot.project_model(m, t, types, case["typ"]); rec.check(np.array_equal(m.to_vector(), v0), "projected model changed"); out = dict(zip(types, ms))
    same = lambda x: all(np.allclose(x.operations[l].todense(), m.operations[l].todense(), atol=1e-6) for l in m.operations)
    rec.check(same(out["LND"]) and same(out["LNDF"]), "projection onto Lindblad form of a Lindblad model")
    if case["k"] == "H": rec.check(same(out["H"]), "projection onto H errors")
    if case["k"] == "H": rec.check(all(np.allclose(out["S"].operations[l].todense(), t.operations[l].todense(), atol=1e-6) for l in t.operations), "stochastic projection of Hamiltonian errors")
    ms2, _ = ot.project_model(out["H"], t, ("H",), case["typ"]); rec.check(all(np.allclose(ms2[0].operations[l].todense(), out["H"].operations[l].todense(), atol=1e-6) for l in t.operations), "projecting twice")
