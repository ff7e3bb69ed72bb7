"""C23: numerical and container utilities against straightforward reference computations."""
TECH = "property-based testing: every matrix, slice, list and polynomial utility compared with a direct reference computation on generated inputs (differential and inverse relations), including compiled against Python polynomial kernels"
NOTE = "Generated-input search: matrices up to 6 x 6 (dense and CSR), slices and index lists over ranges of 40, partitions of up to 8, polynomials of up to 6 variables and degree up to 70 (all index packings), containers of up to 12 entries."
import itertools, collections, copy, pickle
import numpy as np, scipy.sparse as sps, scipy.linalg as spl, scipy.sparse.linalg as spsl
from hypothesis import strategies as st
from vt.runner import facet
from vt.gen import *
import pygsti
from pygsti import objects as po
from pygsti.tools import matrixtools as mt, slicetools as sl, listtools as lt, opttools as ot, group as gp, nameddict as nd, compattools as ct
from pygsti.objects.polynomial import Polynomial, bulk_load_compact_polys
from pygsti.objects import opcalc
from pygsti.objects.opcalc import slowopcalc
from pygsti.objects.protectedarray import ProtectedArray
from pygsti.objects import labeldicts as ld


def real_spectrum(r, n, kind):
    """a real n x n matrix with controlled eigenvalues; returns matrix"""
    blocks = []; k = 0
    while k < n:
        if kind == "neg" and n - k >= 2 and r.random() < .5: blocks.append(-np.eye(2) * r.uniform(.3, 1.5)); k += 2
        elif n - k >= 2 and r.random() < .5:
            t = r.uniform(.2, 2.8); a = r.uniform(.3, 1.5); blocks.append(a * np.array([[np.cos(t), -np.sin(t)], [np.sin(t), np.cos(t)]])); k += 2
        else: blocks.append(np.array([[r.uniform(.3, 2)]])); k += 1
    D = spl.block_diag(*blocks); V = np.eye(n) + .4 * r.normal(size=(n, n)) / np.sqrt(n)
    return V @ D @ np.linalg.inv(V)


@st.composite
def mat_cases(draw): return {"n": draw(st.integers(1, 5)), "m": draw(st.integers(1, 6)), "r": draw(st.integers(0, 5)), "seed": draw(seeds), "cx": draw(st.booleans()), "kind": draw(st.sampled_from(["", "neg"]))}


@facet(mat_cases, quick=500, rule="two or more rows", case_s=30)
def matrices(case, rec):
    n, m, cx = case["n"], case["m"], case["cx"]; r = rng(case["seed"]); rec.nt(n > 1)
    g = lambda *s: r.normal(size=s) + (1j * r.normal(size=s) if cx else 0)
    # null spaces of an n x m matrix of known rank
    k = min(case["r"], n, m)
    A = g(n, k) @ g(k, m) if k else np.zeros((n, m), complex if cx else float); A0 = A.copy()
    for f in (mt.nullspace, mt.nullspace_qr):
        N = f(A)
        rec.check(N.shape == (m, m - k), "%s of a %dx%d rank-%d matrix has shape %s" % (f.__name__, n, m, k, N.shape))
        if f is mt.nullspace or not cx: rec.check(np.allclose(A @ (N.conj() if f is mt.nullspace and cx else N), 0, atol=1e-7), "%s not annihilated" % f.__name__)
        rec.check(np.allclose(N.conj().T @ N, np.eye(m - k), atol=1e-8), "%s not orthonormal" % f.__name__)
    M = g(n, n); H = M + M.conj().T
    rec.check(np.isclose(mt.trace(M), np.trace(M)), "trace")
    rec.check(mt.is_hermitian(H) and (n == 1 and not cx or mt.is_hermitian(M) == np.allclose(M, M.conj().T, atol=1e-9)), "is_hermitian")
    P = M @ M.conj().T; w = np.linalg.eigvalsh(H)
    rec.check(mt.is_pos_def(P) and mt.is_pos_def(H) == bool(w[0] > -1e-9), "is_pos_def")
    rho = P / np.trace(P).real
    rec.check(mt.is_valid_density_mx(rho) and not mt.is_valid_density_mx(rho * 1.01) and mt.is_valid_density_mx(H / np.trace(H)) == bool((np.linalg.eigvalsh(H / np.trace(H)) > -1e-9).all()), "is_valid_density_mx")
    R = r.normal(size=(n, m)); rec.check(np.isclose(mt.frobeniusnorm(R), np.linalg.norm(R)) and np.isclose(mt.frobeniusnorm2(R), np.linalg.norm(R)**2), "frobenius norm")
    rec.check(np.isclose(mt.norm1(M), np.linalg.svd(M, compute_uv=False).sum(), rtol=1e-6, atol=1e-6), "norm1 is the trace norm")
    hm = mt.random_hermitian(n); rec.check(np.allclose(hm, hm.conj().T) and np.isclose(mt.norm1(hm), 1), "random_hermitian")
    rec.check(np.allclose(mt.vec(M), M.T.ravel()) and np.allclose(mt.unvec(np.array(mt.vec(M))), M), "vec/unvec stack columns")
    rec.check(np.array_equal(mt.column_basis_vector(n - 1, n + 1).ravel(), np.eye(n + 1)[n - 1]), "column_basis_vector")
    # unitary from scaled unitary
    U = np.linalg.qr(g(n, n))[0]; s, V = mt.to_unitary(2.5 * U); rec.check(np.isclose(s, 2.5) and np.allclose(V, U), "to_unitary")
    # sign, logs
    B = real_spectrum(r, n, case["kind"]); S = mt.matrix_sign(B - np.eye(n) * 0.0)
    rec.check(np.allclose(S @ S, np.eye(n), atol=1e-6) and np.allclose(S @ B, B @ S, atol=1e-6) and (np.linalg.eigvals(S @ B).real > -1e-7).all(), "matrix_sign")
    L = mt.real_matrix_log(B)
    rec.check(np.isrealobj(L) and np.allclose(spl.expm(L), B, atol=1e-7), "real_matrix_log is not a real logarithm")
    if n > 1:
        C = np.linalg.inv(np.eye(n) + .1 * R[:, :1] @ np.ones((1, n)) * 0) @ np.diag([-.5] + [.7] * (n - 1))
        try: mt.real_matrix_log(C); rec.check(False, "no error for an unpaired negative eigenvalue")
        except ValueError: pass
        Lc = mt.real_matrix_log(C, actionIfImaginary="ignore"); rec.check(np.allclose(spl.expm(Lc), C), "complex logarithm with actionIfImaginary=ignore")
    E = .3 * r.normal(size=(n, n)) / n
    rec.check(np.allclose(mt.near_identity_matrix_log(spl.expm(E)), E, atol=1e-7), "near_identity_matrix_log")
    rec.check(np.allclose(mt.approximate_matrix_log(spl.expm(E), E), E, atol=1e-5), "approximate_matrix_log of an exact logarithm")
    # sorting eigenvalues, kites
    ev, W = mt.sorted_eig(M); key = [(x.real, x.imag) for x in ev]
    rec.check(key == sorted(key) and np.allclose(M @ W, W @ np.diag(ev), atol=1e-7) and np.allclose(np.poly(ev), np.poly(M), atol=1e-6), "sorted_eig")
    vals = np.repeat(np.sort(r.normal(size=n)) * 3 + 10 * np.arange(n), r.randint(1, 4, n)); kite = mt.get_kite(vals)
    rec.check(sum(kite) == len(vals) and kite == [len(list(q)) for _, q in itertools.groupby(vals)], "get_kite")
    D = sum(kite); X = g(D, D); X0 = X.copy(); lab = np.repeat(np.arange(len(kite)), kite); mask = lab[:, None] == lab[None, :]
    rec.check(np.array_equal(mt.project_onto_kite(X, kite), np.where(mask, X, 0)) and np.array_equal(mt.project_onto_antikite(X, kite), np.where(mask, 0, X)) and np.array_equal(X, X0), "kite projections")
    # strings
    Q = np.round(g(n, m), 4); txt = mt.mx_to_string(Q, width=10, prec=4)
    rows = [[complex(x.replace("+", "+")) for x in _tokens(line)] for line in txt.strip("\n").split("\n")]
    rec.check(np.shape(rows) == np.shape(Q) and np.allclose(rows, Q, atol=1.1e-4), "mx_to_string shows\n%s\nfor\n%s" % (txt, Q))
    rec.check(np.array_equal(A, A0), "input modified")
    # integers
    q = int(r.randint(1, 5000)); f = mt.prime_factors(q)
    rec.check(int(np.prod(f)) == q and all(p > 1 and all(p % d for d in range(2, int(p**.5) + 1)) for p in f) and f == sorted(f), "prime_factors(%d) = %s" % (q, f))
    z = [complex(a, b) for a, b in r.randint(-1, 2, (6, 2))]
    for a in z:
        for b in z:
            want = (a.real, a.imag); o = (b.real, b.imag); rec.check(mt.complex_compare(a, b) == (want > o) - (want < o), "complex_compare")


def _tokens(line):
    """split a row of a printed (possibly complex) matrix into numbers"""
    import re
    parts = line.split(); out = []
    for p in parts:
        if p.endswith("j") and (p.startswith("+") or p.startswith("-")) and out and not out[-1].endswith("j") and not re.search(r"\d[+-]", p): out[-1] += p
        else: out.append(p)
    return out


@st.composite
def uni_cases(draw): return {"n": draw(st.integers(1, 2)), "seed": draw(seeds), "b": draw(st.sampled_from(["pp", "gm", "std"])), "s": draw(st.sampled_from([.1, .5]))}


@facet(uni_cases, quick=80, rule="every case", case_s=30)
def unitary_logs(case, rec):
    from vt import models as M
    n = case["n"]; r = rng(case["seed"]); d = 2**n; rec.nt(True)
    A = r.normal(size=(d, d)) + 1j * r.normal(size=(d, d)); Hm = (A + A.conj().T) * case["s"] / d
    U = spl.expm(-1j * Hm); S = np.kron(U, U.conj()); G = np.kron(-1j * Hm, np.eye(d)) + np.kron(np.eye(d), (-1j * Hm).conj())
    from pygsti.tools import basistools as bt
    L = mt.unitary_superoperator_matrix_log(bt.change_basis(S, "std", case["b"]), case["b"])
    rec.check(np.allclose(spl.expm(L), bt.change_basis(S, "std", case["b"]), atol=1e-6), "unitary_superoperator_matrix_log is not a logarithm")
    Ls = bt.change_basis(L, case["b"], "std"); T4 = Ls.reshape(d, d, d, d); Hk = np.einsum("iajb,ab->ij", T4, np.eye(d)) / d; Hk = Hk - np.trace(Hk) / d * np.eye(d)
    rec.check(np.allclose(Ls, np.kron(Hk, np.eye(d)) + np.kron(np.eye(d), Hk.conj()), atol=1e-6) and np.allclose(Hk, -Hk.conj().T, atol=1e-6), "unitary_superoperator_matrix_log is not of the form -i[H, .]")
    if np.max(np.abs(np.subtract.outer(np.linalg.eigvalsh(Hm), np.linalg.eigvalsh(Hm)))) < 1e-9: rec.check(np.allclose(Ls, G, atol=1e-6), "log of the identity")
    v = mt.norm1to1(bt.change_basis(S, "std", case["b"]), n_samples=20, mxBasis=case["b"])
    rec.check(np.isclose(v, 1), "norm1to1 of a unitary map sampled as %g" % v)


@st.composite
def match_cases(draw): return {"n": draw(st.integers(1, 6)), "seed": draw(seeds), "idx": draw(st.booleans()), "m": draw(st.booleans()), "pairs": draw(st.integers(0, 3)), "eps": draw(st.sampled_from([.01, .3, 2.]))}


@facet(match_cases, quick=300, rule="three or more elements", case_s=30)
def matching(case, rec):
    n = case["n"]; r = rng(case["seed"]); rec.nt(n > 2)
    a = r.normal(size=n) + 1j * r.normal(size=n); b = r.normal(size=n) + 1j * r.normal(size=n); W = r.random((n, n))
    met = (lambda i, j: W[i, j]) if case["idx"] else ((lambda x, y: abs(x - y)**2) if case["m"] else None)
    w, pairs = mt.minweight_match(a, b, met, True, case["idx"])
    cost = W if case["idx"] else np.abs(a[:, None] - b[None, :])**(2 if case["m"] else 1)
    rec.check([p[0] for p in pairs] == list(range(n)) and sorted(p[1] for p in pairs) == list(range(n)), "not a matching: %s" % pairs)
    rec.check(np.allclose(w, [cost[i, j] for i, j in pairs]), "weights of the pairs")
    best = min(sum(cost[i, p[i]] for i in range(n)) for p in itertools.permutations(range(n)))
    rec.check(np.isclose(w.sum(), best), "matching weight %g, minimum %g" % (w.sum(), best))
    rec.check(np.allclose(mt.minweight_match(a, b, met, False, case["idx"]), w), "return_pairs=False")
    # conjugate-pair preserving matching
    k = case["pairs"]; nr = n % 3
    za = r.normal(size=k) + 1j * (0.1 + r.random(k)); zb = za + case["eps"] * (r.normal(size=k) + 1j * r.random(k)) if k else za
    zb = zb.real + 1j * np.abs(zb.imag); ra = r.normal(size=nr); rb = ra + case["eps"] * r.normal(size=nr)
    A = np.concatenate([za, za.conj(), ra]); B = np.concatenate([zb, zb.conj(), rb])
    if len(A) == 0: return
    A = A[r.permutation(len(A))]; B = B[r.permutation(len(B))]; N = len(A)
    W = r.random((N, N)); met = (lambda i, j: W[i, j]) if case["idx"] else None
    if case["idx"]:  # a metric consistent with conjugation
        cj = lambda v, i: int(np.argmin(np.abs(v - np.conj(v[i]))))
        W = np.array([[W[i, j] + W[cj(A, i), cj(B, j)] for j in range(N)] for i in range(N)])
    cost = W if case["idx"] else np.abs(A[:, None] - B[None, :])
    prs = mt.minweight_match_realmxeigs(A, B, met, case["idx"])
    rec.check([p[0] for p in prs] == list(range(N)) and sorted(p[1] for p in prs) == list(range(N)), "eigenvalue matching is not a permutation")
    for i, j in prs:
        if abs(A[i].imag) > 1e-6:
            ic = int(np.argmin(np.abs(A - A[i].conj()))); jc = dict(prs)[ic]
            rec.check(np.isclose(B[jc], B[j].conj()), "conjugate pair %s matched to %s and %s" % (A[i], B[j], B[jc]))

    def ok(p): return all(abs(A[i].imag) < 1e-6 or np.isclose(B[p[int(np.argmin(np.abs(A - A[i].conj())))]], B[p[i]].conj()) for i in range(N))
    if N <= 6:
        free = min(sum(cost[i, p[i]] for i in range(N)) for p in itertools.permutations(range(N)))
        rec.check(sum(cost[i, j] for i, j in prs) >= free - 1e-9, "cheaper than the minimum")
        adm = [p for p in itertools.permutations(range(N)) if all(abs(A[i].imag) < 1e-6 or abs(B[p[i]].imag) > 1e-6 for i in range(N)) and ok(p)]
        # among matchings that send real to real, representatives with positive imaginary part to such
        rep = [p for p in adm if all(A[i].imag * B[p[i]].imag >= 0 for i in range(N))]
        if rep: rec.check(sum(cost[i, j] for i, j in prs) <= min(sum(cost[i, p[i]] for i in range(N)) for p in rep) + 1e-8, "matching is not the cheapest structure-preserving one")


@st.composite
def sparse_cases(draw): return {"n": draw(st.integers(1, 6)), "k": draw(st.integers(0, 4)), "dens": draw(st.sampled_from([0., .2, .5, 1.])), "seed": draw(seeds), "zeros": draw(st.booleans())}


def rsp(r, n, dens, cx=True, explicit_zero=False, unsorted=False):
    D = (r.normal(size=(n, n)) + 1j * (r.normal(size=(n, n)) if cx else 0)) * (r.random((n, n)) < dens)
    S = sps.csr_matrix(D)
    if explicit_zero and S.nnz: S.data[r.randint(S.nnz)] = 0; D = S.toarray()
    return S, D


@facet(sparse_cases, quick=400, rule="two rows and a nonzero matrix", case_s=30)
def sparse(case, rec):
    n, k = case["n"], case["k"]; r = rng(case["seed"]); rec.nt(n > 1 and case["dens"] > 0)
    ms = [rsp(r, n, case["dens"], explicit_zero=case["zeros"]) for _ in range(k)]; co = r.normal(size=k) + 1j * r.normal(size=k)
    inds, indptr, indices, N = mt.get_csr_sum_indices([s for s, d in ms])
    want = sum([c * d for c, (s, d) in zip(co, ms)], np.zeros((n, n)))
    if k:
        data = np.zeros(len(indices), complex); mt.csr_sum(data, co, [s for s, d in ms], inds)
        rec.check(N == n and np.allclose(sps.csr_matrix((data, indices, indptr), shape=(N, N)).toarray(), want), "csr_sum")
        fl = mt.get_csr_sum_flat_indices([s for s, d in ms]); data = np.zeros(len(indices), complex)
        mt.csr_sum_flat(data, co, fl[0], fl[1], fl[2])
        rec.check(np.allclose(sps.csr_matrix((data, fl[4], fl[3]), shape=(n, n)).toarray(), want), "csr_sum_flat")
    S, D = rsp(r, n, case["dens"], False, explicit_zero=case["zeros"]); v = r.normal(size=n); D = D.real.copy(); S = sps.csr_matrix((S.data.real.copy(), S.indices, S.indptr), shape=S.shape)
    pa = mt.expm_multiply_prep(S); out = mt.expm_multiply_fast(pa, v); v0 = v.copy()
    rec.check(np.allclose(out, spl.expm(D) @ v, atol=1e-9) and np.array_equal(v, v0), "expm_multiply_fast")
    rec.check(np.allclose(S.toarray(), D), "sparse input modified")
    S, D = rsp(r, n, case["dens"], explicit_zero=case["zeros"]); T, F = rsp(r, n, case["dens"]); v = r.normal(size=n) + 1j * r.normal(size=n)
    # equality
    P = S.tocoo(); q = r.permutation(P.nnz); Sp = sps.coo_matrix((P.data[q], (P.row[q], P.col[q])), shape=(n, n))
    Sz = sps.csr_matrix(S); 
    rec.check(mt.sparse_equal(S, sps.csr_matrix(D)) and mt.sparse_equal(S, Sp.tocsr()), "sparse_equal of equal matrices")
    E = D.copy(); i, j = r.randint(n, size=2); E[i, j] += .5
    rec.check(not mt.sparse_equal(S, sps.csr_matrix(E)), "sparse_equal of different matrices")
    from pygsti.objects.basis import _sparse_equal
    rec.check(_sparse_equal(S, sps.csr_matrix(D)) and not _sparse_equal(S, sps.csr_matrix(E)), "basis sparse equality")
    rec.check(np.isclose(mt.sparse_onenorm(S), np.abs(D).sum(0).max()) and np.isclose(mt.safe_onenorm(S), mt.safe_onenorm(D)) and np.isclose(mt.safe_onenorm(D), np.abs(D).sum(0).max()), "one-norms")
    for a, da in ((S, D), (D, D)):
        for b, db in ((T, F), (F, F), (v, v)):
            x = mt.safedot(a, b); x = x.toarray() if sps.issparse(x) else x; rec.check(np.allclose(x, da @ db), "safedot")
        for part, fn in (("real", np.real), ("imag", np.imag), (None, lambda z: z)): rec.check(np.isclose(mt.safenorm(a, part), np.linalg.norm(fn(da))), "safenorm")
        x, y = mt.safereal(a), mt.safeimag(a); x, y = [z.toarray() if sps.issparse(z) else z for z in (x, y)]
        rec.check(np.allclose(x, D.real) and np.allclose(y, D.imag), "safereal / safeimag")
        rec.check(np.allclose(a.toarray() if sps.issparse(a) else a, D), "safe* changed its input")


@st.composite
def fancy_cases(draw):
    nd_ = draw(st.integers(1, 3)); shape = [draw(st.integers(1, 5)) for _ in range(nd_)]; inds = []
    for N in shape:
        k = draw(st.sampled_from(["none", "slice", "step", "list", "array", "int", "empty"]))
        if k == "none": inds.append(None)
        elif k == "slice": a = draw(st.integers(0, N)); inds.append(["s", a, draw(st.integers(a, N)), None])
        elif k == "step": inds.append(["s", draw(st.integers(0, N - 1)), N, 2])
        elif k == "int": inds.append(draw(st.integers(0, N - 1)))
        elif k == "empty": inds.append(["l"])
        else: inds.append(["l" if k == "list" else "a"] + draw(st.permutations(range(N)))[:draw(st.integers(1, N))])
    return {"shape": shape, "inds": inds, "add": draw(st.booleans()), "seed": draw(seeds)}


@facet(fancy_cases, quick=500, rule="more than one dimension", case_s=20)
def fancy(case, rec):
    shape = case["shape"]; r = rng(case["seed"]); rec.nt(len(shape) > 1)
    a = r.normal(size=shape); real = []; lists = []
    for N, i in zip(shape, case["inds"]):
        if i is None: real.append(None); lists.append(list(range(N)))
        elif isinstance(i, int): real.append(i); lists.append([i])
        elif i[0] == "s": q = slice(*i[1:]); real.append(q); lists.append(list(range(N))[q])
        else: real.append(list(i[1:]) if i[0] == "l" else np.array(i[1:], np.int64)); lists.append(list(i[1:]))
    ints = [k for k, i in enumerate(case["inds"]) if isinstance(i, int)]
    want = a[np.ix_(*[np.array(x, int) for x in lists])].squeeze(axis=tuple(ints)) if ints else a[np.ix_(*[np.array(x, int) for x in lists])]
    if len(shape) == 1 and isinstance(real[0], list) and not real[0]: real[0] = np.zeros(0, np.int64)
    got = mt._findx(a, real, True)
    rec.check(np.shape(got) == np.shape(want) and np.array_equal(got, want), "_findx(%s, %s): shape %s want %s" % (shape, case["inds"], np.shape(got), np.shape(want)))
    if not ints: rec.check(list(mt._findx_shape(a, real)) == list(want.shape), "_findx_shape")
    rhs = r.normal(size=np.shape(want)); b = a.copy(); c = a.copy()
    ix = np.ix_(*[np.array(x, int) for x in lists]); full = rhs.reshape([len(x) for x in lists])
    if case["add"]: c[ix] += full
    else: c[ix] = full
    mt._fas(b, real, rhs, case["add"])
    rec.check(np.allclose(b, c), "_fas(%s, %s, add=%s)" % (shape, case["inds"], case["add"]))


@st.composite
def slice_cases(draw):
    s = lambda: [draw(st.integers(0, 30)), draw(st.integers(0, 12))]
    return {"a": s(), "b": s(), "step": draw(st.sampled_from([None, None, 1, 2, 3])), "off": draw(st.integers(-5, 40)), "n": draw(st.integers(45, 60)), "max": draw(st.integers(1, 9)),
            "none": draw(st.sampled_from(["", "start", "stop", "neg"])), "lst": draw(st.one_of(st.lists(st.integers(0, 20), max_size=6), st.tuples(st.integers(0, 20), st.integers(1, 6), st.sampled_from([1, 1, 2, 3, -1, -2, 0])).map(list)))}


@facet(slice_cases, quick=700, rule="both slices nonempty", case_s=20)
def slices(case, rec):
    st_ = case["step"]; k = st_ or 1
    A = slice(case["a"][0], case["a"][0] + case["a"][1], st_); B = slice(case["b"][0], case["b"][0] + case["b"][1], st_)
    n = case["n"]; rec.nt(case["a"][1] > 0 and case["b"][1] > 0)
    ia, ib = list(range(60))[A], list(range(60))[B]
    rec.check(sl.length(A) == len(ia), "length(%s)" % A); rec.check(sl.length(ia) == len(ia), "length of a list")
    rec.check(sl.indices(A) == ia and sl.indices(A, n) == ia and list(sl.as_array(A)) == ia and list(sl.as_array(ia)) == ia, "indices of %s" % A)
    rec.check(sl.as_array(A).dtype == np.int64, "as_array dtype")
    sh = sl.shift(A, case["off"]); rec.check(A == slice(0, 0, None) and sh == A or list(range(sh.start, sh.stop, sh.step or 1)) == [i + case["off"] for i in ia], "shift(%s, %d) = %s" % (A, case["off"], sh))
    it = sl.intersect(A, B); got = list(range(60))[it]
    rec.check(got == [i for i in ia if i in ib], "intersect(%s, %s) = %s" % (A, B, it))
    rec.check(sl.length(it) == len(got), "length of an intersection")
    if ia and ib:
        C = slice(None, A.stop, st_) if k == 1 else A; it = sl.intersect(C, B)
        if k == 1: rec.check(list(range(60))[it] == [i for i in range(60)[C] if i in ib], "intersect(%s,%s)" % (C, B))
        C = slice(A.start, None, st_)
        it = sl.intersect(C, B); rec.check(list(range(60))[it] == [i for i in range(60)[C] if i in ib], "intersect(%s,%s)" % (C, B))
        it = sl.intersect(B, C); rec.check(list(range(60))[it] == [i for i in range(60)[C] if i in ib], "intersect(%s,%s)" % (B, C))
    dv = sl.divide(A, case["max"]); parts = [list(range(60))[d] for d in dv]
    rec.check([i for p in parts for i in p] == ia and all(0 < len(p) <= case["max"] for p in parts), "divide(%s, %d) = %s" % (A, case["max"], dv))
    D = {"start": slice(None, max(A.stop, 1), st_), "stop": slice(A.start, None, st_), "neg": slice(-n, -(case["a"][1]) - 1, st_)}.get(case["none"])
    if D: rec.check(sl.indices(D, n) == list(range(n))[D], "indices(%s, %d)" % (D, n))
    # lists to slices
    L = case["lst"]
    if len(L) == 3 and L[2] in (-2, -1, 0, 1, 2, 3) and L[1] <= 6 and case["off"] % 2: L = [L[0] + i * L[2] for i in range(L[1])]
    L = [x for x in L if x >= 0]
    contig = len(L) == 0 or L == list(range(L[0], L[0] + len(L)))
    if contig:
        for kw in ({}, {"array_ok": True}, {"require_contiguous": False}):
            s = sl.list_to_slice(L, **kw); rec.check(isinstance(s, slice) and list(range(60))[s] == L, "list_to_slice(%s) = %s" % (L, s))
    else:
        try: s = sl.list_to_slice(L); rec.check(False, "non-contiguous list %s gave %s" % (L, s))
        except ValueError: pass
        s = sl.list_to_slice(L, array_ok=True); rec.check(isinstance(s, np.ndarray) and list(s) == L, "list_to_slice(%s, array_ok) = %s" % (L, s))
        prog = len(L) > 1 and len(set(np.diff(L))) == 1 and L[1] != L[0]
        try:
            s = sl.list_to_slice(L, require_contiguous=False); rec.check(prog and list(range(60))[s] == L, "list_to_slice(%s, require_contiguous=False) = %s" % (L, s))
        except ValueError: rec.check(not (prog and L[1] > L[0]), "arithmetic progression %s not turned into a slice" % L)
        s = sl.list_to_slice(L, array_ok=True, require_contiguous=False); rec.check(list(np.arange(60)[s]) == L, "list_to_slice(%s, array_ok, not contiguous) = %s" % (L, s))
    if st_ in (None, 1): rec.check(sl.list_to_slice(A) == A, "slice passes through")
    else:
        rec.check(list(sl.list_to_slice(A, array_ok=True)) == ia, "stepped slice to array")
        try: sl.list_to_slice(A); rec.check(False, "stepped slice accepted as contiguous")
        except ValueError: pass


@st.composite
def list_cases(draw):
    return {"l": draw(st.lists(st.tuples(st.integers(0, 4), st.integers(0, 3)).map(list), max_size=12)), "n": draw(st.integers(0, 7)), "bins": draw(st.integers(1, 5)),
            "sets": draw(st.lists(st.lists(st.integers(0, 5), max_size=3), max_size=4)), "t": draw(st.lists(st.sampled_from("abcde"), max_size=7)),
            "al": draw(st.dictionaries(st.sampled_from("abc"), st.lists(st.sampled_from("xyzde"), max_size=3), max_size=3))}


@facet(list_cases, quick=300, rule="a list with a repeat", case_s=20)
def lists(case, rec):
    L = [tuple(x) for x in case["l"]]; rec.nt(len(set(L)) < len(L))
    uniq = list(collections.OrderedDict.fromkeys(L)); M = list(L)
    rec.check(lt.remove_duplicates(L) == uniq and L == M, "remove_duplicates")
    lt.remove_duplicates_in_place(M); rec.check(M == uniq, "remove_duplicates_in_place")
    for i in (0, 1):
        first = list({x[i]: x for x in reversed(L)}.values()); want = [x for k, x in enumerate(L) if x[i] not in [y[i] for y in L[:k]]]
        M = list(L); lt.remove_duplicates_in_place(M, i)
        rec.check(lt.remove_duplicates(L, i) == want and M == want, "remove_duplicates by element %d" % i)
    rec.check(lt.compute_occurrence_indices(L) == [L[:k].count(x) for k, x in enumerate(L)], "compute_occurrence_indices")
    al = {k: tuple(v) for k, v in case["al"].items()}; t = tuple(case["t"]); want = tuple(y for x in t for y in al.get(x, (x,)))
    rec.check(lt.find_replace_tuple(t, al) == want and lt.find_replace_tuple(t, None) == t and lt.find_replace_tuple_list([t, t], al) == [want, want], "find_replace_tuple")
    n, b = case["n"], case["bins"]

    def parts(n, m): return [[]] if n == 0 else [[k] + p for k in range(min(n, m), 0, -1) for p in parts(n - k, k)]
    want = parts(n, n); got = [list(p.copy()) for p in lt.sorted_partitions(n)]
    rec.check(sorted(got) == sorted(want) and len(set(map(tuple, got))) == len(got), "sorted_partitions(%d) = %s" % (n, got))
    got = [tuple(p) for p in lt.partitions(n)]; wset = set(q for p in want for q in itertools.permutations(p))
    rec.check(len(got) == len(set(got)) and set(got) == wset, "partitions(%d)" % n)
    got = [tuple(p) for p in lt.partition_into(n, b)]; wset = set(c for c in itertools.product(range(n + 1), repeat=b) if sum(c) == n)
    rec.check(len(got) == len(set(got)) and set(got) == wset, "partition_into(%d, %d) = %s" % (n, b, got))
    sets = case["sets"]; got = list(lt.incd_product(*sets)); want = list(itertools.product(*sets))
    if all(sets):
        rec.check([tuple(x) for _, x in got] == want, "incd_product yields the product")
        its = list(itertools.product(*[range(len(s)) for s in sets]))
        for k in range(1, len(got)): rec.check(got[k][0] == next(i for i in range(len(sets)) if its[k][i] != its[k - 1][i]), "incd_product increment index")


def pkey(k): return tuple(sorted(k))


def pmake(items):
    out = {}
    for k, v in items: out[pkey(k)] = out.get(pkey(k), 0) + v
    return out


def pmul(p, q):
    out = {}
    for a, x in p.items():
        for b, y in q.items(): out[pkey(a + b)] = out.get(pkey(a + b), 0) + x * y
    return out


def padd(p, q):
    out = dict(p)
    for b, y in q.items(): out[b] = out.get(b, 0) + y
    return out


def same(rec, P, want, what, tol=1e-9):
    got = P.coeffs; ks = set(got) | set(want)
    bad = [(k, got.get(k, 0), want.get(k, 0)) for k in ks if abs(got.get(k, 0) - want.get(k, 0)) > tol * max(1, abs(want.get(k, 0)))]
    rec.check(not bad, "%s: term, got, want: %s" % (what, bad[:3]))


@st.composite
def polys(draw, nv, hi=3):
    cf = st.sampled_from([1., -1., 2., .5, -.25, 3., 1j, .5 - 1j])
    return [[draw(st.lists(st.integers(0, nv - 1), max_size=draw(st.sampled_from([1, 2, hi])))), [complex(c).real, complex(c).imag]] for c in draw(st.lists(cf, max_size=5))]


@st.composite
def poly_cases(draw):
    nv = draw(st.integers(1, 6)); mx = draw(st.sampled_from([nv, nv, 7, 100, 255, 1000, 2**16 - 1]))
    off = draw(st.sampled_from([0, 0, mx - nv])) if mx >= nv else 0
    mx = max(mx, nv)
    return {"nv": nv, "mx": mx, "off": off, "p": draw(polys(nv, draw(st.sampled_from([3, 6, 12])))), "q": draw(polys(nv)), "pow": draw(st.integers(0, 4)), "seed": draw(seeds), "map": draw(st.lists(st.integers(0, nv - 1), min_size=nv, max_size=nv)), "perm": draw(st.permutations(range(nv)))}


@facet(poly_cases, quick=600, rule="both polynomials have at least two terms", case_s=30)
def polynomials(case, rec):
    nv, mx, off = case["nv"], case["mx"], case["off"]; r = rng(case["seed"])
    P_, Q_ = [[(tuple(i + off for i in k), complex(*c)) for k, c in case[x]] for x in "pq"]
    p, q = pmake(P_), pmake(Q_); rec.nt(len(p) > 1 and len(q) > 1)
    P, Q = Polynomial(dict(p), mx), Polynomial(dict(q), mx)
    x = np.zeros(mx) if mx < 2000 else np.zeros(mx); x[off:off + nv] = r.normal(size=nv) * .8
    ev = lambda w: sum(c * np.prod([x[i] for i in k]) for k, c in w.items())
    same(rec, P, p, "coefficients"); rec.check(P.max_num_vars == mx, "max_num_vars")
    # unsorted keys denote the same monomials
    U = Polynomial({tuple(r.permutation(list(k))) if len(k) else k: v for k, v in p.items()}, mx); U = Polynomial({tuple(int(i) for i in k): v for k, v in [(tuple(k), v) for k, v in U.coeffs.items()]}, mx)
    same(rec, U + P, {k: 2 * v for k, v in p.items()}, "sum of equal polynomials given with differently ordered indices")
    rec.check(np.isclose(P.evaluate(x), ev(p)), "evaluate"); rec.check(P.get_degree() == max([len(k) for k in p], default=0), "degree")
    same(rec, P + Q, padd(p, q), "sum"); same(rec, P * Q, pmul(p, q), "product"); same(rec, P.mult(Q), pmul(p, q), "mult"); same(rec, Polynomial.product([P, Q, P]), pmul(pmul(p, q), p), "product of three")
    same(rec, P * 2.5, {k: 2.5 * v for k, v in p.items()}, "scaling"); same(rec, 2.5 * P, {k: 2.5 * v for k, v in p.items()}, "scaling from the left"); same(rec, P.scalar_mult(1j), {k: 1j * v for k, v in p.items()}, "scalar_mult")
    C = P.copy(); C.scale(-2); same(rec, C, {k: -2 * v for k, v in p.items()}, "scale in place"); same(rec, P, p, "operand changed")
    C = P.copy(); C += Q; same(rec, C, padd(p, q), "in-place sum"); same(rec, P + 1.5, {k: v + 1.5 for k, v in p.items()}, "adding a scalar to all coefficients")
    w = {(): 1.}
    if len(p) <= 3 or case["pow"] < 3:
        for _ in range(case["pow"]): w = pmul(w, p)
        same(rec, P**case["pow"], w, "power %d" % case["pow"], 1e-7)
    for v in range(off, off + nv):
        d = {}
        for k, c in p.items():
            if v in k: l = list(k); l.remove(v); d[tuple(l)] = d.get(tuple(l), 0) + c * k.count(v)
        same(rec, P.deriv(v), d, "derivative by x_%d" % v)
    for nm, m in (("map", case["map"]), ("perm", case["perm"])):
        f = lambda k: tuple(m[i - off] + off for i in k)
        want = pmake([(f(k), c) for k, c in p.items()])
        same(rec, P.map_indices(f), want, "map_indices"); C = P.copy(); C.map_indices_inplace(f); same(rec, C, want, "map_indices_inplace"); same(rec, C + C, {k: 2 * v for k, v in want.items()}, "sum after mapping")
        if mx < 2000:
            vec = np.arange(mx, dtype=np.int64); vec[off:off + nv] = np.array(m) + off
            R_ = P.mapvec_indices(vec); same(rec, R_, want, "mapvec_indices"); same(rec, R_ + Polynomial(dict(want), mx), {k: 2 * v for k, v in want.items()}, "sum after mapvec")
            C = P.copy(); C.mapvec_indices_inplace(vec); same(rec, C, want, "mapvec_indices_inplace")
    same(rec, P, p, "operand changed"); C = Polynomial.fromrep(P.torep()); same(rec, C, p, "rep round trip")
    C = pickle.loads(pickle.dumps(P)); same(rec, C, p, "pickle")
    # compact forms
    vt, ctp = P.compact(True); vq, cq = Q.compact(True)
    V, Cc = np.concatenate([vt, vq]), np.concatenate([ctp, cq])
    got = opcalc.bulk_eval_compact_polys_complex(V, Cc, x, (2,)); want = np.array([ev(p), ev(q)])
    rec.check(np.allclose(got, want), "compiled bulk evaluation"); rec.check(np.allclose(slowopcalc.bulk_eval_compact_polys(V, Cc, x, (2,), dtype="complex"), want), "Python bulk evaluation")
    rec.check(np.isclose(opcalc.abs_sum_bulk_eval_compact_polys_complex(V, Cc, x, 2), np.abs(want).sum()) and np.isclose(slowopcalc.abs_sum_bulk_eval_compact_polys_complex(V, Cc, x, 2), np.abs(want).sum()), "sum of absolute values")
    vr, cr = P.compact(False); rp = {k: c.real for k, c in p.items()}
    rec.check(cr.dtype == float and np.allclose(opcalc.bulk_eval_compact_polys(vr, cr, x, (1,)), ev(rp)), "real compact form")
    rec.check(np.allclose(opcalc.safe_bulk_eval_compact_polys(vr, cr, x, (1,)), ev(rp)), "safe bulk evaluation")
    wrt = np.array(sorted(set(r.randint(off, off + nv, size=nv).tolist())), np.int64)
    out = []
    for f in (opcalc.compact_deriv, slowopcalc.compact_deriv):
        dv, dc = f(V, Cc, wrt); val = opcalc.bulk_eval_compact_polys_complex(np.ascontiguousarray(dv), np.ascontiguousarray(dc), x, (2, len(wrt)))
        want = np.array([[Z.deriv(int(w)).evaluate(x) for w in wrt] for Z in (P, Q)])
        rec.check(np.allclose(val, want), "%s.compact_deriv" % f.__module__)
    for kc in (False, True):
        ld_ = bulk_load_compact_polys(V, Cc, kc, mx)
        rec.check(len(ld_) == 2, "bulk_load count")
        for L_, w in zip(ld_, (p, q)):
            if kc: rec.check(np.allclose(opcalc.bulk_eval_compact_polys_complex(np.ascontiguousarray(L_[0]), np.ascontiguousarray(L_[1]), x, (1,)), ev(w)), "kept-compact polynomial")
            else: same(rec, L_, w, "bulk_load_compact_polys")


@st.composite
def cont_cases(draw):
    shape = [draw(st.integers(1, 4)) for _ in range(draw(st.integers(1, 2)))]
    ix = lambda N: draw(st.one_of(st.integers(-N, N - 1), st.tuples(st.integers(0, N), st.integers(0, N)).map(list)))
    return {"shape": shape, "prot": [ix(N) for N in shape], "ops": [[ix(N) for N in shape] for _ in range(draw(st.integers(1, 5)))], "seed": draw(seeds),
            "keys": draw(st.lists(st.one_of(st.sampled_from(["0", "1", "up", "00"]), st.lists(st.sampled_from(["0", "1", "p0"]), min_size=1, max_size=2)), max_size=6)),
            "ssl": draw(st.lists(st.lists(st.sampled_from("QTLCQ"), min_size=1, max_size=3), min_size=1, max_size=3)), "n": draw(st.integers(1, 3))}


@facet(cont_cases, quick=300, rule="some protected and some free element", case_s=30)
def containers(case, rec):
    r = rng(case["seed"]); shape = tuple(case["shape"]); mk = lambda i: i if isinstance(i, int) else slice(*i)
    base = r.normal(size=shape); A = ProtectedArray(base.copy(), tuple(mk(i) for i in case["prot"]))
    mask = np.zeros(shape, bool); mask[tuple(mk(i) for i in case["prot"])] = True; ref = base.copy(); rec.nt(mask.any() and not mask.all())
    for o in case["ops"]:
        key = tuple(mk(i) for i in o); key1 = key if len(key) > 1 or r.random() < .5 else key[0]; val = r.normal()
        rec.check(np.array_equal(np.asarray(A[key1] if np.isscalar(A[key1]) else A[key1] + 0), ref[key]), "ProtectedArray read")
        if r.random() < .4 and not isinstance(key[0], int) and ref[key].size and ref[key].ndim == len(shape):  # write through a view
            sub = A[key1]; pos = tuple(int(r.randint(s)) for s in ref[key].shape); prot = mask[key][pos]
            try: sub[pos] = val; ok = True
            except (ValueError, TypeError): ok = False
            rec.check(ok != bool(prot), "write through a view of %s at %s: protected=%s, allowed=%s" % (key, pos, prot, ok))
            if ok: ref[key][pos] = val
        else:
            hit = mask[key].any() if np.ndim(mask[key]) else bool(mask[key])
            try: A[key1] = val; ok = True
            except ValueError: ok = False
            rec.check(ok == (not hit), "assignment to %s with protected %s: allowed=%s" % (key, case["prot"], ok))
            if ok: ref[key] = val
        rec.check(np.array_equal(A + 0, ref), "ProtectedArray content")
    rec.check(np.array_equal(pickle.loads(pickle.dumps(A)) + 0, ref) and np.array_equal(copy.deepcopy(A) + 0, ref), "ProtectedArray copies")
    # outcome dictionaries
    d = ld.OutcomeLabelDict(); w = collections.OrderedDict()
    for k in case["keys"]:
        k = k if isinstance(k, str) else tuple(k); t = (k,) if isinstance(k, str) else k; v = r.normal(); d[k] = v; w[t] = v
    rec.check(list(d.items()) == list(w.items()), "OutcomeLabelDict items")
    for k, v in w.items():
        rec.check(d[k] == v and k in d and (len(k) > 1 or (d[k[0]] == v and k[0] in d)), "OutcomeLabelDict lookup")
    rec.check(("zz" not in d) and list(d.copy().items()) == list(w.items()) and list(pickle.loads(pickle.dumps(d)).items()) == list(w.items()), "OutcomeLabelDict copies")
    # state spaces
    k = 0; lbls = []; dims = {"Q": 4, "T": 9, "L": 1, "C": 2}
    for b in case["ssl"]: lbls.append(tuple("%s%d" % (c, k + i) for i, c in enumerate(b))); k += len(b)
    for evo, dd in (("densitymx", dims), ("statevec", {"Q": 2, "T": 3, "L": 1, "C": 2})):
        s = ld.StateSpaceLabels(lbls, evotype=evo)
        want = [int(np.prod([dd[c] for c in b])) for b in case["ssl"]]
        rec.check(s.dim == sum(want) and list(s.tpb_dims) == want and s.num_tensor_prod_blocks() == len(want), "StateSpaceLabels dimensions of %s" % (lbls,))
        for i, b in enumerate(lbls):
            rec.check(s.tensor_product_block_labels(i) == b and s.tensor_product_block_dims(i) == tuple(dd[l[0]] for l in b) and all(s.tpb_index[l] == i for l in b) and s.product_dim(b) == want[i], "StateSpaceLabels blocks")
        c = s.copy()
        if evo == "densitymx": c.reduce_dims_densitymx_to_state(); rec.check(c.dim == sum(int(np.prod([{"Q": 2, "T": 3, "L": 1, "C": 2}[x] for x in b])) for b in case["ssl"]) and s.dim == sum(want), "reduced state space")
        z = ld.StateSpaceLabels(s); rec.check(z.labels == s.labels and z.labeldims == s.labeldims and z.dim == s.dim, "StateSpaceLabels copy constructor")
    # matrix groups: cyclic and symmetric groups
    n = case["n"]; perms = list(itertools.permutations(range(n))); mxs = [np.eye(n)[list(p)] for p in perms]; names = ["g%d" % i for i in range(len(perms))]
    G = gp.MatrixGroup(mxs, names); idx = [int(i) for i in r.randint(len(perms), size=int(r.randint(1, 5)))]
    W = np.eye(n)
    for i in idx: W = mxs[i] @ W
    rec.check(len(G) == len(perms) and np.allclose(G.get_matrix(G.product(idx)), W) and np.allclose(G.get_matrix(G.product([names[i] for i in idx])), W), "MatrixGroup.product is composition in the order of application")
    i = idx[0]; rec.check(np.allclose(G.get_matrix_inv(i) @ mxs[i], np.eye(n)) and np.allclose(G.get_matrix(G.get_inv(names[i])) @ mxs[i], np.eye(n)) and np.allclose(G.get_matrix(names[i]), mxs[i]) and np.allclose(G.get_matrix_inv(names[i]), G.get_matrix(int(G.get_inv(i)))), "MatrixGroup inverses")
    # nested named dicts
    D = nd.NamedDict("outer", "category", None); rows = []
    for a in range(n):
        D["o%d" % a] = nd.NamedDict("inner", "int", "float", [(j, r.normal()) for j in range(a)]); rows += [("o%d" % a, j, v) for j, v in D["o%d" % a].items()]
    try: import pandas
    except ImportError: pandas = None
    if pandas is not None and rows:
        df = D.as_dataframe(); rec.check([tuple(x) for x in df[["outer", "inner", "value"]].itertuples(index=False)] == rows, "NamedDict.as_dataframe rows")
    e = pickle.loads(pickle.dumps(D)); rec.check(dict(e) == dict(D) and (e.name, e.keytype) == ("outer", "category"), "NamedDict pickle")
    rec.check(ct.isint(3) and ct.isint(np.int64(3)) and not ct.isint(3.0) and not ct.isint("3"), "isint")
    td = {}
    with ot.timed_block("x", td): pass
    dd = collections.defaultdict(list)
    for _ in range(2):
        with ot.timed_block("x", dd): pass
    rec.check(list(td) == ["x"] and td["x"] >= 0 and len(dd["x"]) == 2, "timed_block")
