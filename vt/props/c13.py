"""C13: basis changes and Choi matrices."""
TECH = "property-based testing: generated bases, vectors and superoperators compared with transformation matrices built from independently written basis elements; round-trip, transitivity and positivity relations"
NOTE = "Generated-input search over named bases (dimension up to 4 x 4 matrices), tensor products, direct sums, explicit random bases, dense and sparse, and maps built from generated Kraus operators with and without negative weights."
import pickle
import numpy as np, scipy.sparse as sps
from hypothesis import strategies as st
from vt.runner import facet
from vt.gen import *
import pygsti
from pygsti import objects as po
from pygsti.objects.basis import Basis, BuiltinBasis, DirectSumBasis, TensorProdBasis, ExplicitBasis, EmbeddedBasis
from pygsti.objects.labeldicts import StateSpaceLabels
from pygsti.tools import basistools as bt, jamiolkowski as jam

P2 = {"I": np.eye(2, dtype=complex), "X": np.array([[0, 1], [1, 0]], complex), "Y": np.array([[0, -1j], [1j, 0]]), "Z": np.diag([1, -1]).astype(complex)}


def mu(i, j, d):
    m = np.zeros((d, d), complex); m[i, j] = 1; return m


def gm_un(d):
    out = [np.eye(d, dtype=complex)]
    pairs = [(k, j) for k in range(d) for j in range(k + 1, d)]
    out += [mu(k, j, d) + mu(j, k, d) for k, j in pairs]
    out += [-1j * mu(k, j, d) + 1j * mu(j, k, d) for k, j in pairs]
    for l in range(1, d): out.append(np.sqrt(2 / (l * (l + 1))) * np.diag([1.] * l + [-l] + [0.] * (d - l - 1)).astype(complex))
    return out


def gm_lbl(d):
    if d == 1: return [""]
    if d == 2: return list("IXYZ")
    p = ["%d,%d" % (k, j) for k in range(d) for j in range(k + 1, d)]
    return ["I"] + ["X_{%s}" % x for x in p] + ["Y_{%s}" % x for x in p] + ["Z_{%d}" % l for l in range(1, d)]


def words_n(n):
    out = [""]
    for _ in range(n): out = [w + c for w in out for c in "IXYZ"]
    return out


def pmx(w):
    m = np.eye(1, dtype=complex)
    for c in w: m = np.kron(m, P2[c])
    return m


def qt():
    A = np.zeros((3, 4)); A[0, 0] = A[2, 3] = 1; A[1, 1] = A[1, 2] = 1 / np.sqrt(2)
    q = lambda *ws: sum(s * (A @ pmx(w) @ A.T) for s, w in ws)
    els = [np.eye(3, dtype=complex)]
    for m in (q((1, "XX"), (1, "YY")), q((1, "XX"), (-1, "YY")), q((1, "YZ")), q((1, "IX")), q((1, "IY")), q((1, "IZ")), q((1, "XY")), q((1, "XZ"))):
        els.append(m - np.trace(m) / 3 * np.eye(3))
    return [e / np.linalg.norm(e) for e in els]


def ref_named(nm, d):
    """(elements, labels) of a named matrix basis of d x d matrices"""
    if nm == "std": return [mu(i, j, d) for i in range(d) for j in range(d)], ([""] if d == 1 else ["(%d,%d)" % (i, j) for i in range(d) for j in range(d)])
    if nm == "gm_unnormalized": return gm_un(d), gm_lbl(d)
    if nm == "gm": return [e / np.linalg.norm(e) for e in gm_un(d)], gm_lbl(d)
    if nm == "pp":
        ws = words_n(int(np.log2(d))); return [pmx(w) / np.sqrt(d) for w in ws], ws
    if nm == "qt": return (qt(), ['II', 'X+Y', 'X-Y', 'YZ', 'IX', 'IY', 'IZ', 'XY', 'XZ']) if d == 3 else ([np.eye(1, dtype=complex)], [""])


def names_for(d, real=None):
    out = []
    if real in (None, False): out.append("std")
    if real in (None, True):
        out += ["gm", "gm_unnormalized"]
        if d in (1, 2, 4): out.append("pp")
        if d == 3: out.append("qt")
    return out


def dn(x): return np.asarray(x.todense()) if sps.issparse(x) else np.asarray(x)


def blockdiag(ms):
    n = sum(len(m) for m in ms); out = np.zeros((n, n), complex); s = 0
    for m in ms: out[s:s + len(m), s:s + len(m)] = m; s += len(m)
    return out


@facet(lambda: st.tuples(st.sampled_from(["std", "gm", "gm_unnormalized", "pp", "qt", "cl", "sv", "id"]), st.integers(1, 5), st.booleans()),
       quick=250, rule="dimension at least two", case_s=30)
def named(case, rec):
    nm, d, sp = case
    if nm == "pp": d = {1: 1, 2: 2, 3: 4, 4: 4, 5: 8}[d]
    if nm == "qt": d = 3 if d > 1 else 1
    rec.nt(d > 1)
    if nm in ("cl", "sv"):
        b = BuiltinBasis(nm, d)
        rec.check((b.dim, b.size, tuple(b.elshape), b.elndim) == (d, d, (d,), 1), "%s shape" % nm)
        rec.check(np.array_equal(np.asarray(b.elements), np.eye(d)), "%s elements are unit vectors" % nm)
        rec.check(list(b.labels) == ([""] if d == 1 else [("%d" if nm == "cl" else "|%d>") % i for i in range(d)]), "%s labels: %s" % (nm, b.labels))
        return
    b = BuiltinBasis(nm, d * d, sparse=sp)
    if nm == "id":
        rec.check(b.dim == d * d and b.size == 1 and np.array_equal(dn(b.elements[0]), np.eye(d)), "identity-only basis"); return
    els, lbls = ref_named(nm, d)
    rec.check((b.dim, b.size, tuple(b.elshape), b.elsize, len(b)) == (d * d, d * d, (d, d), d * d, d * d), "%s shape" % nm)
    rec.check(list(b.labels) == lbls, "%s labels %s != %s" % (nm, b.labels, lbls))
    got = [dn(e) for e in b.elements]
    for i, (g, w) in enumerate(zip(got, els)):
        rec.check(np.allclose(g, w, atol=1e-12), "%s(d=%d) element %d (%s) is\n%s\nnot\n%s" % (nm, d, i, lbls[i], g, w))
        rec.check(np.allclose(dn(b[i]), w) and np.allclose(dn(b[lbls[i]]), w), "lookup of element %d by index and label" % i)
        rec.check(np.allclose(dn(b.vector_elements[i]).ravel(), w.ravel()), "vector_elements %d" % i)
    rec.check(b.real == (nm != "std"), "real flag")
    G = np.array([[np.vdot(x, y) for y in got] for x in got])
    if nm != "gm_unnormalized": rec.check(np.allclose(G, np.eye(d * d), atol=1e-12), "%s orthonormal" % nm)
    else: rec.check(np.allclose(G, np.diag(np.diag(G)), atol=1e-12), "orthogonal")
    if nm != "std":
        rec.check(all(np.allclose(g, g.conj().T) for g in got), "Hermitian")
        rec.check(np.allclose(got[0], np.eye(d) * got[0][0, 0]) and got[0][0, 0].real > 0 and all(abs(np.trace(g)) < 1e-12 for g in got[1:]), "identity first, others traceless")
    if not sp and nm != "std": rec.check(b.is_normalized() == all(abs(np.trace(e @ e).real - 1) < 1e-8 for e in els), "is_normalized")
    A = np.array([e.ravel() for e in els]).T
    rec.check(np.allclose(dn(b.get_to_std()), A), "get_to_std"); 
    if d > 1 or not sp: rec.check(np.allclose(dn(b.get_from_std()), np.linalg.inv(A)), "get_from_std")
    bm = bt.basis_matrices(nm, d * d, sp)
    rec.check(all(np.allclose(dn(x), y) for x, y in zip(bm, els)) and len(bm) == d * d, "basis_matrices")
    rec.check(list(bt.basis_element_labels(nm, d * d)) == lbls and bt.basis_longname(nm) == b.longname and bt.is_sparse_basis(b) == sp, "labels and names helpers")
    if nm == "pp" and not sp:
        for w in range(0, 4):
            from pygsti.tools.basisconstructors import pp_matrices
            got = pp_matrices(d, maxWeight=w); want = [e for e, l in zip(els, lbls) if sum(c != "I" for c in l) <= w] if d > 1 else els
            rec.check(len(got) == len(want) and all(np.allclose(x, y) for x, y in zip(got, want)), "pp_matrices of weight at most %d" % w)


@st.composite
def comp_basis(draw, d, real=None):
    return ["n", draw(st.sampled_from(names_for(d, real))), d]


@st.composite
def bases_of(draw, dims, real=None, allow_exp=True):
    """a basis of the direct sum of matrix spaces with given dims; a single dim is a simple space"""
    if len(dims) > 1:
        if real is None: real = draw(st.booleans())
        return ["s", [draw(bases_of((d,), real=real, allow_exp=False)) for d in dims]]
    d = dims[0]; k = draw(st.sampled_from(["n", "n", "n", "t", "e"] if allow_exp else ["n", "n", "t"]))
    if k == "t" and d in (4, 6):
        if real is None: real = draw(st.booleans())
        f = draw(st.sampled_from([(2, 2)] if d == 4 else [(2, 3), (3, 2)]))
        return ["t", [draw(comp_basis(x, real)) for x in f]]
    if k == "e":
        return ["e", draw(st.sampled_from(["orth", "herm", "any"])), d, draw(seeds)]
    return draw(comp_basis(d, real))


def ref_els(spec):
    if spec[0] == "n": return ref_named(spec[1], spec[2])[0]
    if spec[0] == "t":
        out = [np.eye(1, dtype=complex)]
        for s in spec[1]: out = [np.kron(o, e) for o in out for e in ref_els(s)]
        return out
    if spec[0] == "e":
        _, kind, d, sd = spec; r = rng(sd)
        if kind == "herm":
            Q = np.linalg.qr(r.normal(size=(d * d, d * d)))[0]; g = ref_named("gm", d)[0]
            return [sum(Q[i, j] * g[j] for j in range(d * d)) for i in range(d * d)]
        M = r.normal(size=(d * d, d * d)) + 1j * r.normal(size=(d * d, d * d))
        Q, R = np.linalg.qr(M)
        if kind == "any": Q = Q @ (np.eye(d * d) + 0.2 * np.triu(r.normal(size=(d * d, d * d)), 1) / d)
        return [Q[:, i].reshape(d, d) for i in range(d * d)]
    # direct sum: vectors of concatenated parts, as block-diagonal matrices
    parts = [ref_els(s) for s in spec[1]]; out = []
    for k, p in enumerate(parts):
        for e in p: out.append(blockdiag([e if j == k else np.zeros_like(q[0]) for j, q in enumerate(parts)]))
    return out


def ref_to_std(spec):
    if spec[0] != "s": return np.array([e.ravel() for e in ref_els(spec)]).T
    return blockdiag([ref_to_std(s) for s in spec[1]])


def is_real(spec):
    return {"n": lambda: spec[1] != "std", "e": lambda: spec[1] == "herm"}.get(spec[0], lambda: all(is_real(s) for s in spec[1]))()


def can_sparse(spec): return spec[0] == "n" or (spec[0] == "s" and all(s[0] == "n" and s[2] > 1 for s in spec[1]))


def build(spec, sparse=False):
    if spec[0] == "n": return BuiltinBasis(spec[1], spec[2]**2, sparse=sparse)
    if spec[0] == "t": return TensorProdBasis([build(s) for s in spec[1]])
    if spec[0] == "e": return ExplicitBasis(ref_els(spec), real=(spec[1] == "herm"))
    return DirectSumBasis([build(s, sparse) for s in spec[1]])


DIMS = [(2,), (2,), (3,), (4,), (4,), (1, 1), (2, 1), (1, 2), (2, 2), (2, 3), (1, 2, 1)]


@st.composite
def change_cases(draw):
    dims = draw(st.sampled_from(DIMS + [(6,)] if draw(st.integers(0, 9)) == 0 else DIMS))
    return {"b": [draw(bases_of(dims)) for _ in range(3)], "sp": [draw(st.integers(0, 3)) == 0 for _ in range(3)], "str": draw(st.booleans()),
            "seed": draw(seeds), "herm": True, "col": draw(st.booleans())}


@facet(change_cases, quick=1000, rule="the bases differ", case_s=60)
def change(case, rec):
    specs = case["b"]; r = rng(case["seed"])
    T = [ref_to_std(s) for s in specs]; Ti = [np.linalg.inv(t) for t in T]; N = len(T[0])
    B = [build(s, sp and can_sparse(s)) for s, sp in zip(specs, case["sp"])]
    rec.nt(specs[0] != specs[1])
    dims = [int(round(np.sqrt(N)))] if specs[0][0] != "s" else [int(round(np.sqrt(len(ref_to_std(x))))) for x in specs[0][1]]
    for b, s, t in zip(B, specs, T):
        e = ref_els(s)
        rec.check(b.dim == N and b.size == N and len(b.elements) == N, "basis %s has dim %s size %s" % (s, b.dim, b.size))
        rec.check(all(np.allclose(dn(x), y, atol=1e-10) for x, y in zip(b.elements, e)), "elements of %s" % (s,))
        rec.check(len(b.labels) == N and len(set(b.labels)) == N, "labels of %s: %s" % (s, b.labels))
        for l, x in zip(b.labels, e): rec.check(np.allclose(dn(b[l]), x, atol=1e-10), "element %s of %s by label" % (l, s))
        rec.check(np.allclose(dn(b.get_to_std()), t, atol=1e-10), "get_to_std of %s (sparse=%s)" % (s, b.sparse))
        rec.check(np.allclose(dn(b.get_from_std()), np.linalg.inv(t), atol=1e-9), "get_from_std of %s" % (s,))
    # a Hermitian (block) matrix and a Hermiticity-preserving superoperator, as std vectors
    def herm():
        out = []
        for d in dims:
            m = r.normal(size=(d, d)) + 1j * r.normal(size=(d, d)); out.append((m + m.conj().T).ravel())
        return np.concatenate(out)
    vstd = herm()
    G = blockdiag([ref_to_std(["n", "gm", d]) for d in dims])
    S = G @ r.normal(size=(N, N)) @ np.linalg.inv(G)
    a, b, c = B; nm = [s[1] if s[0] == "n" and case["str"] else None for s in specs]
    fb = nm[1] if (nm[1] and not (specs[0][0] in ("t", "s", "e") and False)) else b
    if b.sparse: fb = b
    tol = 1e-8
    x = Ti[0] @ vstd; X = Ti[0] @ S @ T[0]
    if a.real: x = x.real; X = X.real
    xin = x.copy(); Xin = X.copy()
    if case["col"] and N > 1: x = x.reshape(-1, 1); xin = x.copy()
    y = bt.change_basis(x, a, fb); Y = bt.change_basis(X, a, fb)
    rec.check(np.array_equal(x, xin) and np.array_equal(X, Xin), "change_basis modified its input")
    rec.check(np.shape(y) == np.shape(x) and np.allclose(dn(y).ravel(), Ti[1] @ vstd, atol=tol), "vector from %s to %s" % (specs[0], specs[1]))
    rec.check(np.allclose(dn(Y), Ti[1] @ S @ T[1], atol=tol), "superoperator from %s to %s (sparse %s)" % (specs[0], specs[1], case["sp"]))
    y = dn(y); Y = dn(Y)
    rec.check(np.allclose(bt.change_basis(y, b, a), x, atol=tol), "vector round trip %s - %s" % (specs[0], specs[1]))
    rec.check(np.allclose(dn(bt.change_basis(Y, b, a)), X, atol=tol), "operator round trip")
    rec.check(np.allclose(dn(bt.change_basis(Y, b, c)), dn(bt.change_basis(X, a, c)), atol=tol), "transitivity of operators")
    rec.check(np.allclose(dn(bt.change_basis(y, b, c)), dn(bt.change_basis(x, a, c)), atol=tol), "transitivity of vectors")
    if N > 1: rec.check(abs(np.trace(Y) - np.trace(X)) < tol and np.allclose(np.poly(Y), np.poly(X), rtol=1e-5, atol=1e-5 * np.max(np.abs(np.poly(X)))), "trace and eigenvalues preserved")
    if N > 1 and not np.allclose(dn(Y) @ y, dn(bt.change_basis(X @ x, a, b)), atol=1e-7): rec.check(False, "action on states not preserved")
    rec.check(np.allclose(dn(a.transform_matrix(b)), Ti[1] @ T[0], atol=tol), "transform_matrix %s -> %s" % (specs[0], specs[1]))
    rec.check(np.allclose(dn(a.reverse_transform_matrix(b)), Ti[0] @ T[1], atol=tol), "reverse_transform_matrix %s <- %s" % (specs[0], specs[1]))
    if specs[0][0] == "n" and specs[1][0] == "n" and not a.sparse and not b.sparse:
        rec.check(np.allclose(bt.change_basis(X, specs[0][1], specs[1][1]), Y, atol=tol), "change_basis by names")
        rec.check(np.allclose(bt.change_basis(X, specs[0][1], b), Y, atol=tol), "change_basis from a name to a Basis")
        rec.check(np.allclose(a.transform_matrix(specs[1][1]), Ti[1] @ T[0], atol=tol) and np.allclose(a.reverse_transform_matrix(specs[1][1]), Ti[0] @ T[1], atol=tol), "transform matrices by name")
    # equality of bases
    same = all(s == specs[0] for s in specs[:2]) and a.sparse == b.sparse
    if specs[0][0] == specs[1][0]: rec.check((a == b) == (same or (specs[0][0] == "e" and np.array_equal(T[0], T[1]))), "equality of %s and %s" % (specs[0], specs[1]))
    rec.check(a == a and a == a.copy() and build(specs[0], a.sparse) == a and a == pickle.loads(pickle.dumps(a)), "equal copies of %s" % (specs[0],))
    try: h = hash(a)
    except TypeError: h = None; rec.check(False, "basis unhashable")
    if specs[0][0] != "e": rec.check(hash(build(specs[0], a.sparse)) == h, "hash of equal bases differ")
    # simple / std equivalents
    if specs[0][0] != "e":
        q = a.equivalent("std")
        rec.check(np.allclose(dn(q.get_to_std()), np.eye(N)) if specs[0][0] != "t" else q.dim == N, "equivalent('std')")
        se = a.simple_equivalent("std"); n = sum(dims)
        rec.check(se.dim == n * n and np.allclose(dn(se.get_to_std()), np.eye(n * n)), "simple_equivalent('std') of %s" % (specs[0],))


@st.composite
def resize_cases(draw):
    dims = draw(st.sampled_from([(1, 1), (2, 1), (1, 2), (2, 2), (1, 1, 1), (1, 2, 1)]))
    real = draw(st.booleans())
    return {"dims": list(dims), "b": draw(bases_of(dims, real)), "full": draw(bases_of((sum(dims),), real if draw(st.booleans()) else None, allow_exp=False)), "seed": draw(seeds)}


def emb(dims):
    """isometry from the direct sum of matrix spaces (std) into full matrices (std)"""
    n = sum(dims); cols = []; off = 0
    for d in dims:
        for i in range(d):
            for j in range(d): cols.append(mu(off + i, off + j, n).ravel())
        off += d
    return np.array(cols).T


@facet(resize_cases, quick=500, rule="every case", case_s=30)
def resize(case, rec):
    dims = case["dims"]; r = rng(case["seed"]); rec.nt(True)
    a = build(case["b"]); f = build(case["full"]); V = emb(dims)
    Ta, Tf = ref_to_std(case["b"]), ref_to_std(case["full"]); n = sum(dims); Na = len(Ta)
    rec.check(a.dim == Na and a.elsize == n * n and not a.is_simple() and f.is_simple(), "dimensions")
    rec.check(np.allclose(a.get_to_element_std(), V @ Ta), "get_to_element_std")
    rec.check(np.allclose(a.get_from_element_std() @ a.get_to_element_std(), np.eye(Na), atol=1e-9), "get_from_element_std is a left inverse")
    M = r.normal(size=(Na, Na)) + 1j * r.normal(size=(Na, Na))
    st1, st2 = a.equivalent("std"), f.equivalent("std")
    big = bt.resize_std_mx(M, 'expand', st1, st2)
    back = bt.resize_std_mx(big, 'contract', st2, st1)
    if case["full"][0] == "n": rec.check(np.allclose(big, V @ M @ V.T, atol=1e-9), "expansion of a matrix on blocks %s" % dims)
    rec.check(np.allclose(back, M, atol=1e-9), "expand then contract is not the identity")
    b2 = bt.resize_mx(M, dims, 'expand')
    rec.check(np.allclose(b2, V @ M @ V.T, atol=1e-9) and np.allclose(bt.resize_mx(b2, dims, 'contract'), M, atol=1e-9) and np.array_equal(bt.resize_mx(M, None), M), "resize_mx")
    F = r.normal(size=(n * n, n * n)) + 1j * r.normal(size=(n * n, n * n))
    rec.check(np.allclose(bt.resize_mx(F, dims, 'contract'), V.T @ F @ V, atol=1e-9), "contraction keeps the block part")
    # flexible_change_basis on Hermiticity-preserving maps
    G = blockdiag([ref_to_std(["n", "gm", d]) for d in dims]); R = r.normal(size=(Na, Na)); S = G @ R @ np.linalg.inv(G)
    X = np.linalg.inv(Ta) @ S @ Ta
    if a.real: X = X.real
    if case["full"][0] == "n":
        Y = bt.flexible_change_basis(X, a, f)
        rec.check(np.allclose(Y, np.linalg.inv(Tf) @ V @ S @ V.T @ Tf, atol=1e-8), "flexible_change_basis %s -> %s" % (case["b"], case["full"]))
        rec.check(np.allclose(bt.flexible_change_basis(Y, f, a), X, atol=1e-8), "flexible_change_basis round trip")
    rec.check(np.allclose(bt.flexible_change_basis(X, a, a), X), "flexible_change_basis to itself")


@st.composite
def vec_cases(draw):
    d = draw(st.sampled_from([1, 2, 2, 3, 4])); return {"b": draw(bases_of((d,), allow_exp=True)), "d": d, "seed": draw(seeds), "herm": draw(st.integers(0, 3)) > 0}


@facet(vec_cases, quick=700, rule="dimension at least two", case_s=30)
def vectors(case, rec):
    d = case["d"]; r = rng(case["seed"]); rec.nt(d > 1); spec = case["b"]
    b = build(spec); T = ref_to_std(spec)
    m = r.normal(size=(d, d)) + 1j * r.normal(size=(d, d))
    if case["herm"] or is_real(spec): m = m + m.conj().T
    v = np.linalg.inv(T) @ m.ravel(); m0 = m.copy()
    rec.check(np.allclose(bt.vec_to_stdmx(v, b, keep_complex=True), m, atol=1e-9), "vec_to_stdmx (%s)" % (spec,))
    if is_real(spec): rec.check(np.allclose(bt.vec_to_stdmx(v.real, b), m, atol=1e-9) and np.allclose(bt.vec_to_stdmx(v.real.reshape(-1, 1), b), m, atol=1e-9), "vec_to_stdmx of a real vector (%s)" % (spec,))
    orth = np.allclose(T.conj().T @ T, np.eye(d * d))
    if orth and (is_real(spec) or spec[0] == "n"):
        w = bt.stdmx_to_vec(m, spec[1] if spec[0] == "n" and case["seed"] % 2 else b)
        rec.check(w.shape == (d * d, 1), "stdmx_to_vec shape")
        rec.check(np.allclose(w.ravel(), v, atol=1e-9), "stdmx_to_vec in %s of\n%s\n= %s, not %s" % (spec, m, w.ravel(), v))
        rec.check(np.array_equal(m, m0), "stdmx_to_vec changed its input")
    if spec[0] == "n" and spec[1] in ("gm", "pp", "qt", "std") and is_real(spec):
        f, g = {"gm": (bt.stdmx_to_gmvec, bt.gmvec_to_stdmx), "pp": (bt.stdmx_to_ppvec, bt.ppvec_to_stdmx), "qt": (None, bt.qtvec_to_stdmx)}[spec[1]]
        if f: rec.check(np.allclose(f(m).ravel(), v, atol=1e-9), "stdmx_to_%svec" % spec[1])
        rec.check(np.allclose(g(v.real), m, atol=1e-9), "%svec_to_stdmx" % spec[1])
    psi = r.normal(size=d) + 1j * r.normal(size=d); psi /= np.linalg.norm(psi)
    rec.check(np.allclose(bt.state_to_stdmx(psi), np.outer(psi, psi.conj())), "state_to_stdmx is |psi><psi|")
    if d == 2: rec.check(np.allclose(bt.state_to_pauli_density_vec(psi).ravel(), [np.vdot(psi, P2[c] @ psi).real / np.sqrt(2) for c in "IXYZ"]), "state_to_pauli_density_vec")
    pr = bt.build_basis_pair(np.eye(d * d), "std", "gm")
    rec.check([p.name for p in pr] == ["std", "gm"] and all(p.dim == d * d for p in pr), "build_basis_pair by name")
    if spec[0] == "n":
        p1, p2 = bt.build_basis_pair(np.eye(d * d), b, "std"); p3, p4 = bt.build_basis_pair(np.eye(d * d), "std", b)
        rec.check(p1 is b and p4 is b and p2.name == p3.name == "std" and p2.dim == d * d, "build_basis_pair with an object")
        rec.check(bt.build_basis_for_matrix(np.eye(d * d), spec[1]) == b and bt.build_basis_for_matrix(np.eye(d * d), b) is b, "build_basis_for_matrix")


@st.composite
def cast_cases(draw):
    return {"blocks": draw(st.lists(st.lists(st.sampled_from([("Q", 2), ("Q", 2), ("T", 3), ("L", 2), ("C", 1)]).map(list), min_size=1, max_size=2), min_size=1, max_size=3)),
            "nm": draw(st.sampled_from(["std", "gm", "pp"])), "how": draw(st.sampled_from(["dims", "tdims", "pairs", "mats", "embed", "ssl"])), "seed": draw(seeds)}


@facet(cast_cases, quick=500, rule="more than one factor or block", case_s=30)
def cast(case, rec):
    nm = case["nm"]; how = case["how"]; blocks = [[d for k, d in b if k in "QT"] or [2] for b in case["blocks"]]
    if nm == "pp": blocks = [[2 for _ in b] for b in blocks]
    rec.nt(len(blocks) > 1 or len(blocks[0]) > 1)
    N = lambda d: ["n", nm, d]
    if how == "dims":
        b = Basis.cast(nm, [int(np.prod(x))**2 for x in blocks]); want = ["s", [N(int(np.prod(x))) for x in blocks]]
    elif how == "tdims":
        b = Basis.cast(nm, [tuple(d * d for d in x) if len(x) > 1 else x[0]**2 for x in blocks]); want = ["s", [["t", [N(d) for d in x]] if len(x) > 1 else N(x[0]) for x in blocks]]
    elif how == "pairs":
        nms = [(nm if nm == "std" else ["gm", "pp"][i % 2] if d in (2, 4) else "gm") for i, d in enumerate(int(np.prod(x)) for x in blocks)]
        b = Basis.cast([(q, int(np.prod(x))**2) for q, x in zip(nms, blocks)]); want = ["s", [["n", q, int(np.prod(x))] for q, x in zip(nms, blocks)]]
    elif how == "mats":
        want = N(blocks[0][0]); b = Basis.cast(ref_els(want)); 
        rec.check(len(b.labels) == b.size and not b.sparse, "explicit basis"); rec.check(b == BuiltinBasis(nm, blocks[0][0]**2) or nm == "gm", "explicit equals builtin")
    elif how == "ssl":
        lbls = []; k = 0; dims = []; 
        for x in blocks:
            lbls.append(tuple("Q%d" % (k + i) for i in range(len(x)))); dims.append(tuple(d * d for d in x)); k += len(x)
        ssl = StateSpaceLabels(lbls, dims); b = Basis.cast(nm, ssl)
        parts = [["t", [N(d) for d in x]] if len(x) > 1 else N(x[0]) for x in blocks]; want = parts[0] if len(parts) == 1 else ["s", parts]
    else:
        x = [2, 2, 2][:max(2, len(blocks))]; n = len(x); ls = tuple("Q%d" % i for i in range(n))
        r = rng(case["seed"]); k = 1 + case["seed"] % 2; tg = [ls[i] for i in r.permutation(n)[:k]]
        eb = EmbeddedBasis(BuiltinBasis(nm, 4**k), StateSpaceLabels([ls]), tg)
        els = ref_named(nm, 2**k)[0]
        from vt.props.c20 import embed
        for i, e in enumerate(els):
            want = embed(np.asarray(e), [ls.index(t) for t in tg], n)
            rec.check(np.allclose(dn(eb.elements[i]), want), "embedded element %d (%s on %s)" % (i, nm, tg))
        rec.check(list(eb.labels) == ["%s:%s" % (l, ",".join(tg)) for l in ref_named(nm, 2**k)[1]], "embedded labels")
        rec.check([EmbeddedBasis.unembed_label(l, tg) for l in eb.labels] == ref_named(nm, 2**k)[1], "unembed_label")
        rec.check(eb.dim == 4**n and eb.size == 4**k and np.allclose(eb.get_to_std(), np.array([dn(e).ravel() for e in eb.elements]).T), "embedded basis transform")
        A = np.array([dn(e).ravel() for e in eb.elements]).T
        rec.check(np.allclose(eb.get_from_std() @ A, np.eye(4**k)), "from_std of a partial basis is a left inverse")
        rec.check(isinstance(hash(eb), int), "hash of an embedded basis")
        return
    t = ref_to_std(want)
    rec.check(b.dim == len(t), "cast dimension %s != %s (%s)" % (b.dim, len(t), how))
    rec.check(np.allclose(b.get_to_std(), t), "cast by %s: %s" % (how, want))
    rec.check(all(np.allclose(x, y) for x, y in zip(b.elements, ref_els(want))), "cast elements by %s" % how)
    rec.check(Basis.cast(b) is b and Basis.cast(b, b.dim) is b, "cast of a Basis is itself")


@st.composite
def choi_cases(draw):
    dims = draw(st.sampled_from([(2,), (2,), (2,), (3,), (4,), (1, 1), (2, 1), (1, 2)]))
    d = sum(dims)
    op = draw(bases_of(dims, True, allow_exp=False))
    ch = ["n", draw(st.sampled_from([x for x in names_for(d)])), d]
    return {"dims": list(dims), "op": op, "choi": ch, "seed": draw(seeds), "K": draw(st.integers(1, 3)), "neg": draw(st.sampled_from([0, 0, 0.05, 0.3, 1.0])), "tp": draw(st.booleans()), "eps": draw(st.sampled_from([0.05, 1.0]))}


@facet(choi_cases, quick=500, rule="two-level or larger system", case_s=60)
def choi(case, rec):
    dims = case["dims"]; d = sum(dims); r = rng(case["seed"]); V = emb(dims); rec.nt(d > 1)
    full = len(dims) == 1
    # random map in std (row-stacked vec): sum_k s_k K (x) K*
    Ks = [(np.eye(d) if k == 0 else 0) + case["eps"] * (r.normal(size=(d, d)) + 1j * r.normal(size=(d, d))) / np.sqrt(d) for k in range(case["K"])]
    if not full: Ks = [blockdiag([k[sum(dims[:i]):sum(dims[:i + 1]), sum(dims[:i]):sum(dims[:i + 1])] for i in range(len(dims))]) for k in Ks]
    if case["tp"] and full:
        w, U = np.linalg.eigh(sum(k.conj().T @ k for k in Ks)); Ks = [k @ U @ np.diag(w**-0.5) @ U.conj().T for k in Ks]
    S = sum(np.kron(k, k.conj()) for k in Ks)
    neg = case["neg"]
    if neg:
        # a Kraus operator orthogonal to the others with negative weight makes the map non-CP
        A = np.array([k.ravel() for k in Ks]).T; q = np.linalg.qr(A)[0]
        v = r.normal(size=d * d) + 1j * r.normal(size=d * d)
        v = v - q @ (q.conj().T @ v)
        if np.linalg.norm(v) < 1e-6 or not full: neg = 0
        else: v /= np.linalg.norm(v); L = v.reshape(d, d); S = S - neg * np.kron(L, L.conj())
    # Choi by definition: J = (1/d) sum_ij Phi(Eij) x Eij  (in the convention J_ij,kl of |i><j| rho |l><k|: eigenvalues are the Kraus weights / d)
    C = np.zeros((d * d, d * d), complex)
    for i in range(d):
        for j in range(d): C += np.kron((S @ mu(i, j, d).ravel()).reshape(d, d), mu(i, j, d)) / d
    if not full: S = V @ (V.T @ S @ V) @ V.T
    op = build(case["op"]); To = ref_to_std(case["op"])
    X = np.linalg.inv(To) @ V.T @ S @ V @ To
    rec.check(np.abs(X.imag).max() < 1e-9, "harness: real superoperator"); X = X.real; X0 = X.copy()
    els, _ = ref_named(case["choi"][1], d)
    want = np.array([[np.trace(S @ np.kron(a, b.conj()).conj().T) / np.trace(np.kron(a, b.conj()) @ np.kron(a, b.conj()).conj().T) for b in els] for a in els]) / d
    cb = build(case["choi"])
    opb = case["op"][1] if case["op"][0] == "n" and case["seed"] % 2 else op
    chb = case["choi"][1] if case["seed"] % 3 == 0 else cb
    J = jam.jamiolkowski_iso(X, opb, chb); J0 = J.copy()
    rec.check(np.allclose(J, want, atol=1e-9), "Choi matrix in %s of a map in %s" % (case["choi"], case["op"]))
    rec.check(np.array_equal(X, X0), "jamiolkowski_iso changed its input")
    back = jam.jamiolkowski_iso_inv(J, chb, opb)
    rec.check(np.shape(back) == X.shape and np.allclose(back, X, atol=1e-8), "jamiolkowski_iso_inv(iso) in %s / %s" % (case["op"], case["choi"]))
    rec.check(np.array_equal(J, J0), "jamiolkowski_iso_inv changed its input")
    F = jam.fast_jamiolkowski_iso_std(X, opb); F0 = F.copy()
    sd = np.array([[np.trace(S @ np.kron(mu(i, k, d), mu(j, l, d)).conj().T) for j in range(d) for l in range(d)] for i in range(d) for k in range(d)]) / d
    rec.check(np.allclose(F, sd, atol=1e-9), "fast_jamiolkowski_iso_std")
    fb = jam.fast_jamiolkowski_iso_std_inv(F, opb)
    rec.check(np.shape(fb) == X.shape and np.allclose(fb, X, atol=1e-8), "fast_jamiolkowski_iso_std_inv of %s" % (case["op"],))
    rec.check(np.array_equal(F, F0), "fast inverse changed its input")
    if full:
        ev = np.sort(np.linalg.eigvalsh(F)); evC = np.sort(np.linalg.eigvalsh(C))
        rec.check(np.allclose(ev, evC, atol=1e-9), "eigenvalues of the Choi matrix")
        if case["choi"][1] != "gm_unnormalized": rec.check(np.allclose(np.sort(np.linalg.eigvals(J).real), evC, atol=1e-7), "eigenvalues in basis %s" % case["choi"])
        if neg == 0: rec.check(ev[0] > -1e-9, "a completely positive map has a negative Choi eigenvalue %g" % ev[0])
        else: rec.check(ev[0] < -0.2 * neg / d, "a non-CP map's Choi matrix has smallest eigenvalue %g" % ev[0])
        if case["tp"] and not neg: rec.check(abs(np.trace(F) - 1) < 1e-9, "trace one for a trace-preserving map")
        if case["op"][0] == "n" and d in (2, 4, 3):
            m = po.ExplicitOpModel(StateSpaceLabels([("T",)], [(d * d,)]), case["op"][1])
            m.operations["Ga"] = po.FullDenseOp(X); m.operations["Gb"] = po.FullDenseOp(np.eye(d * d))
            m.operations["Gc"] = po.FullDenseOp(-X)
            n1, n2 = -ev[ev < 0].sum(), ev[ev > 0].sum()
            s = jam.sums_of_negative_choi_evals(m)
            rec.check(np.allclose(s, [n1, 0, n2], atol=1e-7), "sums_of_negative_choi_evals %s != %s" % (s, [n1, 0, n2]))
            rec.check(abs(jam.sum_of_negative_choi_evals(m) - n1 - n2) < 1e-7, "sum_of_negative_choi_evals")
            rec.check(abs(jam.sum_of_negative_choi_evals(m, {"Ga": 2.0, "gates": 0.5}) - 2 * n1 - .5 * n2) < 1e-7, "weighted sum of negative Choi eigenvalues")
            mags = jam.mags_of_negative_choi_evals(m)
            if case["op"][1] != "gm_unnormalized":
                wm = np.concatenate([np.clip(-ev, 0, None), np.zeros(d * d), np.clip(ev, 0, None)])
                rec.check(len(mags) == 3 * d * d and np.allclose([np.sort(mags[k * d * d:(k + 1) * d * d]) for k in range(3)], [np.sort(wm[k * d * d:(k + 1) * d * d]) for k in range(3)], atol=1e-7), "mags_of_negative_choi_evals")
