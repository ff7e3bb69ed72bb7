"""C12: different representations of one operation, state or effect act identically."""
TECH = "property-based testing: generated trees of composed/embedded/summed/exponentiated/sparse kernels, members, factories, stabilizer circuits and error-generator coefficients; differential between compiled, Python and dense actions built from the definitions"
NOTE = "Generated-input search: random kernel trees built in the compiled and the Python library and as dense matrices, acted forward and adjoint on random vectors; random members, factories, tensor-product states and effects, Clifford circuits; oracle: dense linear algebra and dense error generators written here."
import collections, itertools, pickle, warnings
import numpy as np
import scipy.linalg as sla
import scipy.sparse as sps
from hypothesis import strategies as st
from vt.runner import facet
from vt import models as M, cliff
from vt.gen import *
import pygsti
from pygsti import objects as po
from pygsti.objects import operation as _op, spamvec as _sv, povm as _povm, opfactory as _of, Label
from pygsti.objects.replib import slowreplib, fastreplib
from pygsti.objects import replib


# ---- kernel trees: JSON spec -> (compiled rep, Python rep, dense matrix)
@st.composite
def trees(draw, depth=3):
    k = draw(st.sampled_from(["dense", "dense", "sparse"] if depth == 0 else ["dense", "sparse", "embedded", "embedded", "composed", "composed", "sum", "exp"]))
    if k in ("dense", "sparse"): return {"k": k, "seed": draw(st.integers(0, 2**31 - 1))}
    if k == "embedded":
        return {"k": k, "nact": draw(st.integers(1, 3)), "seed": draw(st.integers(0, 2**31 - 1)), "sub": draw(trees(depth=depth - 1))}
    if k == "exp": return {"k": k, "p": draw(st.integers(0, 4)), "sub": draw(trees(depth=depth - 1))}
    return {"k": k, "subs": draw(st.lists(trees(depth=depth - 1), min_size=0 if k == "composed" else 1, max_size=3))}


def build(t, dim, cplx, facs):
    """facs: factor dimensions of the (single block) space, product = dim; returns compiled, Python, dense"""
    P = "SV" if cplx else "DM"; F = lambda nm: getattr(fastreplib, P + "OpRep_" + nm); S = lambda nm: getattr(slowreplib, P + "OpRep_" + nm)
    k = t["k"]; ty = complex if cplx else float
    if k in ("dense", "sparse"):
        r = np.random.RandomState(t["seed"]); A = r.randn(dim, dim) + (1j * r.randn(dim, dim) if cplx else 0); A = A / np.linalg.norm(A, 2)
        if k == "sparse" and not cplx:
            A = A * (r.rand(dim, dim) < 0.5); c = sps.csr_matrix(A)
            a = (np.ascontiguousarray(c.data), np.ascontiguousarray(c.indices, np.int64), np.ascontiguousarray(c.indptr, np.int64))
            return F("Sparse")(*a), S("Sparse")(*a), A
        A = np.ascontiguousarray(A, ty); return F("Dense")(A, 0), S("Dense")(A, 0), A
    if k == "exp":
        f, s, A = build(t["sub"], dim, cplx, facs); return F("Exponentiated")(f, t["p"], dim), S("Exponentiated")(s, t["p"], dim), np.linalg.matrix_power(A, t["p"])
    if k in ("composed", "sum"):
        subs = [build(x, dim, cplx, facs) for x in t["subs"]]; fs = [x[0] for x in subs]; ss = [x[1] for x in subs]
        nm = "Composed" if k == "composed" else "Sum"
        if k == "composed":
            A = np.eye(dim, dtype=ty)
            for x in subs: A = x[2] @ A
        else: A = sum(x[2] for x in subs)
        return F(nm)(fs, dim), S(nm)(ss, dim), A
    # embedded: choose distinct factors in any order; optionally wrap in further direct-sum blocks (only at the top: facs given per block)
    r = np.random.RandomState(t["seed"]); n = len(facs); nact = min(t["nact"], n); act = [int(x) for x in r.permutation(n)[:nact]]
    sd = int(np.prod([facs[a] for a in act])); f, s, A = build(t["sub"], sd, cplx, [facs[a] for a in act])
    args = lambda emb: (emb, np.array(facs, np.int64), np.array(act, np.int64), np.array([dim], np.int64), sd, n, 0, 1, dim)
    rest = [i for i in range(n) if i not in act]; order = act + rest; shp = [facs[i] for i in order]
    big = np.kron(A, np.eye(int(np.prod([facs[i] for i in rest])))).reshape(shp + shp); perm = [order.index(i) for i in range(n)]
    return F("Embedded")(*args(f)), S("Embedded")(*args(s)), big.transpose(perm + [n + p for p in perm]).reshape(dim, dim)


def same(rec, got, exp, *what, tol=1e-9):
    got = np.asarray(got); exp = np.asarray(exp)
    rec.check(got.shape == exp.shape and np.abs(got - exp).max(initial=0) < tol * max(1, np.abs(exp).max(initial=0)), *what, ": got", np.round(got.ravel()[:6], 6).tolist(), "expected", np.round(exp.ravel()[:6], 6).tolist())


@facet(st.fixed_dictionaries({"t": trees(), "cplx": st.booleans(), "facs": st.sampled_from([[2], [4], [2, 2], [4, 4], [2, 3], [3, 2, 2], [2, 2, 2], [4, 2], [2, 4, 3]]), "blocks": st.sampled_from([None, None, None, [3, 1], [2, 0], [1, 2]]), "seed": seeds}), quick=700, rule="the tree has an inner node")
def kernels(case, rec):
    cplx = case["cplx"]; facs = case["facs"]; dim = int(np.prod(facs)); ty = complex if cplx else float; r = np.random.RandomState(case["seed"])
    f, s, A = build(case["t"], dim, cplx, facs)
    if case["blocks"]:   # direct sum: put the whole tree (acting on all factors of one block) between other blocks
        b = case["blocks"]; bs = [x for x in [b[0], dim, b[1]] if x]; i = 1; P = "SV" if cplx else "DM"; tot = sum(bs); act = list(range(len(facs)))
        arg = lambda e: (e, np.array(facs, np.int64), np.array(act, np.int64), np.array(bs, np.int64), dim, len(facs), i, len(bs), tot)
        f = getattr(fastreplib, P + "OpRep_Embedded")(*arg(f)); s = getattr(slowreplib, P + "OpRep_Embedded")(*arg(s)); A = sla.block_diag(*[A if j == i else np.eye(x) for j, x in enumerate(bs)]); dim = tot
    st_ = ("SV" if cplx else "DM") + "StateRep"
    for trial in range(2):
        v = r.randn(dim) + (1j * r.randn(dim) if cplx else 0); v = np.ascontiguousarray(v, ty); v0 = v.copy()
        for lib, o, nm in ((fastreplib, f, "compiled"), (slowreplib, s, "Python")):
            x = getattr(lib, st_)(v, 0)
            same(rec, o.acton(x).todense(), A @ v, nm, "action"); same(rec, v, v0, nm, "action changes its input")
            if not (cplx and nm == "compiled"): same(rec, o.adjoint_acton(x).todense(), A.conj().T @ v, nm, "adjoint action"); same(rec, v, v0, nm, "adjoint action changes its input")
            if trial == 0:
                o2 = pickle.loads(pickle.dumps(o)); same(rec, o2.acton(x).todense(), A @ v, "unpickled", nm, "action")
                rec.check(o.dim == dim, nm, "dim", o.dim, dim)
    if not cplx:
        L = f.aslinearoperator(); same(rec, L @ v, A @ v, "linear operator"); same(rec, L.rmatvec(v), A.T @ v, "adjoint of the linear operator")
    rec.nt(case["t"]["k"] not in ("dense", "sparse"))


@facet(st.fixed_dictionaries({"kind": st.sampled_from(["dense", "tensor", "tensor", "comp", "comp", "errgen"]), "cplx": st.booleans(), "n": st.integers(1, 4), "fd": st.lists(st.sampled_from([2, 3, 4]), min_size=1, max_size=3), "sub": st.sampled_from(["dense", "comp"]), "seed": seeds}), quick=400, rule="more than one factor or qubit")
def effects(case, rec):
    cplx = case["cplx"]; n = case["n"]; r = np.random.RandomState(case["seed"]); P = "SV" if cplx else "DM"; ty = complex if cplx else float; k = case["kind"]
    if k == "errgen" and cplx: rec.skip("density matrices only")
    rnd = lambda *s: np.ascontiguousarray(r.randn(*s) + (1j * r.randn(*s) if cplx else 0), ty)
    def basic(k):
        if k == "dense":
            dim = (2 if cplx else 4)**min(n, 3); e = rnd(dim); return [getattr(l, P + "EffectRep_Dense")(e, *([0] if l is fastreplib or cplx else [])) for l in (fastreplib, slowreplib)], e
        if k == "comp":
            z = r.randint(0, 2, n); e = np.array([1.0])
            for b in z: e = np.kron(e, (np.eye(2)[b] if cplx else np.array([1, 0, 0, 1 - 2 * b]) / np.sqrt(2)))
            return [getattr(l, P + "EffectRep_Computational")(np.ascontiguousarray(z, np.int64), len(e)) for l in (fastreplib, slowreplib)], e
        fd = case["fd"]; ka = np.zeros((len(fd), max(fd)), ty); e = np.array([1.0])
        for i, d in enumerate(fd): ka[i, :d] = rnd(d); e = np.kron(e, ka[i, :d])
        return [getattr(l, P + "EffectRep_TensorProd")(ka, np.array(fd, np.int64), len(fd), max(fd), len(e)) for l in (fastreplib, slowreplib)], e
    reps, e = basic(k if k != "errgen" else case["sub"])
    if k == "errgen":
        A = rnd(len(e), len(e)); reps = [l.DMEffectRep_Errgen(l.DMOpRep_Dense(A, 0), rp, 7) for l, rp in zip((fastreplib, slowreplib), reps)]; e = A.T @ e
    for _ in range(3):
        v = rnd(len(e))
        for l, rp, nm in zip((fastreplib, slowreplib), reps, ("compiled", "Python")):
            x = getattr(l, P + "StateRep")(v, 0); a = np.vdot(e, v); same(rec, rp.probability(x), abs(a)**2 if cplx else a, nm, k, "effect probability")
            if cplx: same(rec, rp.amplitude(x), a, nm, k, "effect amplitude")
            same(rec, pickle.loads(pickle.dumps(rp)).probability(x), abs(a)**2 if cplx else a, "unpickled", nm, k, "effect probability")
    rec.nt(n > 1 or len(case["fd"]) > 1)


# ---- stabilizer kernels
NAMES = ["X", "Y", "Z", "H", "P", "HP", "PH", "HPH", "CNOT"]


@st.composite
def words(draw, n, lo=0, hi=8):
    out = []
    for _ in range(draw(st.integers(lo, hi))):
        g = draw(st.sampled_from(NAMES if n > 1 else NAMES[:-1])); qs = draw(st.permutations(range(n)))[:2 if g == "CNOT" else 1]; out.append([g, list(qs)])
    return out


@st.composite
def stabcases(draw):
    n = draw(st.integers(1, 4)); k = draw(st.integers(1, min(n, 2)))
    return {"n": n, "z": draw(st.lists(st.integers(0, 1), min_size=n, max_size=n)), "w": draw(words(n, 0, 10)), "sub": draw(words(k, 1, 4)), "t": list(draw(st.permutations(range(n))))[:k], "how": draw(st.sampled_from(["emb", "exp", "composed", "adj"])), "p": draw(st.integers(0, 3)), "ph": draw(st.integers(0, 7))}


@facet(stabcases(), quick=300, rule="the circuit has an entangling or basis-changing gate")
def stabilizers(case, rec):
    n = case["n"]; labs = ["Q%d" % i for i in range(n)]; z = np.array(case["z"], np.int64); psi = np.zeros(2**n, complex); psi[int("".join(map(str, z)), 2)] = 1
    ops = []; U = np.eye(2**n, dtype=complex); ssl = po.StateSpaceLabels([tuple(labs)], [(2,) * n], evotype="stabilizer") if False else po.StateSpaceLabels([tuple(labs)], evotype="stabilizer")
    def emb(u, qs): return _op.EmbeddedOp(ssl, [labs[q] for q in qs], _op.CliffordOp(u))
    for g, qs in case["w"]:
        u = cliff.CNOT if g == "CNOT" else cliff.G1[g]; ops.append(emb(u, qs)); U = cliff.embed(u, qs, n) @ U
    su = cliff.word_u(len(case["t"]), case["sub"]) * np.exp(0.25j * np.pi * case["ph"]); sub = _op.CliffordOp(su); how = case["how"]; su_n = cliff.embed(su, case["t"], n)
    if how == "exp": ops.append(_op.ExponentiatedOp(_op.EmbeddedOp(ssl, [labs[q] for q in case["t"]], sub), case["p"], "stabilizer")); U = np.linalg.matrix_power(su_n, case["p"]) @ U
    elif how == "composed": ops.append(_op.EmbeddedOp(ssl, [labs[q] for q in case["t"]], _op.ComposedOp([sub, sub]))); U = su_n @ su_n @ U
    else: ops.append(_op.EmbeddedOp(ssl, [labs[q] for q in case["t"]], sub)); U = su_n @ U
    prep = _sv.StabilizerSPAMVec(n, z)
    st0 = prep._rep
    from pygsti.objects.stabilizer import StabilizerFrame
    def slow(o):   # the Python twin of a compiled representation
        R = o._rep if hasattr(o, "_rep") else o
        nm = type(R).__name__
        if nm.endswith("Clifford"): return slowreplib.SBOpRep_Clifford(R.smatrix, R.svector, R.smatrix_inv, R.svector_inv, R.unitary)
        if nm.endswith("Embedded"): return slowreplib.SBOpRep_Embedded(slow(R.embedded), R.nqubits, [int(q) for q in R.qubits])
        if nm.endswith("Composed"): return slowreplib.SBOpRep_Composed([slow(x) for x in R.factor_reps], R.nqubits)
        return slowreplib.SBOpRep_Exponentiated(slow(R.exponentiated_op), R.power, R.nqubits)
    states = [(fastreplib, st0, ops, lambda o: o._rep), (slowreplib, slowreplib.SBStateRep(st0.smatrix, st0.pvectors, st0.amps), ops, slow)]
    for lib, state, os_, get in states:
        nm = "compiled" if lib is fastreplib else "Python"
        for o in os_: state = get(o).acton(state)
        ref = U @ psi
        if how == "adj":
            for o in reversed(os_[len(case["w"]) // 2:]): state = get(o).adjoint_acton(state)
            k = len(case["w"]) // 2; V = np.eye(2**n, dtype=complex)
            for g, qs in case["w"][:k]: V = cliff.embed(cliff.CNOT if g == "CNOT" else cliff.G1[g], qs, n) @ V
            ref = V @ psi
        for zz in itertools.product([0, 1], repeat=n):
            e = lib.SBEffectRep(np.ascontiguousarray(zz, np.int64)); a = ref[int("".join(map(str, zz)), 2)]
            rec.check(abs(e.probability(state) - abs(a)**2) < 1e-7, nm, "stabilizer probability of", zz, e.probability(state), abs(a)**2)
            rec.check(abs(e.amplitude(state) - a) < 1e-7, nm, "stabilizer amplitude of", zz, e.amplitude(state), a)
        fr = StabilizerFrame(state.smatrix, state.pvectors, state.amps)
        same(rec, fr.to_statevec().ravel(), ref, nm, "state vector of the stabilizer frame", tol=1e-7)
    rec.nt(any(g in ("CNOT", "H", "HP", "PH", "HPH") for g, _ in case["w"] + case["sub"]))


# ---- members
def parts(o):
    """dense matrix of a composite member from its parts' own dense matrices, or None"""
    if isinstance(o, _op.ComposedOp):
        A = np.eye(o.dim)
        for f in o.factorops: A = dense(f) @ A
        return A
    if isinstance(o, _op.ExponentiatedOp): return np.linalg.matrix_power(dense(o.exponentiated_op), o.power)
    if isinstance(o, _op.EmbeddedOp):
        labs = list(o.state_space_labels.labels[0]); return M.embed_super(dense(o.embedded_op), [labs.index(t) for t in o.targetLabels], len(labs))
    if isinstance(o, _op.DepolarizeOp): pass
    if isinstance(o, (_op.LindbladOp,)):
        A = sla.expm(gen_dense(o.errorgen)); u = o.unitary_postfactor
        return A if u is None else A @ (u.toarray() if sps.issparse(u) else np.asarray(u))
    return None


def dense(o):
    d = parts(o)
    return np.asarray(o.todense()) if d is None else d


def gen_dense(e):
    if type(e) is _op.ComposedErrorgen: return sum([gen_dense(f) for f in e.factors], np.zeros((e.dim, e.dim)))
    if type(e) is _op.EmbeddedErrorgen:
        labs = list(e.state_space_labels.labels[0]); k = [labs.index(t) for t in e.targetLabels]
        return M.embed_super(gen_dense(e.embedded_op), k, len(labs))
    d = e.todense(); return d.toarray() if sps.issparse(d) else np.asarray(d)


def haslind(o):
    if isinstance(o, _op.LindbladOp) and not isinstance(o, _op.LindbladDenseOp): return True
    if isinstance(o, _op.DenseOperatorInterface): return False
    return any(haslind(x) for x in (o.submembers() if hasattr(o, "submembers") else []))


@facet(st.fixed_dictionaries({"kind": st.sampled_from(M.OPKINDS + ["composed", "embedded", "exp"] * 4), "n": st.sampled_from([1, 2, 2, 3]), "seed": seeds, "eps": st.sampled_from([0.0, 0.05, 0.3]), "upd": st.booleans()}), quick=260, rule="a composite or Lindblad member")
def members(case, rec):
    n = case["n"]; kind = case["kind"]; r = np.random.RandomState(case["seed"])
    if n == 3 and kind not in ("composed", "embedded", "exp", "static", "full"): n = 2
    if n == 3: k = int(r.randint(1, 3)); o = _op.EmbeddedOp([("Q0", "Q1", "Q2")], ["Q%d" % i for i in r.permutation(3)[:k]], M.mk_op(kind, k, r, case["eps"], depth=1)); kind = "embedded"
    else: o = M.mk_op(kind, n, r, case["eps"])
    M.alone(o)
    if case["upd"] and o.num_params(): v = o.to_vector(); v = v + 0.05 * r.randn(len(v)); o.from_vector(v); same(rec, o.to_vector(), v, "parameters after from_vector")
    def checks(o, what):
        A = dense(o); same(rec, np.asarray(o.todense()), A, what, "matrix vs its parts", tol=1e-8)
        try: same(rec, o.tosparse().toarray(), A, what, "sparse matrix", tol=1e-8)
        except NotImplementedError: rec.note("no sparse matrix")
        d = len(A); vs = np.eye(d) if d <= 16 else np.random.RandomState(5).randn(8, d)
        for v in vs: same(rec, o._rep.acton(replib.DMStateRep(np.ascontiguousarray(v, float), 0)).todense(), A @ v, what, "action", tol=1e-8)
        if not haslind(o):
            for v in vs[:5]: same(rec, o._rep.adjoint_acton(replib.DMStateRep(np.ascontiguousarray(v, float), 0)).todense(), A.T @ v, what, "adjoint action", tol=1e-8)
        return A
    A = checks(o, kind)
    c = o.copy(); same(rec, checks(c, "copy of " + kind), A, "copy")
    p = pickle.loads(pickle.dumps(o)); same(rec, checks(p, "unpickled " + kind), A, "unpickled")
    if isinstance(o, _op.StochasticNoiseOp):
        B = o.basis; rates = o.get_rates() if hasattr(o, "get_rates") else None
        if rates is not None and kind == "stoch":
            rates = np.asarray(rates); P = M.paulis(n)[1:]; ref = M.super_fn(lambda x: (1 - rates.sum()) * x + sum(q * M.pmat(p) @ x @ M.pmat(p) for q, p in zip(rates, P)), n).real
            same(rec, A, ref, "stochastic operation from its rates")
    rec.nt(kind in ("composed", "embedded", "exp") or kind.startswith("lind"))


# ---- factories
@facet(st.fixed_dictionaries({"n": st.integers(1, 3), "seed": seeds, "args": st.lists(st.integers(-8, 8), min_size=2, max_size=3), "evo": st.sampled_from(["densitymx", "densitymx", "statevec", "stabilizer"]), "dense": st.booleans(), "shape": st.sampled_from(["plain", "embedded", "embedding", "composed", "both", "nested"])}), quick=200, rule="a composite factory")
def factories(case, rec):
    n = case["n"]; r = np.random.RandomState(case["seed"]); evo = case["evo"]; dn = case["dense"] and evo != "stabilizer"; k = 1 if n == 1 else int(r.randint(1, 3)); labs = ["Q%d" % i for i in range(n)]; t = [labs[i] for i in r.permutation(n)[:k]]
    if evo == "stabilizer":
        names = ["X", "H", "P", "HP", "Y"]; fn = lambda a: M.kron(*[cliff.G1[names[int(float(a[0]) + i) % 5]] for i in range(k)])
    else: fn = lambda a: sla.expm(-1j * float(a[0]) * 0.21 * M.kron(*[M.PAULI["XYZ"[i % 3]] for i in range(k)])) @ sla.expm(-0.3j * float(a[1]) * M.kron(*[M.PAULI["ZZX"[i % 3]] for i in range(k)]))
    ev = evo; dimk = (4 if ev == "densitymx" else 2)**k; f = _of.UnitaryOpFactory(fn, 2**k, "pp", ev); args = tuple(str(a) for a in case["args"])
    ref_of = lambda u, m: M.super_of(u, m) if ev == "densitymx" else u
    ssl = po.StateSpaceLabels([tuple(labs)], evotype=ev); u = fn(args); idx = [labs.index(x) for x in t]; U = cliff.embed(u, idx, n); noise = None
    sh = case["shape"]
    extra_u = [cliff.G1["H"], cliff.G1["P"]][r.randint(2)]; exU = cliff.embed(M.kron(*[extra_u] * k), list(range(k)), k)
    ex = _op.CliffordOp(exU) if ev == "stabilizer" else (M.mk_op("lind:CPTP", k, r, 0.1, dense=True) if ev == "densitymx" and r.randint(2) else _op.StaticDenseOp(ref_of(exU, k), ev))
    exm = ref_of(exU, k) if ev == "stabilizer" else np.asarray(ex.todense()); comp_ref = exm @ ref_of(u, k)
    if sh == "plain": fac = f; sl = None; ref = ref_of(u, k); m = k
    elif sh == "embedded": fac = _of.EmbeddedOpFactory(ssl, t, f, dense=dn); sl = None; ref = ref_of(U, n); m = n
    elif sh == "embedding": fac = _of.EmbeddingOpFactory(ssl, f, dense=dn, num_target_labels=[None, k][r.randint(2)]); sl = tuple(t); ref = ref_of(U, n); m = n
    elif sh == "composed": fac = _of.ComposedOpFactory([f, ex], dense=dn); sl = None; ref = comp_ref; m = k
    else:
        c = _of.ComposedOpFactory([f, ex], dense=dn)
        ref = M.embed_super(comp_ref, idx, n) if ev == "densitymx" else cliff.embed(comp_ref, idx, n); m = n
        if sh == "both": fac = _of.EmbeddingOpFactory(ssl, c, dense=dn); sl = tuple(t)
        else: fac = _of.EmbeddedOpFactory(ssl, t, c, dense=dn); sl = None
    M.alone(fac)
    if sh in ("composed", "both", "nested") and ev != "stabilizer": fac.from_vector(fac.to_vector())
    op = fac.create_op(args, sl); o2 = fac.create_simplified_op(args, sl)
    for o in (op, o2):
        rec.check(o.dim == len(ref) and o._evotype == ev, "factory-made dimension/evolution type", o.dim, o._evotype)
        if ev == "stabilizer":
            for z in range(min(2**m, 4)):
                zv = [(z >> i) & 1 for i in range(m)]; s = o._rep.acton(_sv.StabilizerSPAMVec(m, np.array(zv, np.int64))._rep); psi = ref[:, int("".join(map(str, zv)), 2)]
                from pygsti.objects.stabilizer import StabilizerFrame
                same(rec, StabilizerFrame(s.smatrix, s.pvectors, s.amps).to_statevec().ravel(), psi, sh, "factory-made Clifford", tol=1e-7)
        else:
            same(rec, np.asarray(o.todense()), ref, sh, "factory-made matrix", tol=1e-8)
            v = r.randn(len(ref)) + (1j * r.randn(len(ref)) if ev == "statevec" else 0); Rep = replib.SVStateRep if ev == "statevec" else replib.DMStateRep
            same(rec, o._rep.acton(Rep(np.ascontiguousarray(v, complex if ev == "statevec" else float), 0)).todense(), ref @ v, sh, "action of a factory-made operation", tol=1e-8)
    if sh in ("composed", "both", "nested") and fac.num_params():
        v = fac.to_vector() + 0.1 * r.randn(fac.num_params()); fac.from_vector(v); exm = np.asarray(ex.todense()); cr = exm @ ref_of(u, k)
        same(rec, np.asarray(fac.create_op(args, sl).todense()), cr if sh == "composed" else M.embed_super(cr, idx, n), sh, "factory-made matrix after from_vector", tol=1e-8); same(rec, fac.create_op(args, sl).to_vector(), v, "parameters of a factory-made operation")
    rec.nt(sh != "plain")


# ---- states and effects
@facet(st.fixed_dictionaries({"n": st.integers(1, 3), "seed": seeds, "eps": st.sampled_from([0.0, 0.1]), "what": st.sampled_from(["prep", "povm", "tensor", "tensor", "comp", "pure"]), "evo": st.sampled_from(["densitymx", "statevec", "stabilizer"])}), quick=200, rule="a composite vector")
def vectors(case, rec):
    n = case["n"]; r = np.random.RandomState(case["seed"]); w = case["what"]; eps = case["eps"]; evo = case["evo"]; rnd = lambda d: np.ascontiguousarray(r.randn(d), float)
    if w == "comp":
        z = [int(x) for x in r.randint(0, 2, n)]; i = int("".join(map(str, z)), 2); psi = np.eye(2**n)[i]; ref = M.vec_of(np.outer(psi, psi), n) if evo == "densitymx" else psi
        for typ in ("prep", "effect"):
            s = _sv.ComputationalSPAMVec(z, evo, typ)
            if evo != "stabilizer": same(rec, np.asarray(s.todense()).ravel(), ref, "computational", typ, evo)
        if evo == "stabilizer":
            p = _sv.ComputationalSPAMVec(z, evo, "prep")
            for zz in itertools.product([0, 1], repeat=n): same(rec, _sv.ComputationalSPAMVec(list(zz), evo, "effect")._rep.probability(p._rep), float(list(zz) == z), "stabilizer computational probability")
        else:
            Rep = replib.SVStateRep if evo == "statevec" else replib.DMStateRep; v = rnd(len(ref)); v = v.astype(complex) if evo == "statevec" else v
            a = np.vdot(ref, v); same(rec, _sv.ComputationalSPAMVec(z, evo, "effect")._rep.probability(Rep(v, 0)), abs(a)**2 if evo == "statevec" else a, "computational effect probability")
            same(rec, _sv.ComputationalSPAMVec(z, evo, "prep")._rep.todense(), ref, "computational state representation")
        P = _povm.ComputationalBasisPOVM(n, evo); rec.check(list(P.keys()) == ["".join(x) for x in itertools.product("01", repeat=n)], "outcomes of a computational POVM", list(P.keys()))
        rec.nt(n > 1); return
    if w == "pure":
        psi = r.randn(2**n) + 1j * r.randn(2**n); psi /= np.linalg.norm(psi); s = _sv.PureStateSPAMVec(_sv.StaticSPAMVec(psi, "statevec", "prep"), "densitymx", "pp", "prep")
        same(rec, np.asarray(s.todense()).ravel(), M.vec_of(np.outer(psi, psi.conj()), n), "density matrix of a pure state"); rec.nt(True); return
    if w == "tensor":
        if evo == "stabilizer": rec.skip("covered elsewhere")
        if evo == "statevec":
            fs = [(lambda x: x / np.linalg.norm(x))(r.randn(2) + 1j * r.randn(2)) for _ in range(n)]; s = _sv.TensorProdSPAMVec("prep", [_sv.StaticSPAMVec(f, "statevec", "prep") for f in fs]); ref = M.kron(*[f[:, None] for f in fs]).ravel()
            same(rec, np.asarray(s.todense()).ravel(), ref, "product state"); same(rec, s._rep.todense(), ref, "product state representation"); rec.nt(n > 1); return
        fs = [M.mk_prep(["static", "full", "tp", "lind:CPTP", "cptp"][r.randint(5)], 1, r, eps) for _ in range(n)]
        s = M.alone(_sv.TensorProdSPAMVec("prep", fs))
        for rnd_ in range(2):
            ref = M.kron(*[np.asarray(f.todense()).reshape(-1, 1) for f in s.factors]).ravel()
            same(rec, np.asarray(s.todense()).ravel(), ref, "product state"); same(rec, s._rep.todense(), ref, "product state representation")
            s.from_vector(s.to_vector() + 0.03 * r.randn(s.num_params()))
        P = _povm.TensorProdPOVM([M.mk_povm(["full", "tp", "static", "comp"][r.randint(4)], 1, r, eps) for _ in range(n)]); M.alone(P)
        for rnd_ in range(2):
            fac = [collections.OrderedDict((k, np.asarray(e.todense()).ravel()) for k, e in f.items()) for f in P.factorPOVMs]
            exp = {"".join(ks): M.kron(*[fac[i][k][:, None] for i, k in enumerate(ks)]).ravel() for ks in itertools.product(*[list(f) for f in fac])}
            rec.check(list(P.keys()) == list(exp), "outcomes of a product POVM", list(P.keys())); v = rnd(4**n)
            simp = P.simplify_effects("M")
            for k, e in exp.items():
                same(rec, np.asarray(P[k].todense()).ravel(), e, "product effect", k); same(rec, P[k]._rep.probability(replib.DMStateRep(v, 0)), e @ v, "probability of the product effect", k)
                se = simp[Label("M_" + k)]; same(rec, np.asarray(se.todense()).ravel(), e, "simplified product effect", k); same(rec, se._rep.probability(replib.DMStateRep(v, 0)), e @ v, "probability of the simplified product effect", k)
            P.from_vector(P.to_vector() + 0.05 * r.randn(P.num_params()))
        rec.nt(n > 1); return
    n = min(n, 2)
    if w == "prep":
        s = M.alone(M.mk_prep(M.PREPKINDS[r.randint(len(M.PREPKINDS))], n, r, eps))
        for rnd_ in range(2):
            d = np.asarray(s.todense()).ravel(); same(rec, s._rep.todense(), d, type(s).__name__, "representation")
            if isinstance(s, _sv.LindbladSPAMVec): same(rec, d, dense(s.error_map) @ np.asarray(s.state_vec.todense()).ravel(), "Lindblad state from its parts", tol=1e-8)
            s.from_vector(s.to_vector() + 0.03 * r.randn(s.num_params())) if s.num_params() else None
    else:
        P = M.alone(M.mk_povm(M.POVMKINDS[r.randint(len(M.POVMKINDS))], n, r, eps))
        for rnd_ in range(2):
            simp = P.simplify_effects("M")
            for k in P:
                d = np.asarray(P[k].todense()).ravel(); v = rnd(4**n); same(rec, P[k]._rep.probability(replib.DMStateRep(v, 0)), d @ v, type(P).__name__, "effect probability", tol=1e-8)
                same(rec, np.asarray(simp[Label("M_" + k)].todense()).ravel(), d, "simplified effect")
                if isinstance(P, _povm.LindbladPOVM): same(rec, d, dense(P.error_map).T @ np.asarray(P.base_povm[k].todense()).ravel(), "Lindblad effect from its parts", tol=1e-8)
            if P.num_params(): P.from_vector(P.to_vector() + 0.03 * r.randn(P.num_params()))
    rec.nt(True)


# ---- error-generator coefficients
@st.composite
def coefsets(draw):
    n = draw(st.sampled_from([1, 1, 2])); mode = draw(st.sampled_from(["diagonal", "diag_affine", "all"])); pm = draw(st.sampled_from(["unconstrained", "cptp"]))
    return {"n": n, "mode": mode, "pm": pm, "ham": draw(st.booleans()), "seed": draw(seeds), "sub": draw(st.integers(1, 6)), "sparse": draw(st.booleans()), "act": draw(st.sampled_from(["update", "add", "reset"])), "wrap": draw(st.sampled_from(["gen", "op", "denseop", "composed", "embedded"])), "rates": draw(st.booleans())}


@facet(coefsets(), quick=300, rule="at least two kinds of terms")
def coefficients(case, rec):
    n = case["n"]; r = np.random.RandomState(case["seed"]); mode = case["mode"]; pm = case["pm"]; P = M.paulis(n)[1:]; sparse = case["sparse"]
    def rand_terms(mode, pm, ham, k, scale=0.05):
        """random coefficients (all of the Paulis in sel for every kind) obeying positivity when asked"""
        sel = [P[i] for i in sorted(r.permutation(len(P))[:k])]; t = collections.OrderedDict()
        if ham: t.update((("H", p), scale * r.randn()) for p in [P[i] for i in sorted(r.permutation(len(P))[:k])])
        if mode == "all":
            A = r.randn(len(sel), len(sel)) + 1j * r.randn(len(sel), len(sel)); A = scale * A @ A.conj().T if pm == "cptp" else scale * (A + A.conj().T)
            for i, a in enumerate(sel):
                for j, b in enumerate(sel): t[("S", a, b)] = float(A[i, i].real) if i == j else A[i, j]
        else:
            for p in sel: t[("S", p)] = scale * (abs(r.randn()) + 0.01 if pm == "cptp" else r.randn())
            if mode == "diag_affine":
                for p in sel: t[("A", p)] = scale * r.randn()
        return t
    def mk(t, n, mode, pm): return _op.LindbladErrorgen(4**n, collections.OrderedDict(t), pygsti.objects.Basis.cast("pp", 4**n, sparse=sparse), pm, mode, truncate=False, mxBasis="pp", evotype="densitymx")
    k = min(case["sub"], len(P)); t = rand_terms(mode, pm, case["ham"], k); clean = lambda t: {kk: v for kk, v in t.items()}
    wrap = case["wrap"]; gens = []
    def nrm(key): return key
    def ref_gen(t, n):
        # coefficients multiply generators of the normalized Paulis for H (-i[P,.]*1/... see conventions), S with unnormalized conventions of the documentation
        return M.gen_of({kk: (v if not (kk[0] == "S" and len(kk) == 2) else v) for kk, v in t.items()}, n)
    g = mk(t, n, mode, pm); ssl = None
    got = g.get_coeffs(); rec.check(set(got) == set(t), "terms reported", sorted(set(got) ^ set(t))[:4])
    for kk in t: rec.check(abs(got[kk] - t[kk]) < 1e-9, "coefficient of", kk, got[kk], "instead of", t[kk])
    G = g.todense(); G = G.toarray() if sps.issparse(G) else np.asarray(G); same(rec, G, ref_gen(t, n), "error generator built from its coefficients", tol=1e-8)
    if wrap == "gen": obj = g; to_gen = lambda: gen_dense(obj); N = n; cur = dict(t); ref = lambda c: ref_gen(c, n)
    elif wrap in ("op", "denseop"):
        U = M.super_of(M.rand_unitary(2**n, r), n) if r.randint(2) else None
        obj = (_op.LindbladOp if wrap == "op" else _op.LindbladDenseOp)(U, g, dense_rep=True) if wrap == "op" else _op.LindbladDenseOp(U, g, True)
        N = n; cur = dict(t); ref = lambda c: ref_gen(c, n)
    elif wrap == "embedded":
        N = n + 1; labs = tuple("Q%d" % i for i in range(N)); tl = [labs[i] for i in r.permutation(N)[:n]]; obj = _op.EmbeddedErrorgen([labs], tl, g); suf = ":" + ",".join(tl)
        cur = {(kk[0],) + tuple(x + suf for x in kk[1:]): v for kk, v in t.items()}; idx = [labs.index(x) for x in tl]
        ref = lambda c: M.embed_super(ref_gen({(kk[0],) + tuple(x[:-len(suf)] for x in kk[1:]): v for kk, v in c.items()}, n), idx, N)
    else:
        t2 = rand_terms("diagonal", pm, True, k); t2 = collections.OrderedDict((kk, v) for kk, v in t2.items() if kk not in t)
        if not t2: rec.skip("no further terms")
        g2 = mk(t2, n, "diagonal", pm); obj = _op.ComposedErrorgen([g, g2]); N = n; cur = dict(t); cur.update(t2); ref = lambda c: ref_gen(c, n)
    M.alone(obj)
    get = (lambda **kw: obj.get_errgen_coeffs(**kw)) if hasattr(obj, "get_errgen_coeffs") else (lambda **kw: obj.get_coeffs(**kw))
    setc = (lambda d, a: obj.set_errgen_coeffs(d, a)) if hasattr(obj, "set_errgen_coeffs") else (lambda d, a: obj.set_coeffs(d, a))
    D = 4**n
    def verify(cur, what, tol=1e-8):
        got = get(); rec.check(set(got) == set(cur), what, "terms", sorted(map(str, set(got) ^ set(cur)))[:4])
        for kk in cur: rec.check(abs(got[kk] - cur[kk]) < tol, what, "coefficient of", kk, got[kk], "instead of", cur[kk])
        gr = obj.get_error_rates()
        for kk in cur: e = cur[kk] if kk[0] != "S" else (1 - np.exp(-D * cur[kk])) / D; rec.check(abs(gr[kk] - e) < tol, what, "rate of", kk, gr[kk], "instead of", e)
        c2, b = get(return_basis=True); rec.check(set(c2) == set(cur), what, "terms with a basis"); mx = {str(l): np.asarray(m.todense() if sps.issparse(m) else m) for l, m in zip(b.labels, b.elements)}
        for kk in cur:
            for x in kk[1:]:
                y = x.split(":")[0]; Q = M.pmat(y) / np.sqrt(2**n)
                if ":" in x: Q = cliff.embed(Q, idx, N)
                rec.check(x in mx and np.abs(mx[x] - Q).max() < 1e-9, what, "basis element", x, list(mx))
        c3, _ = get(return_basis=True, logscale_nonham=True)
        for kk in cur: rec.check(abs(c3[kk] - gr[kk]) < 1e-12, what, "rates with a basis", kk)
        E = ref(cur)
        if wrap in ("op", "denseop"): same(rec, np.asarray(obj.todense()), sla.expm(E) @ (np.eye(len(E)) if U is None else U), what, "operation from its coefficients", tol=1e-7)
        else: same(rec, gen_dense(obj), E, what, "error generator from its coefficients", tol=1e-8); same(rec, obj.todense().toarray() if sps.issparse(obj.todense()) else np.asarray(obj.todense()), E, what, "matrix", tol=1e-8)
        A = sla.expm(E) @ (np.eye(len(E)) if wrap not in ("op", "denseop") or U is None else U) if wrap in ("op", "denseop") else E
        for v in np.random.RandomState(3).randn(3, len(A)): same(rec, obj._rep.acton(replib.DMStateRep(np.ascontiguousarray(v), 0)).todense(), A @ v, what, "action", tol=1e-7)
        S = obj.tosparse(); same(rec, S.toarray(), A, what, "sparse", tol=1e-7)
    verify(cur, wrap)
    # set new coefficients
    a = case["act"]; keys = list(cur)
    diag_only = [kk for kk in keys if len(kk) == 2]
    if mode == "all": sel = [kk for kk in keys if kk[0] == "H"] if pm == "cptp" else [kk for kk in keys if len(set(kk)) == 2]
    else: sel = diag_only
    sel = [kk for kk in sel if r.rand() < 0.6] or sel[:1]
    if not sel: rec.nt(len({kk[0] for kk in t}) > 1); return
    new = {kk: 0.05 * (abs(r.randn()) if kk[0] == "S" else r.randn()) for kk in sel}; exp = dict(cur) if a != "reset" else {kk: 0.0 for kk in cur}
    if case["rates"]:
        if any(kk[0] == "S" and D * v >= 1 for kk, v in new.items()): rec.skip("rate out of range")
        obj.set_error_rates(new, a); conv = lambda kk, v: -np.log(1 - D * v) / D if kk[0] == "S" else v
    else: setc(new, a); conv = lambda kk, v: v
    for kk, v in new.items(): exp[kk] = conv(kk, v) + (exp[kk] if a == "add" else 0)
    verify(exp, "after %s of %s" % (a, "rates" if case["rates"] else "coefficients"))
    before = get()
    try: setc({("H", "Q?:nowhere"): 0.1}, "update"); rec.check(False, "an unknown term was accepted")
    except (KeyError, ValueError): pass
    after = get(); rec.check(all(abs(after[kk] - before[kk]) < 1e-12 for kk in before), "a refused update changes coefficients")
    rec.nt(len({kk[0] for kk in t}) > 1)


# ---- exponentials applied without ever forming them
@facet(st.fixed_dictionaries({"n": st.sampled_from([1, 1, 1, 2, 2, 3]), "kinds": st.sampled_from(["H", "H", "HS", "S", "SA", "HSA"]), "terms": st.integers(1, 3), "size": st.sampled_from([1e-3, 0.1, 0.5, 1.5]), "post": st.sampled_from([None, None, "clifford", "rotation"]), "dense": st.sampled_from([False, False, False, True]), "seed": seeds}), quick=320, rule="the exponential is applied as a truncated series")
def series(case, rec):
    slack = lambda G: 1e-8 + min(1e-3, 1e-15 * np.exp(np.abs(G).sum(axis=0).max()))   # cancellation in the series grows with the norm
    n = case["n"]; r = np.random.RandomState(case["seed"]); P = M.paulis(n)[1:]; t = collections.OrderedDict()
    pick = [P[i] for i in r.permutation(len(P))[:case["terms"]]]
    if "H" in case["kinds"]: t.update((("H", p), case["size"] * float(r.choice([-1, 1]) * r.choice([1, 0.5, abs(r.randn())]))) for p in pick)
    if "S" in case["kinds"]:
        for p in pick: t[("S", p)] = case["size"] * 0.3 * float(r.choice([1, abs(r.randn()) + 0.01]))
    if "A" in case["kinds"]:
        for p in pick: t[("A", p)] = case["size"] * 0.05 * float(r.choice([-1, 1]))
    mode = "diag_affine" if "A" in case["kinds"] else "diagonal"
    g = _op.LindbladErrorgen(4**n, t, pygsti.objects.Basis.cast("pp", 4**n, sparse=bool(case["seed"] % 2)), "unconstrained" if "A" in case["kinds"] else "cptp", mode, truncate=False, mxBasis="pp", evotype="densitymx")
    U = None
    if case["post"]:
        V = np.eye(1)
        for _ in range(n): V = np.kron(V, M.pmat("XYZ"[r.randint(3)]) if case["post"] == "clifford" else sla.expm(-1j * r.randn() * M.pmat("XYZ"[r.randint(3)])))
        U = M.super_fn(lambda x: V @ x @ V.conj().T, n).real
    o = _op.LindbladOp(None if U is None else (U if case["dense"] else sps.csr_matrix(U)), g, dense_rep=case["dense"]); rec.nt(not case["dense"])
    G0 = M.gen_of(dict(t), n).real; tl = slack(G0); A = sla.expm(G0); A = A if U is None else A @ U
    one = {"0": np.array([1., 0, 0, 0])}; one.update({"%s%+d" % (a, s): np.eye(4)[0] + s * np.eye(4)[1 + i] for i, a in enumerate("XYZ") for s in (1, -1)}); ks = sorted(one)
    vs = [np.eye(4**n)[i] * s for i in range(min(4**n, 16)) for s in (1, -1)]
    for _ in range(6):
        v = np.ones(1)
        for _ in range(n): v = np.kron(v, one[ks[r.randint(len(ks))]])
        vs.append(v)
    if n == 1: vs += [one[k] for k in ks]
    vs.append(r.randn(4**n))
    for what, q in (("", o), ("copy", o.copy())):
        for v in vs: same(rec, q._rep.acton(replib.DMStateRep(np.ascontiguousarray(v, float), 0)).todense(), A @ v, what, "action on", v.tolist() if n == 1 else "", tol=tl)
    w = o.to_vector() * r.choice([-1, 0.5, 1.0, 1.3], size=o.num_params()); o.from_vector(w)
    G2 = g.todense(); G2 = np.asarray(G2.toarray() if sps.issparse(G2) else G2).real; tl = slack(G2); B = sla.expm(G2); B = B if U is None else B @ U
    for v in vs: same(rec, o._rep.acton(replib.DMStateRep(np.ascontiguousarray(v, float), 0)).todense(), B @ v, "after new parameters, action", tol=tl)
