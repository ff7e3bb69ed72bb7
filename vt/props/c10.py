"""C10: constrained parameterisations stay physical; contractions land in their sets; noise is what was asked for."""
TECH = "property-based testing: generated parameter vectors of every size for members of every constrained parameterisation, generated models for contractions and noise, with independent Choi-matrix, trace and positivity oracles"
NOTE = "Generated-input search: random parameter vectors from tiny to large for operations, states, measurements and instruments of every constrained kind; oracle: Choi eigenvalues, traces and sums computed here from Pauli matrices, and dense noise channels built here."
import collections, warnings
import numpy as np
import scipy.linalg as sla
from hypothesis import strategies as st
from vt.runner import facet
from vt import models as M
from vt.gen import *
from vt.mstrat import explicit_specs
import pygsti
from pygsti import objects as po
from pygsti.objects import operation as _op, spamvec as _sv, povm as _povm, instrument as _inst
from pygsti.tools import basistools as bt

CP = {"CPTP", "H+S", "S", "H+D", "D"}
DIAG = {"S", "D", "s", "d"}   # Pauli-stochastic when the ideal operation is the identity


def choi(S, B):
    """Choi matrix (trace 1 for TP) of a superoperator on vectors of coefficients in orthonormal Hermitian basis B"""
    d = B[0].shape[0]
    return sum(S[i, j] * np.kron(B[i], B[j].T) for i in range(len(B)) for j in range(len(B))) / d


def choi_min(S, B): return np.linalg.eigvalsh((lambda c: (c + c.conj().T) / 2)(choi(S, B))).min()


def tr_row(B): return np.array([np.trace(b).real for b in B])


def scale_of(S): return max(1.0, np.abs(S).max())


def check_op(rec, S, B, tp=True, cp=False, what=""):
    S = np.asarray(S); rec.check(np.abs(S.imag).max() < 1e-10 if np.iscomplexobj(S) else True, what, "is not real"); S = S.real
    t = tr_row(B)
    if tp: rec.check(np.abs(t @ S - t).max() <= 1e-9 * scale_of(S), what, "does not preserve trace", np.abs(t @ S - t).max())
    if cp: rec.check(choi_min(S, B) >= -1e-9 * scale_of(S), what, "is not completely positive", choi_min(S, B))


def newvec(o, r, scale):
    n = o.num_params()
    v = scale * r.randn(n)
    k = r.randint(4)
    if k == 0 and n: v[r.rand(n) < 0.5] = 0.0
    if k == 1 and n: v = v + o.to_vector()
    return v


def capped(o, v):
    """stochastic operations describe channels as long as their rates add to at most one"""
    if isinstance(o, _op.DepolarizeOp): return np.clip(v, -0.5, 0.5) / o.dim**0.5
    s = np.sum(v**2)
    return v if s <= 1 else v / np.sqrt(s)


def unital(n, r):
    S = M.super_of(M.target_u(n, r), n)
    for _ in range(r.randint(3)): w = 0.9 + 0.1 * r.rand(); S = w * S + (1 - w) * M.super_of(M.rand_unitary(2**n, r), n)
    return S


scales = st.sampled_from([1e-3, 0.05, 0.4, 1.5])


# ------------------------------------------------------------------------------------------- operations
@facet(st.fixed_dictionaries({"kind": st.sampled_from(["tp", "eigtp", "stoch", "depol", "unitary", "composed", "embedded", "exp", "linear"] + ["lind:" + l for l in M.LIND]),
                              "n": st.sampled_from([1, 1, 2]), "seed": seeds, "scale": scales, "steps": st.integers(1, 3)}),
       quick=900, rule="parameters were set at least once and the member has some")
def operations(case, rec):
    r = np.random.RandomState(case["seed"]); n = case["n"]; kind = case["kind"]; B = M.pauli_mxs(n); d = 4**n
    if n == 2 and case["scale"] > 1: rec.skip("large parameters of two-qubit members")
    sub = lambda nn: M.mk_op(["lind:CPTP", "lind:H+S", "lind:S", "lind:H+D", "stoch", "depol"][r.randint(6)], nn, r, 0.0, dense=bool(r.randint(2)))
    tp, cp, diag = True, True, False
    parts = []
    if kind == "tp": o = M.mk_op("tp", n, r, 0.05); cp = False
    elif kind == "eigtp":
        offd = bool(r.randint(2))
        try: o = _op.EigenvalueParamDenseOp(unital(n, r),
                                            includeOffDiagsInDegen2Blocks=offd, TPconstrainedAndUnital=True)
        except Exception as e: rec.skip("no eigenvalue parameterisation: %s" % type(e).__name__)
        cp = False
    elif kind == "linear":
        # only the lower rows depend on parameters: the constraint is that the rest stays as it was
        base = M.super_of(M.target_u(n, r), n); pos = [(int(r.randint(1, d)), int(r.randint(d))) for _ in range(4)]; pos = list(dict.fromkeys(pos))
        lt = M.super_of(M.rand_unitary(2**n, r), n) if r.randint(2) else None; rt = M.super_of(M.rand_unitary(2**n, r), n) if r.randint(2) else None
        real = True
        pm = collections.OrderedDict((i, pos[i::2]) for i in range(min(2, len(pos))))
        o = _op.LinearlyParamDenseOp(base, np.zeros(len(pm)), dict(pm), leftTransform=lt, rightTransform=rt, real=real); cp = False
    elif kind == "unitary":
        U = M.target_u(n, r)
        o = (_op.LindbladDenseOp if r.randint(2) else _op.LindbladOp).from_operation_matrix(M.super_of(U, n), M.super_of(U, n) if r.randint(2) else None, ham_basis="pp", nonham_basis=None,
                                                                                          param_mode="cptp", mxBasis="pp")
    elif kind == "composed":
        parts = [sub(n) for _ in range(r.randint(1, 4))]
        o = (_op.ComposedDenseOp if r.randint(2) else _op.ComposedOp)(parts)
    elif kind == "exp": parts = [sub(n)]; o = _op.ExponentiatedOp(parts[0], int(r.randint(1, 5)))
    elif kind == "embedded":
        k = int(r.randint(1, n + 1)); parts = [sub(k)]
        o = (_op.EmbeddedDenseOp if r.randint(2) else _op.EmbeddedOp)([tuple(range(n))], [int(x) for x in r.permutation(n)[:k]], parts[0])
    elif kind in ("stoch", "depol"): o = M.mk_op(kind, n, r, 0.01); diag = True
    else:
        pt = kind[5:]; cp = pt in CP
        ident = bool(r.randint(2)); U = np.eye(2**n) if ident else M.target_u(n, r)
        S = M.super_of(U, n)
        o = (_op.LindbladDenseOp if r.randint(2) else _op.LindbladOp).from_operation_obj(S, pt, S, "pp", "pp", truncate=True)
        diag = ident and pt in DIAG
    o = M.alone(o)
    for step in range(case["steps"]):
        v = newvec(o, r, case["scale"])
        if kind in ("eigtp", "linear", "tp"): v = o.to_vector() + min(case["scale"], 0.4) * r.randn(o.num_params())
        if kind in ("stoch", "depol"): v = capped(o, v)
        elif parts:   # stochastic parts of a composite get rates that make sense
            for p in {id(x): x for x in parts}.values():
                if not p.num_params() or p.gpindices is None: continue
                if isinstance(p, _op.StochasticNoiseOp): v[p.gpindices] = capped(p, v[p.gpindices])
        o.from_vector(v)
        S = np.asarray(o.todense())
        check_op(rec, S, B, tp, cp, kind)
        if diag: rec.check(np.abs(S - np.diag(np.diag(S))).max() < 1e-9 * scale_of(S), kind, "is not Pauli-stochastic")
        if kind == "depol": rec.check(np.abs(np.diag(S)[1:] - S[1, 1]).max() < 1e-9, "depolarising operation is not uniform", np.diag(S))
        if kind == "unitary":
            rec.check(np.abs(S.T @ S - np.eye(d)).max() < 1e-9, "unitary member is not orthogonal")
            w = np.linalg.eigvalsh(choi(S, B)); rec.check(abs(w[-1] - 1) < 1e-8 and np.abs(w[:-1]).max() < 1e-8, "unitary member has Choi rank above one", w)
        if kind == "eigtp":
            e0 = np.eye(d)[0]
            rec.check(np.abs(S[0] - e0).max() < 1e-8 * scale_of(S) and (offd or np.abs(S[:, 0] - e0).max() < 1e-8 * scale_of(S)), "constrained eigenvalue member isn't TP and unital", S[0], S[:, 0])
        if kind == "linear":
            L = np.eye(d) if lt is None else lt; R = np.eye(d) if rt is None else rt
            X = np.zeros((d, d))
            for p, ijs in pm.items():
                for i, j in ijs: X[i, j] += v[p]
            rec.check(np.abs(S - (L @ (base + X) @ R)).max() < 1e-9 * scale_of(S), "linear member is not L.(base + params).R", np.abs(S - (L @ (base + X) @ R)).max())
        rec.check(np.abs(o.to_vector() - v).max() < 1e-9 if o.num_params() and kind != "eigtp" else True, kind, "parameters read back differ")
    rec.nt(o.num_params() > 0)
    if o.num_params(): rec.note(kind)


# ------------------------------------------------------------------------------------------- other bases and dimensions
@facet(st.fixed_dictionaries({"d": st.sampled_from([2, 3, 3, 4]), "basis": st.sampled_from(["gm", "gm", "pp", "qt"]), "mode": st.sampled_from(["CPTP", "H+S", "S", "H+D", "D", "GLND", "CPTP"]), "seed": seeds,
                              "scale": st.sampled_from([1e-3, 0.05, 0.4])}), quick=250, rule="the operation differs from the ideal one by more than 1e-4")
def other_bases(case, rec):
    r = np.random.RandomState(case["seed"]); d = case["d"]; b = case["basis"]
    if b == "pp" and d == 3 or b == "qt" and d != 3: b = "gm"
    if d == 4 and case["scale"] > 0.1: rec.skip("large parameters at dimension 16")
    B = [np.asarray(x) for x in bt.basis_matrices(b, d * d)]
    U = M.rand_unitary(d, r)
    S0 = np.array([[np.trace(a.conj().T @ U @ c @ U.conj().T).real for c in B] for a in B])
    o = (_op.LindbladDenseOp if r.randint(2) else _op.LindbladOp).from_operation_obj(S0, case["mode"], S0, b, b, truncate=True)
    rec.check(np.abs(o.todense() - S0).max() < 1e-7, "ideal operation isn't reproduced", np.abs(o.todense() - S0).max())
    o.from_vector(case["scale"] * r.randn(o.num_params()))
    S = np.asarray(o.todense())
    check_op(rec, S, B, True, case["mode"] in CP, "%s in basis %s, d=%d" % (case["mode"], b, d))
    rec.nt(np.abs(S - S0).max() > 1e-4)


# ------------------------------------------------------------------------------------------- states, measurements, instruments
def dm_of(v, B): return sum(np.asarray(x).item() * b for x, b in zip(np.asarray(v).ravel(), B))


@facet(st.fixed_dictionaries({"kind": st.sampled_from(["prep:tp", "prep:cptp", "prep:lind:CPTP", "prep:lind:H+S", "prep:lind:S", "prep:lind:GLND", "prep:tensor",
                                                       "povm:tp", "povm:lind:CPTP", "povm:lind:H+S", "povm:lind:GLND", "povm:tensor", "inst:tp"]),
                              "n": st.sampled_from([1, 1, 2]), "seed": seeds, "scale": scales, "steps": st.integers(1, 3)}),
       quick=600, rule="parameters were set at least once and the member has some")
def spam_and_instruments(case, rec):
    r = np.random.RandomState(case["seed"]); n = case["n"]; B = M.pauli_mxs(n); d = 2**n
    what, kind = case["kind"].split(":", 1)
    if n == 2 and case["scale"] > 1: rec.skip("large parameters of two-qubit members")
    facs = []
    if what == "prep":
        if kind == "tensor":
            facs = [M.mk_prep(["tp", "lind:CPTP", "lind:H+S"][r.randint(3)], 1, r, 0.0) for _ in range(n)]; o = _sv.TensorProdSPAMVec("prep", facs)
        else: o = M.mk_prep(kind, n, r, 0.0)
    elif what == "povm":
        if kind == "tensor": facs = [M.mk_povm(["tp", "comp", "lind:CPTP"][r.randint(3)] if 0 else ["tp", "comp"][r.randint(2)], 1, r, 0.0) for _ in range(n)]; o = _povm.TensorProdPOVM(facs)
        else: o = M.mk_povm(kind, n, r, 0.0, labels=None if r.randint(2) or n == 2 else ["a", "b"])
    else: o = M.mk_inst(kind, n, r, 0.05, labels=[("p0", "p1"), ("x", "y", "z")][r.randint(2)])
    o = M.alone(o)
    if not o.num_params(): rec.skip("no parameters")
    phys = kind in ("cptp", "lind:CPTP", "lind:H+S", "lind:S") or (kind == "tensor" and what == "prep" and not any(isinstance(f, _sv.TPSPAMVec) for f in facs))
    for _ in range(case["steps"]):
        v = newvec(o, r, case["scale"])
        if kind == "cptp" and np.linalg.norm(v) < 1e-6: v = o.to_vector()
        o.from_vector(v)
        if what == "prep":
            rho = dm_of(o.todense(), B); sc = max(1, np.abs(rho).max())
            rec.check(abs(np.trace(rho) - 1) < 1e-9 * sc, case["kind"], "trace", np.trace(rho))
            if phys: rec.check(np.linalg.eigvalsh((rho + rho.conj().T) / 2).min() > -1e-9, case["kind"], "has a negative eigenvalue", np.linalg.eigvalsh(rho).min())
        elif what == "povm":
            tot = sum(dm_of(e.todense(), B) for e in o.values()); sc = max(1, max(np.abs(e.todense()).max() for e in o.values()))
            rec.check(np.abs(tot - np.eye(d)).max() < 1e-9 * sc, case["kind"], "effects don't sum to the identity", np.abs(tot - np.eye(d)).max())
            if phys:
                for k, e in o.items():
                    w = np.linalg.eigvalsh(dm_of(e.todense(), B)); rec.check(w.min() > -1e-9 and w.max() < 1 + 1e-9, case["kind"], "effect", k, "has eigenvalues", w)
        else:
            S = sum(np.asarray(e.todense()) for e in o.values()); check_op(rec, S, B, True, False, "sum of instrument members")
    rec.nt(True); rec.note(what)


# ------------------------------------------------------------------------------------------- projections and contractions
@facet(st.fixed_dictionaries({"to": st.sampled_from(["TP", "CP", "CPTP", "CPTP", "vSPAM", "nothing"]), "n": st.sampled_from([1, 1, 1, 2]), "seed": seeds, "out": st.sampled_from([0.0, 0.0, 1e-3, 0.03, 0.2]),
                              "base": st.sampled_from(["unitary", "cptp"]), "nops": st.integers(1, 3)}),
       quick=160, rule="the given model is outside the set", case_s=60)
def contractions(case, rec):
    r = np.random.RandomState(case["seed"]); n = case["n"]; to = case["to"]; B = M.pauli_mxs(n); d = 2**n; out = case["out"]
    if n == 2 and to == "vSPAM" and out > 0.1: rec.skip("slow")
    m = po.ExplicitOpModel([tuple(range(n))], "pp")
    v = M.vec_of((1 - 0.2) * M.rand_dm(n, r, 0.0) + 0.2 * np.eye(d) / d if to != "vSPAM" or r.randint(2) else M.rand_dm(n, r, 0.0), n)
    if to == "TP": m.preps["rho0"] = _sv.FullSPAMVec(v + out * r.randn(4**n), "densitymx", "prep")
    elif to == "vSPAM": m.preps["rho0"] = _sv.FullSPAMVec(v + min(out, 0.03) * r.randn(4**n), "densitymx", "prep")
    else: m.preps["rho0"] = _sv.FullSPAMVec(v, "densitymx", "prep")
    effs = [M.vec_of(e, n) for e in M.effects(n, r, 0.0)]
    if to == "vSPAM": effs = [e + out * r.randn(4**n) for e in effs]
    m.povms["Mdefault"] = po.UnconstrainedPOVM([("%d" % i, e) for i, e in enumerate(effs)])
    outside = False
    for i in range(case["nops"]):
        U = M.target_u(n, r)
        S = M.super_of(U if case["base"] == "unitary" else [k @ U for k in M.rand_kraus(d, r, 0.05)], n) + out * r.randn(4**n, 4**n)
        m.operations["G%s" % "xyz"[i]] = _op.FullDenseOp(S)
    orig = m.copy()
    mats = {k: np.asarray(g.todense()).copy() for k, g in m.operations.items()}
    if to == "TP": outside = out > 0
    elif to in ("CP", "CPTP"): outside = any(choi_min(S, B) < -1e-6 or (to == "CPTP" and np.abs(S[0] - np.eye(4**n)[0]).max() > 1e-6) for S in mats.values())
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        c = pygsti.contract(m, to, verbosity=0) if to not in ("CP", "CPTP") else pygsti.contract(m, to, verbosity=0, maxiter=2000)
    for k in mats: rec.check(np.array_equal(m.operations[k].todense(), mats[k]), "the given model was changed")
    rec.check(np.array_equal(m.to_vector(), orig.to_vector()), "the given model was changed")
    rec.check(list(c.operations.keys()) == list(m.operations.keys()) and list(c.povms["Mdefault"].keys()) == list(m.povms["Mdefault"].keys()), "labels changed")
    for k, S0 in mats.items():
        S = np.asarray(c.operations[k].todense())
        if to in ("TP", "CPTP"): rec.check(np.abs(S[0] - np.eye(4**n)[0]).max() < 1e-7, to, "operation isn't TP", S[0])
        if to in ("CP", "CPTP"): rec.check(choi_min(S, B) > -1e-7, to, "operation isn't CP", choi_min(S, B))
        isin = to in ("vSPAM", "nothing") or (to == "TP" and np.abs(S0[0] - np.eye(4**n)[0]).max() == 0) or \
            (to == "CP" and choi_min(S0, B) > -1e-12 and abs(S0[0, 0] - 1) < 1e-12) or (to == "CPTP" and choi_min(S0, B) > -1e-12 and np.abs(S0[0] - np.eye(4**n)[0]).max() < 1e-12)
        if isin: rec.check(np.abs(S - S0).max() < 1e-7, to, "changes an operation already in the set by", np.abs(S - S0).max())
    if to == "TP":
        rec.check(all(np.abs(np.asarray(c.operations[k].todense())[1:] - S0[1:]).max() < 1e-12 for k, S0 in mats.items()), "TP contraction changes other rows")
    v1 = np.asarray(c.preps["rho0"].todense()).ravel(); v0 = np.asarray(orig.preps["rho0"].todense()).ravel()
    if to in ("TP", "CPTP", "vSPAM"): rec.check(abs(v1[0] - 1 / np.sqrt(d)) < 1e-8, "state's trace after contraction to", to, v1[0] * np.sqrt(d))
    if to == "vSPAM":
        w0 = np.linalg.eigvalsh(dm_of(v0, B)).min(); outside = w0 < -1e-6
        rec.check(np.linalg.eigvalsh(dm_of(v1, B)).min() > -1e-6, "contracted state isn't positive", np.linalg.eigvalsh(dm_of(v1, B)).min())
        for k, e in c.povms["Mdefault"].items():
            w = np.linalg.eigvalsh(dm_of(e.todense(), B)); rec.check(w.min() > -1e-6 and w.max() < 1 + 1e-6, "contracted effect has eigenvalues", w)
        if w0 > 1e-12 and abs(v0[0] - 1 / np.sqrt(d)) < 1e-12: rec.check(np.abs(v1 - v0).max() < 1e-8, "a valid state was changed")
        if out == 0:
            for k, e in c.povms["Mdefault"].items(): rec.check(np.abs(np.asarray(e.todense()).ravel() - np.asarray(orig.povms["Mdefault"][k].todense()).ravel()).max() < 1e-7, "a valid effect was changed")
    elif to == "nothing": rec.check(np.array_equal(c.to_vector(), m.to_vector()), "contracting to nothing changed parameters")
    rec.check(c.to_vector().shape == (c.num_params(),), "contracted model's parameter vector")
    rec.nt(outside)


# ------------------------------------------------------------------------------------------- Lindblad projections
@facet(st.fixed_dictionaries({"mode": st.sampled_from(["CPTP", "H+S", "S", "H+D", "D", "GLND", "H+s", "s"]), "n": st.sampled_from([1, 1, 2]), "seed": seeds, "inside": st.booleans(), "eps": st.sampled_from([1e-4, 0.01, 0.1])}),
       quick=240, rule="the given operation differs from the ideal one")
def lindblad_projections(case, rec):
    r = np.random.RandomState(case["seed"]); n = case["n"]; B = M.pauli_mxs(n); d = 2**n; mode = case["mode"]; eps = case["eps"]
    S0 = M.super_of(M.target_u(n, r), n)
    if case["inside"]:
        ps = M.paulis(n)[1:]; errs = {}
        if mode[0] == "H" or mode in ("CPTP", "GLND"):
            for p in ps:
                if r.randint(2): errs["H", p] = eps * r.randn()
        x = eps * r.rand()
        for p in ps:
            if mode in ("D", "H+D"): errs["S", p] = x
            elif mode in ("s", "H+s", "GLND"): errs["S", p] = eps * (r.rand() - 0.3)
            else: errs["S", p] = eps * r.rand() * r.randint(2)
        S = sla.expm(M.gen_of(errs, n)) @ S0
    else:
        S = S0 + eps * r.randn(4**n, 4**n) * (1 if r.randint(2) else 0.1)
        S[0] = np.eye(4**n)[0]
    if np.abs(S @ S0.T - np.eye(4**n)).max() > 0.7: rec.skip("too far for a principal logarithm")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        o = (_op.LindbladDenseOp if r.randint(2) else _op.LindbladOp).from_operation_obj(S, mode, S0, "pp", "pp", truncate=True)
    T = np.asarray(o.todense())
    check_op(rec, T, B, True, mode in CP, "projection to " + mode)
    if case["inside"]: rec.check(np.abs(T - S).max() < 1e-6, mode, "projection moves a member of the set by", np.abs(T - S).max())
    # a second projection leaves the first's result alone
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        o2 = _op.LindbladDenseOp.from_operation_obj(T, mode, S0, "pp", "pp", truncate=True)
    rec.check(np.abs(np.asarray(o2.todense()) - T).max() < 1e-6, mode, "projecting twice differs from once by", np.abs(np.asarray(o2.todense()) - T).max())
    if mode == "CPTP" and not case["inside"] and n == 1:   # convertible to the general mode exactly
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            g = _op.LindbladDenseOp.from_operation_obj(S, "GLND", S0, "pp", "pp", truncate=True)
        rec.check(np.abs(np.asarray(g.todense()) - S).max() < 1e-6, "GLND doesn't represent a TP map near the ideal one", np.abs(np.asarray(g.todense()) - S).max())
    rec.nt(np.abs(S - S0).max() > 1e-6)


# ------------------------------------------------------------------------------------------- requested noise
def rot_super(rot, n):
    ps = M.paulis(n)[1:]
    return M.super_of(sla.expm(-0.5j * sum(x * M.pmat(p) for x, p in zip(rot, ps))), n)


@facet(st.fixed_dictionaries({"spec": explicit_specs(kinds=["full", "tp", "full", "tp", "lind:CPTP"], prepkinds=["full", "tp"], povmkinds=["full", "tp", "comp"]),
                              "what": st.sampled_from(["op", "spam", "both", "maxop", "maxspam", "rotate", "maxrotate", "unitary", "kick"]), "p": st.sampled_from([0.0, 0.01, 0.13, 0.5]), "seed": seeds}),
       quick=300, rule="some noise was applied")
def requested_noise(case, rec):
    spec = dict(case["spec"]); n = spec["nq"]; p = case["p"]; what = case["what"]; d = 4**n
    if spec.get("inst") == "static": spec["inst"] = "full"
    spec["ops"] = [[a, None, k] for a, _, k in spec["ops"]]
    m = M.explicit(spec)
    if any(k.startswith("lind") for _, _, k in spec["ops"]) and what in ("rotate", "maxrotate", "op", "both", "maxop"):
        if p > 0.2: p = 0.13
    before = {k: np.asarray(g.todense()).copy() for k, g in m.operations.items()}
    ib = {k: {l: np.asarray(g.todense()).copy() for l, g in i.items()} for k, i in m.instruments.items()}
    pb = {k: np.asarray(g.todense()).ravel().copy() for k, g in m.preps.items()}
    eb = {k: {l: np.asarray(g.todense()).ravel().copy() for l, g in i.items()} for k, i in m.povms.items()}
    if any(isinstance(g, _op.LindbladOp) and g.unitary_postfactor is None for g in m.operations.values()): rec.skip("principal logarithm may not exist")
    vec = m.to_vector().copy(); r = np.random.RandomState(case["seed"]); sd = case["seed"]
    D = lambda a: np.diag([1.0] + [1 - a] * (d - 1))
    nop, nin = len(before), len(ib)
    exp = {k: np.eye(d) for k in before}; iexp = {k: np.eye(d) for k in ib}; pexp = {k: np.eye(d) for k in pb}
    tol = 1e-7
    if what in ("op", "both"):
        c = m.depolarize(op_noise=p, spam_noise=(p / 2 if what == "both" else None))
        for k in exp: exp[k] = D(p)
        for k in iexp: iexp[k] = D(p)
        if what == "both":
            for k in pexp: pexp[k] = D(p / 2)
    elif what == "spam":
        c = m.depolarize(spam_noise=p)
        for k in pexp: pexp[k] = D(p)
    elif what == "rotate":
        rot = p * r.randn(d - 1); c = m.rotate(tuple(rot))
        for k in exp: exp[k] = rot_super(rot, n)
        for k in iexp: iexp[k] = rot_super(rot, n)
    elif what in ("maxop", "maxspam", "maxrotate", "unitary", "kick"):
        if what == "maxspam" and any("tp" in k or "comp" in k for k in spec["povms"]): rec.skip("measurement noise is not offered for this kind of measurement")
        f = {"maxop": lambda: m.depolarize(max_op_noise=p, seed=sd), "maxspam": lambda: m.depolarize(max_spam_noise=p, seed=sd), "maxrotate": lambda: m.rotate(max_rotate=p, seed=sd),
             "unitary": lambda: m.randomize_with_unitary(p, seed=sd), "kick": lambda: m.kick(p, seed=sd)}[what]
        c = f(); c2 = f()
        rec.check(np.array_equal(c.to_vector(), c2.to_vector()), what, "with one seed gives two results")
        rec.check(np.array_equal(m.to_vector(), vec), what, "changed the given model")
        B = M.pauli_mxs(n)
        for k, S0 in before.items():
            S = np.asarray(c.operations[k].todense())
            if what == "kick": rec.check(np.abs(S - S0).max() <= p + 1e-12, "kick larger than asked for"); continue
            if isinstance(m.operations[k], _op.LindbladOp) and what != 'unitary': continue   # (only approximately representable)
            E = S @ np.linalg.inv(S0)
            if what == "maxspam": rec.check(np.abs(S - S0).max() < tol, "operation changed by SPAM noise")
            elif what == "maxop":
                a = 1 - E[1, 1]; rec.check(-1e-7 <= a <= p + 1e-7 and np.abs(E - D(a)).max() < tol * 10, "max_op_noise isn't depolarisation by at most that", a)
            elif np.linalg.cond(S0) < 1e4:
                rec.check(np.abs(E @ E.T - np.eye(d)).max() < 1e-6 and choi_min(E, B) > -1e-6, what, "isn't followed by a unitary")
                if what == "maxrotate" and p <= 0.13:
                    w = np.sort(np.abs(np.angle(np.linalg.eigvals(E))))[-1]
                    rec.check(w <= p * np.sqrt(d - 1) * 2**n + 1e-6, "rotation larger than asked for", w)
        if what == "maxspam":
            for k, v0 in pb.items():
                v = np.asarray(c.preps[k].todense()).ravel()
                if np.abs(v0[1:]).max() > 1e-3:
                    a = 1 - np.dot(v[1:], v0[1:]) / np.dot(v0[1:], v0[1:]); rec.check(-1e-9 <= a <= p + 1e-9 and np.abs(v - D(a) @ v0).max() < tol, "max_spam_noise isn't depolarisation by at most that")
            for k, es in eb.items():
                a = None
                for l, v0 in es.items():
                    v = np.asarray(c.povms[k][l].todense()).ravel()
                    if np.abs(v0[1:]).max() > 1e-3:
                        b = 1 - np.dot(v[1:], v0[1:]) / np.dot(v0[1:], v0[1:]); a = b if a is None else a
                        rec.check(-1e-9 <= b <= p + 1e-9 and abs(a - b) < 1e-7 and np.abs(v - D(b) @ v0).max() < tol, "max_spam_noise isn't depolarisation of the measurement by at most that")
        rec.nt(p > 0); return
    rec.check(np.array_equal(m.to_vector(), vec), what, "changed the given model")
    lind = lambda k: isinstance(m.operations[k], _op.LindbladOp)
    for k, S0 in before.items():
        S = np.asarray(c.operations[k].todense()); t = (0.06 if spec['eps'] else 1e-6) if lind(k) else tol
        rec.check(np.abs(S - exp[k] @ S0).max() < t, what, "operation", str(k), type(m.operations[k]).__name__, "is off by", np.abs(S - exp[k] @ S0).max())
    for k in ib:
        for l, S0 in ib[k].items():
            S = np.asarray(c.instruments[k][l].todense()); rec.check(np.abs(S - iexp[k] @ S0).max() < tol, what, "instrument", str(k), l, "is off by", np.abs(S - iexp[k] @ S0).max())
    for k, v0 in pb.items(): rec.check(np.abs(np.asarray(c.preps[k].todense()).ravel() - pexp[k] @ v0).max() < tol, what, "state", str(k), "is off")
    for k in eb:
        for l, v0 in eb[k].items(): rec.check(np.abs(np.asarray(c.povms[k][l].todense()).ravel() - v0).max() < tol, what, "effect", str(k), l, "was changed")
    cv = c.to_vector(); c.from_vector(cv)   # and the copy's parameter vector describes it
    for k in before: rec.check(np.abs(np.asarray(c.operations[k].todense()) - exp[k] @ before[k]).max() < (0.06 if lind(k) else 1e-5), what, "parameters of the noisy copy don't describe it", str(k))
    for k in ib:
        for l in ib[k]: rec.check(np.abs(np.asarray(c.instruments[k][l].todense()) - iexp[k] @ ib[k][l]).max() < 1e-7, what, "parameters of the noisy copy don't describe its instrument", l)
    rec.nt(p > 0)
