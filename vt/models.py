"""Builders of random model members and models (numbers come from a seeded generator, so a case stays JSON-able)."""
import numpy as np, collections
import scipy.linalg as sla
import pygsti
from pygsti import objects as po
from pygsti.objects import operation as _op, spamvec as _sv, povm as _povm, instrument as _inst
from pygsti.tools import unitary_to_process_mx, change_basis
from pygsti.objects import Label, Circuit, ExplicitOpModel

PX = np.array([[0, 1], [1, 0]], complex); PY = np.array([[0, -1j], [1j, 0]]); PZ = np.diag([1, -1]).astype(complex); PI = np.eye(2, dtype=complex)
PAULI = {"I": PI, "X": PX, "Y": PY, "Z": PZ}
LIND = ["CPTP", "GLND", "H+S", "S", "H+D", "D", "H+S+A", "S+A", "H+D+A", "D+A", "H+s", "H+d", "s", "d+A"]
OPKINDS = ["static", "full", "tp", "linear", "eig", "stoch", "depol", "composed", "embedded", "exp"] + ["lind:" + l for l in LIND]
PREPKINDS = ["static", "full", "tp", "cptp", "comp", "tensor", "lind:CPTP", "lind:H+S", "lind:GLND", "lind:S"]
POVMKINDS = ["full", "tp", "static", "comp", "tensor", "lind:CPTP", "lind:H+S", "lind:GLND"]


def kron(*ms):
    r = np.eye(1)
    for m in ms: r = np.kron(r, m)
    return r


def rand_unitary(d, rng, eps=None):
    h = rng.randn(d, d) + 1j * rng.randn(d, d); h = (h + h.conj().T) / 2
    return sla.expm(-1j * h * (1.0 if eps is None else eps))


def pauli_mxs(n):
    import itertools
    return [kron(*[PAULI[c] for c in s]) / 2**(n / 2.0) for s in itertools.product("IXYZ", repeat=n)]


def super_of(U_or_kraus, n):
    """process matrix in the normalized Pauli basis, computed from the definition"""
    ks = U_or_kraus if isinstance(U_or_kraus, list) else [U_or_kraus]
    P = pauli_mxs(n)
    return np.array([[np.real(np.trace(a @ sum(k @ b @ k.conj().T for k in ks))) for b in P] for a in P])


def rand_kraus(d, rng, eps, nk=3):
    """CPTP map at distance ~eps from the identity"""
    a = [np.eye(d) + eps * (rng.randn(d, d) + 1j * rng.randn(d, d))] + [np.sqrt(eps) * 0.5 * (rng.randn(d, d) + 1j * rng.randn(d, d)) for _ in range(nk - 1)]
    s = sum(k.conj().T @ k for k in a)
    w = sla.inv(sla.sqrtm(s))
    return [k @ w for k in a]


STDU = {"Gxpi2": sla.expm(-1j * np.pi / 4 * PX), "Gypi2": sla.expm(-1j * np.pi / 4 * PY), "Gzpi2": sla.expm(-1j * np.pi / 4 * PZ), "Gi": PI,
        "Gh": (PX + PZ) / np.sqrt(2), "Gxpi": PX, "Gcnot": np.array([[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 0, 1], [0, 0, 1, 0]], complex), "Gcphase": np.diag([1, 1, 1, -1]).astype(complex)}


def alone(o):
    """give a stand-alone member its own parameter indices"""
    if o.gpindices is None: o.allocate_gpindices(0, None)
    return o


def perturb(obj, rng, eps):
    if eps and obj.num_params():
        obj.from_vector(obj.to_vector() + eps * rng.randn(obj.num_params()))
    return obj


def target_u(n, rng):
    k = rng.randint(0, 3)
    if k == 0: return rand_unitary(2**n, rng)
    if n == 1: return STDU[["Gxpi2", "Gypi2", "Gzpi2", "Gi", "Gh"][rng.randint(5)]]
    if n == 2 and k == 1: return STDU[["Gcnot", "Gcphase"][rng.randint(2)]]
    return kron(*[STDU[["Gxpi2", "Gypi2", "Gzpi2", "Gi"][rng.randint(4)]] for _ in range(n)])


def mk_op(kind, n, rng, eps=0.05, depth=2, U=None, dense=None):
    """A member of the given parameterization acting on n qubits, at (about) distance eps of a unitary."""
    d = 4**n
    if U is None: U = target_u(n, rng)
    M = super_of([k @ U for k in rand_kraus(2**n, rng, eps)] if eps else U, n)
    if kind == "static": return _op.StaticDenseOp(M)
    if kind == "full": return perturb(_op.FullDenseOp(M), rng, eps)
    if kind == "tp": return perturb(_op.TPDenseOp(M), rng, eps)
    if kind == "linear":
        npar = int(rng.randint(1, 5)); ij = [(i, j) for i in range(1, d) for j in range(d)]; rng.shuffle(ij)
        pm = {}; k = 0
        for p in range(npar):
            c = int(rng.randint(1, 3)); pm[p] = [tuple(int(t) for t in x) for x in ij[k:k + c]]; k += c
        kw = {}
        if rng.randint(2): kw = {"leftTransform": super_of(rand_unitary(2**n, rng), n), "rightTransform": super_of(rand_unitary(2**n, rng), n)}
        return _op.LinearlyParamDenseOp(M, eps * rng.randn(npar), pm, real=True, **kw)
    if kind == "eig":
        return perturb(_op.EigenvalueParamDenseOp(super_of(U, n) if rng.randint(2) else M, bool(rng.randint(2)), False), rng, eps * 0.2)
    if kind == "stoch": return _op.StochasticNoiseOp(d, "pp", "densitymx", list(eps * rng.rand(d - 1)))
    if kind == "depol": return _op.DepolarizeOp(d, "pp", "densitymx", eps * rng.rand())
    if kind == "lindu": return perturb(_op.LindbladDenseOp.from_operation_obj(super_of(U, n), "CPTP", super_of(U, n), "pp", "pp", truncate=True), rng, eps)
    if kind.startswith("lind:"):
        pt = kind[5:]
        cls = _op.LindbladDenseOp if (rng.randint(2) if dense is None else dense) else _op.LindbladOp
        o = cls.from_operation_obj(super_of(U, n), pt, super_of(U, n) if rng.randint(4) else None, "pp", "pp", truncate=True)
        return perturb(o, rng, eps)
    simple = ["static", "full", "tp", "lind:CPTP", "lind:H+S", "lind:GLND", "stoch", "eig"]
    if depth <= 0: return mk_op(simple[rng.randint(len(simple))], n, rng, eps, dense=dense)
    sub = lambda nn: mk_op((simple + ["composed", "exp", "embedded"])[rng.randint(len(simple) + (3 if depth > 1 else 0))], nn, rng, eps, depth - 1, dense=dense)
    if kind == "composed":
        fs = [sub(n) for _ in range(rng.randint(1, 4))]
        if rng.randint(3) == 0: fs.append(fs[0])
        return (_op.ComposedDenseOp if (rng.randint(2) if dense is None else dense) else _op.ComposedOp)(fs)
    if kind == "exp":
        return _op.ExponentiatedOp(sub(n), int(rng.randint(1, 4)))
    if kind == "embedded":
        if n == 1: return mk_op("composed", 1, rng, eps, depth, dense=dense)
        k = int(rng.randint(1, n + 1)); labs = ["Q%d" % i for i in range(n)]; t = list(rng.permutation(labs))[:k]
        return (_op.EmbeddedDenseOp if (rng.randint(2) if dense is None else dense) else _op.EmbeddedOp)([tuple(labs)], [str(x) for x in t], sub(k))
    raise ValueError(kind)


def rand_dm(n, rng, mix=0.1):
    psi = rng.randn(2**n) + 1j * rng.randn(2**n); psi /= np.linalg.norm(psi)
    rho = (1 - mix) * np.outer(psi, psi.conj()) + mix * np.eye(2**n) / 2**n
    return rho


def vec_of(rho, n):
    return np.array([np.real(np.trace(p @ rho)) for p in pauli_mxs(n)])


def zero_dm(n, bits=None):
    v = np.zeros(2**n); v[0 if bits is None else int("".join(map(str, bits)), 2)] = 1
    return np.outer(v, v)


def mk_prep(kind, n, rng, eps=0.05):
    rho = zero_dm(n) if rng.randint(2) else rand_dm(n, rng, 0.0)
    if eps: rho = (1 - eps) * rho + eps * rand_dm(n, rng, 0.5)
    v = vec_of(rho, n)
    if kind == "static": return _sv.StaticSPAMVec(v, "densitymx", "prep")
    if kind == "full": return perturb(_sv.FullSPAMVec(v, "densitymx", "prep"), rng, eps)
    if kind == "tp": return perturb(_sv.TPSPAMVec(v), rng, eps)
    if kind == "cptp": return perturb(_sv.CPTPSPAMVec(v, "pp"), rng, eps)
    if kind == "comp": return _sv.ComputationalSPAMVec([int(x) for x in rng.randint(0, 2, n)], "densitymx", "prep")
    if kind == "tensor": return _sv.TensorProdSPAMVec("prep", [mk_prep(["static", "full", "tp", "lind:CPTP"][rng.randint(4)], 1, rng, eps) for _ in range(n)])
    if kind.startswith("lind:"):
        pv = vec_of(zero_dm(n), n) if rng.randint(2) else vec_of(rand_dm(n, rng, 0.0), n)
        base = _sv.StaticSPAMVec(pv, "densitymx", "prep")
        return perturb(_sv.LindbladSPAMVec.from_spamvec_obj(base, "prep", kind[5:], pv, "pp", "pp", truncate=True), rng, eps)
    raise ValueError(kind)


def effects(n, rng, eps, nout=None):
    """random POVM matrices"""
    if nout is None: nout = 2**n
    U = np.eye(2**n) if rng.randint(2) else rand_unitary(2**n, rng)
    es = [np.zeros((2**n, 2**n), complex) for _ in range(nout)]
    for i in range(2**n): es[i % nout] += np.outer(U[:, i], U[:, i].conj())
    if eps:
        es = [(1 - eps) * e + eps * np.eye(2**n) / nout for e in es]
    return es


def mk_povm(kind, n, rng, eps=0.05, labels=None):
    labs = labels or ["".join(x) for x in __import__("itertools").product("01", repeat=n)]
    items = collections.OrderedDict(zip(labs, [vec_of(e, n) for e in effects(n, rng, eps, len(labs))]))
    if kind == "full": return perturb(_povm.UnconstrainedPOVM(items), rng, eps)
    if kind == "static": return _povm.UnconstrainedPOVM(collections.OrderedDict((k, _sv.StaticSPAMVec(v, "densitymx", "effect")) for k, v in items.items()))
    if kind == "tp": return perturb(_povm.TPPOVM(items), rng, eps)
    if kind == "comp": return _povm.ComputationalBasisPOVM(n, "densitymx")
    if kind == "tensor": return _povm.TensorProdPOVM([mk_povm(["full", "tp", "static", "comp"][rng.randint(4)], 1, rng, eps) for _ in range(n)])
    if kind.startswith("lind:"):
        base = _povm.ComputationalBasisPOVM(n, "densitymx") if rng.randint(2) else mk_povm("static", n, rng, 0, labels)
        em = perturb(_op.LindbladDenseOp.from_operation_obj(np.eye(4**n), kind[5:], None, "pp", "pp", truncate=True), rng, eps)
        return _povm.LindbladPOVM(em, base, "pp")
    raise ValueError(kind)


def mk_inst(kind, n, rng, eps=0.05, labels=("p0", "p1")):
    U = rand_unitary(2**n, rng) if rng.randint(2) else np.eye(2**n)
    es = [np.zeros((2**n, 2**n), complex) for _ in labels]
    for i in range(2**n): es[i % len(labels)] += np.outer(U[:, i], U[:, i].conj())
    noise = super_of(rand_kraus(2**n, rng, eps), n) if eps else np.eye(4**n)
    ms = collections.OrderedDict((l, noise @ super_of(e, n)) for l, e in zip(labels, es))
    if kind == "tp": return perturb(_inst.TPInstrument(ms), rng, eps * 0.3)
    if kind == "static": return _inst.Instrument(collections.OrderedDict((k, _op.StaticDenseOp(v)) for k, v in ms.items()))
    return perturb(_inst.Instrument(ms), rng, eps * 0.3)


def explicit(spec):
    """spec: {nq, ops: [[name, sslbls or None, kind]..], prep, povm, inst: kind or None, seed, eps, sim}"""
    rng = np.random.RandomState(spec["seed"]); n = spec["nq"]; eps = spec.get("eps", 0.05)
    lines = tuple(spec.get("lines") or range(n))
    m = ExplicitOpModel(po.StateSpaceLabels([lines], [(4,) * n]), "pp", sim_type=spec.get("sim", "auto"))
    shared = None
    for i, k in enumerate(spec["preps"] if "preps" in spec else [spec["prep"]]): m.preps["rho%d" % i] = mk_prep(k, n, rng, eps)
    for i, k in enumerate(spec["povms"] if "povms" in spec else [spec["povm"]]): m.povms["Mdefault" if i == 0 else "M%d" % i] = mk_povm(k, n, rng, eps)
    for nm, ss, kind in spec["ops"]:
        lbl = Label(nm, tuple(ss)) if ss else Label(nm)
        if kind == "shared":   # composed of a noise operation common to all "shared" gates
            if shared is None: shared = mk_op("lind:H+S", n, rng, eps, U=np.eye(2**n), dense=True)
            m.operations[lbl] = _op.ComposedDenseOp([mk_op("static", n, rng, 0), shared])
        elif ss and len(ss) < n:
            m.operations[lbl] = _op.EmbeddedDenseOp(m.state_space_labels, list(ss), mk_op(kind, len(ss), rng, eps, dense=True))
        else:
            m.operations[lbl] = mk_op(kind, n, rng, eps, dense=True)
    if spec.get("inst"): m.instruments["Iz"] = mk_inst(spec["inst"], n, rng, eps)
    m.to_vector()
    return m


# ------------------------------------------------------------------------------------ independent references on n qubits
def paulis(n):
    import itertools
    return ["".join(s) for s in itertools.product("IXYZ", repeat=n)]


def pmat(name):
    return kron(*[PAULI[c] for c in name])


def super_fn(f, n):
    """process matrix (normalized Pauli basis) of a linear function on density matrices"""
    P = pauli_mxs(n)
    return np.array([[np.trace(a @ f(b)) for b in P] for a in P])


def embed_super(S, targets, n):
    """embed the Pauli-basis superoperator S on the given target qubit positions of n"""
    k = len(targets)
    rest = [i for i in range(n) if i not in targets]
    big = np.kron(S, np.eye(4**len(rest))).reshape([4] * (2 * n))   # ordering targets + rest
    order = list(targets) + rest
    perm = [order.index(i) for i in range(n)]
    return big.transpose(perm + [n + p for p in perm]).reshape(4**n, 4**n)


def gen_of(errs, n):
    """error generator (Pauli-basis superoperator) of a dict {(type, pauli[, pauli]): rate}"""
    L = np.zeros((4**n, 4**n), complex); d = 2**n
    for k, v in errs.items():
        P = pmat(k[1])
        if k[0] == "H": L = L + super_fn(lambda r: -0.5j * v * (P @ r - r @ P), n)
        elif k[0] == "A": L = L + super_fn(lambda r: v * P * np.trace(r) / np.sqrt(d), n)
        else:
            Q = pmat(k[2]) if len(k) > 2 else P
            L = L + super_fn(lambda r: v * (Q @ r @ P - 0.5 * (P @ Q @ r + r @ P @ Q)), n)
    assert np.abs(L.imag).max() < 1e-12 if L.size else True
    return L.real
