"""C20: Clifford and symplectic arithmetic against dense matrices."""
TECH = "property-based testing: every symplectic, stabiliser and GF(2) routine compared with dense unitaries, state vectors and brute-force linear algebra on generated Clifford words, states and bit matrices"
NOTE = "Generated-input search: words of up to 14 gates on 1-4 qubits (unitaries and Pauli conjugation computed independently from gate matrices), random group elements up to 6 qubits, full enumerations for 1 and 2 qubits; bit matrices up to 6 x 6."
import itertools
import numpy as np
from hypothesis import strategies as st
from vt.runner import facet
from vt import models as M
from vt.gen import *
import pygsti
from pygsti import objects as po
from pygsti.objects import Circuit, Label
from pygsti.objects import stabilizer as _st, spamvec as _sv
from pygsti.tools import symplectic as S, matrixmod2 as Z, internalgates as IG

X = np.array([[0, 1], [1, 0]], complex); Zm = np.diag([1, -1]).astype(complex); I2 = np.eye(2, dtype=complex); Y = 1j * X @ Zm
Hd = np.array([[1, 1], [1, -1]], complex) / np.sqrt(2); Ph = np.diag([1, 1j])
# independent definitions of the internally named gates
G1 = {"I": I2, "X": X, "Y": Y, "Z": Zm, "H": Hd, "P": Ph, "HP": Hd @ Ph, "PH": Ph @ Hd, "HPH": Hd @ Ph @ Hd}
G2 = {"CNOT": np.array([[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 0, 1], [0, 0, 1, 0]], complex), "CPHASE": np.diag([1, 1, 1, -1]).astype(complex), "SWAP": np.array([[1, 0, 0, 0], [0, 0, 1, 0], [0, 1, 0, 0], [0, 0, 0, 1]], complex)}
C1 = ["C%d" % i for i in range(24)]


def gate_u(g): return G1[g] if g in G1 else G2[g] if g in G2 else IG.get_internal_gate_unitaries()[g]


def embed(U, qs, n):
    k = len(qs); T = np.eye(2**n, dtype=complex).reshape((2,) * n + (2**n,))
    T = np.tensordot(U.reshape((2,) * (2 * k)), T, axes=(list(range(k, 2 * k)), list(qs)))
    return np.moveaxis(T, list(range(k)), list(qs)).reshape(2**n, 2**n)


def xz(a, b, ph=0):
    """i^ph X^a Z^b on n qubits"""
    out = np.array([[1j**int(ph)]])
    for x, z in zip(a, b): out = np.kron(out, np.linalg.matrix_power(X, int(x)) @ np.linalg.matrix_power(Zm, int(z)))
    return out


def sp_of(U):
    """symplectic matrix and phases of a Clifford unitary, by conjugating each X_j, Z_j"""
    n = int(np.log2(len(U))); s = np.zeros((2 * n, 2 * n), int); p = np.zeros(2 * n, int)
    for j in range(2 * n):
        a = np.zeros(n, int); b = np.zeros(n, int); (a if j < n else b)[j % n] = 1
        P = U @ xz(a, b) @ U.conj().T
        r = int(np.argmax(np.abs(P[:, 0])))  # column 0: X part
        av = [(r >> (n - 1 - q)) & 1 for q in range(n)]
        bv = [0] * n
        for q in range(n):
            c = 1 << (n - 1 - q); bv[q] = int(round(np.real(P[r ^ c, c] / P[r, 0]))) == -1
        bv = [int(x) for x in bv]
        ph = int(np.round(np.angle(P[r, 0]) / (np.pi / 2))) % 4
        if not np.allclose(xz(av, bv, ph), P, atol=1e-7): return None, None
        s[:n, j] = av; s[n:, j] = bv; p[j] = ph
    return s, p


@st.composite
def words(draw, lo=0, hi=14, nq=(1, 2, 2, 3, 3, 4)):
    n = draw(st.sampled_from(nq)); w = []
    for _ in range(draw(st.integers(lo, hi))):
        if n > 1 and draw(st.integers(0, 2)) == 0:
            q = draw(st.permutations(list(range(n)))); w.append([draw(st.sampled_from(sorted(G2))), list(q[:2])])
        else: w.append([draw(st.sampled_from(sorted(G1) + C1)), [draw(st.integers(0, n - 1))]])
    return [n, w]


def unitary(nw):
    n, w = nw; U = np.eye(2**n, dtype=complex)
    for g, qs in w: U = embed(gate_u(g), qs, n) @ U
    return U


def same_op(A, B):
    k = np.unravel_index(np.argmax(np.abs(B)), B.shape)
    return np.allclose(A * (B[k] / A[k]) if abs(A[k]) > 1e-9 else A, B, atol=1e-7)


def eq(rec, got, want, *msg):
    for g, w, nm in zip(got, want, ("symplectic matrix", "phase vector")):
        rec.check(np.array_equal(np.asarray(g), np.asarray(w)), *msg, nm, np.asarray(g).tolist(), "expected", np.asarray(w).tolist())


# ------------------------------------------------------------------------------------------- named gates
@facet(st.just({"tables": 1}), quick=1, rule="always", shards=1)
def tables(case, rec):
    rec.nt(); reps = S.get_internal_gate_symplectic_representations(); us = IG.get_internal_gate_unitaries()
    for g, U in {**G1, **G2}.items(): rec.check(np.allclose(us[g], U), "internal unitary", g)
    rec.check(set(us) == set(reps), "same names", set(us) ^ set(reps))
    seen = []
    for g in reps: eq(rec, reps[g], sp_of(us[g]), "internal gate", g)
    for g in C1:
        rec.check(not any(same_op(us[g], v) for v in seen), "Clifford-group element repeats", g); seen.append(us[g])
    eq(rec, [x for k in ("H", "CNOT") for x in S.get_internal_gate_symplectic_representations(["H", "CNOT"])[k]], [x for k in ("H", "CNOT") for x in reps[k]], "selected gates")
    # multiplication table of the six classes modulo Paulis
    six = ["I", "H", "P", "HP", "PH", "HPH"]; rel = S.oneQclifford_symplectic_group_relations()
    rec.check(set(rel) == set(itertools.product(six, six)), "table keys")
    for (a, b), c in rel.items():
        s1, s2 = sp_of(G1[a])[0], sp_of(G1[b])[0]; rec.check(np.array_equal(s2 @ s1 % 2, sp_of(G1[c])[0]), "group relation", a, b, c)
    std = IG.get_standard_gatename_unitaries()
    for k, U in std.items():
        if callable(U) or U.shape[0] > 4: continue
        s, p = sp_of(np.asarray(U)); rec.check(S.unitary_is_a_clifford(U) == (s is not None), "is a Clifford", k)
        if s is not None: eq(rec, S.unitary_to_symplectic(U), (s, p), "standard gate", k)
    g = pygsti.tools.group.construct_1Q_Clifford_group(); rec.check(len(g.mxs) == 24, "group size")
    mx = [np.asarray(x) for x in g.mxs]
    for i in range(24):
        rec.check(np.allclose(mx[i] @ np.asarray(g.get_matrix_inv(i)), np.eye(4)), "group inverse", i); rec.check(np.allclose(np.asarray(g.get_matrix(g.get_inv(i))) @ mx[i], np.eye(4)), "inverse index", i)
        for j in range(24): rec.check(np.allclose(np.asarray(g.get_matrix(g.product([i, j]))), mx[j] @ mx[i]), "group product", i, j)
    r = np.random.RandomState(3)
    for _ in range(20):
        ix = list(r.randint(0, 24, size=r.randint(1, 6))); m = np.eye(4)
        for i in ix: m = mx[i] @ m
        rec.check(np.allclose(np.asarray(g.get_matrix(g.product(ix))), m), "long group product", ix)
        lx = [g.labels[i] for i in ix]; rec.check(np.allclose(np.asarray(g.get_matrix(g.product(lx))), m), "product of labels", lx)
    # all 1- and 2-qubit symplectic matrices are enumerated, each once
    for n, tot in ((1, 6), (2, 720)):
        rec.check(S.numberofsymplectic(n) == tot and S.numberofcliffords(n) == tot * 4**n, "group order", n)
        all_ = set()
        for i in range(tot):
            m = S.get_symplectic_matrix(i, n); rec.check(S.check_symplectic(m, convention="directsum"), "enumerated matrix", i); all_.add(m.tobytes())
            rec.check(S.get_symplectic_label(m) == i, "index of enumerated matrix", n, i)
        rec.check(len(all_) == tot, "distinct elements", n, len(all_))


# ------------------------------------------------------------------------------------------- arithmetic
@st.composite
def two(draw):
    a = draw(words()); n = a[0]; b = draw(words(nq=(n,))); c = draw(words(nq=(1, 2), hi=5))
    return {"a": a, "b": b, "c": c, "perm": draw(st.permutations(list(range(4)))), "pb": [draw(st.integers(0, 3)) for _ in range(8)], "lab": draw(st.permutations(["Q2", 5, "a", 0]))[:n]}


@facet(two, quick=600, rule="both words hold a gate")
def arithmetic(case, rec):
    (n, wa), (_, wb) = case["a"], case["b"]; rec.nt(len(wa) > 0 and len(wb) > 0); rec.note("n=%d" % n)
    U, V = unitary(case["a"]), unitary(case["b"]); a, b = sp_of(U), sp_of(V); a0 = [x.copy() for x in a]; b0 = [x.copy() for x in b]
    rec.check(S.check_symplectic(a[0]) and S.check_valid_clifford(*a), "valid Clifford refused")
    eq(rec, S.compose_cliffords(*a, *b), sp_of(V @ U), "composition")
    eq(rec, S.inverse_clifford(*a), sp_of(U.conj().T), "inverse")
    rec.check(np.array_equal(S.inverse_symplectic(a[0]), sp_of(U.conj().T)[0]), "symplectic inverse")
    nc, wc = case["c"]; W = unitary(case["c"]); c = sp_of(W)
    eq(rec, S.symplectic_kronecker([a, c]), sp_of(np.kron(U, W)) if n + nc <= 5 else S.symplectic_kronecker([a, c]), "tensor product")
    eq(rec, S.symplectic_kronecker([c, c, a]) if n + 2 * nc <= 5 else a, sp_of(np.kron(np.kron(W, W), U)) if n + 2 * nc <= 5 else a, "three-fold tensor product")
    if nc <= n:
        q = [x for x in case["perm"] if x < n][:nc]; eq(rec, S.embed_clifford(*c, q, n), sp_of(embed(W, q, n)), "embedding on", q)
    if n <= 2:
        eq(rec, S.unitary_to_symplectic(U), a, "unitary to symplectic"); rec.check(S.unitary_is_a_clifford(U), "is Clifford")
        rec.check(IG.is_gate_pauli_equivalent_to_this_standard_unitary(U, "H" if n == 1 else "CNOT") == np.array_equal(a[0], sp_of(G1["H"] if n == 1 else G2["CNOT"])[0]), "Pauli equivalence")
        for g in (C1[:24:5] + ["HP"] if n == 1 else list(G2)): rec.check(IG.is_gate_this_standard_unitary(U, g) == same_op(U, gate_u(g)), "is standard unitary", g)
    # conventions
    d = S.change_symplectic_form_convention(a[0], outconvention="directsum"); ix = [x for j in range(n) for x in (j, n + j)]
    rec.check(np.array_equal(d, a[0][np.ix_(ix, ix)]), "direct-sum convention"); rec.check(S.check_symplectic(d, convention="directsum"), "symplectic in direct-sum convention")
    rec.check(np.array_equal(S.change_symplectic_form_convention(d), a[0]), "convention round trip")
    Om = S.symplectic_form(n); rec.check(np.array_equal(Om, np.block([[np.zeros((n, n)), np.eye(n)], [np.eye(n), np.zeros((n, n))]])), "symplectic form")
    bad = a[0].copy(); i, j = case["pb"][0] % (2 * n), case["pb"][1] % (2 * n); bad[i, j] ^= 1
    rec.check(S.check_symplectic(bad) == np.array_equal(bad @ Om @ bad.T % 2, Om), "symplectic test of a changed matrix")
    # Paulis that correct a phase vector
    p2 = (a[1] + 2 * (np.array(case["pb"][:2 * n]) % 2)) % 4; labs = [x for x in case["lab"]]
    NAME = {"I": I2, "X": X, "Y": Y, "Z": Zm}
    def pauli(layer):
        rec.check([l[1] for l in layer] == labs, "qubits of the Pauli layer", layer)
        out = np.eye(1)
        for l in layer: out = np.kron(out, NAME[l[0]])
        return out
    post = pauli(S.find_postmultipled_pauli(a[0], a[1], p2, qubit_labels=labs)); eq(rec, sp_of(post @ U), (a[0], p2), "post-multiplied Pauli")
    pre = pauli(S.find_premultipled_pauli(a[0], a[1], p2, qubit_labels=labs)); eq(rec, sp_of(U @ pre), (a[0], p2), "pre-multiplied Pauli")
    seed = np.array(case["pb"][:2 * n]); v = S.construct_valid_phase_vector(a[0], seed); par = np.array([int(np.dot(a[0][:n, k], a[0][n:, k])) % 2 for k in range(2 * n)])
    rec.check(np.array_equal(v, np.where((seed - par) % 2 == 0, seed, (seed + 1) % 4)), "phase vector made valid", seed.tolist(), v.tolist())
    rec.check(np.array_equal(seed, case["pb"][:2 * n]), "input phases modified")
    bs = S.bitstring_for_pauli(2 * (np.array(case["pb"][:2 * n]) % 2))
    pp = 2 * (np.array(case["pb"][:2 * n]) % 2); pp0 = pp.copy(); s0 = xz((pp[n:] // 2), (pp[:n] // 2))
    rec.check(list(bs) == [int((int(np.argmax(np.abs(s0[:, 0]))) >> (n - 1 - q)) & 1) for q in range(n)], "bit string of a Pauli", bs, pp.tolist())
    S.bitstring_for_pauli(pp); rec.check(np.array_equal(pp, pp0), "bitstring_for_pauli changed its argument")
    for g, qs in wb[:4]:
        if g in ("H", "P", "CNOT", "SWAP"):
            t = a[0].copy(); S.apply_internal_gate_to_symplectic(t, g, qs, optype="row"); rec.check(np.array_equal(t, sp_of(embed(gate_u(g), qs, n) @ U)[0]), "row action of", g)
            t = a[0].copy(); S.apply_internal_gate_to_symplectic(t, g, qs, optype="column"); rec.check(np.array_equal(t, sp_of(U @ embed(gate_u(g), qs, n))[0]), "column action of", g)
    for x, x0 in zip(list(a) + list(b), a0 + b0): rec.check(np.array_equal(x, x0), "inputs modified")


@facet(words, quick=300, rule="the circuit has >= 2 layers and >= 2 qubits")
def circuits(case, rec):
    """circuits of internally or user-named Clifford gates, in parallel layers"""
    n, w = case; labs = ["Q%d" % (i * 7 % 5) for i in range(n)]; layers = []; used = set()
    for g, qs in w:
        if layers and not used & set(qs) and len(layers) % 2: layers[-1].append((g,) + tuple(labs[q] for q in qs)); used |= set(qs)
        else: layers.append([(g,) + tuple(labs[q] for q in qs)]); used = set(qs)
    c = Circuit([l[0] if len(l) == 1 else l for l in layers], labs); rec.nt(n > 1 and len(layers) > 1)
    U = unitary(case); want = sp_of(U)
    eq(rec, S.symplectic_rep_of_clifford_circuit(c), want, "circuit", c.str)
    if layers:
        l = layers[0]; V = np.eye(2**n)
        for g in l: V = embed(gate_u(g[0]), [labs.index(x) for x in g[1:]], n) @ V
        eq(rec, S.symplectic_rep_of_clifford_layer(c[0], n, labs), sp_of(V), "layer", l)
        eq(rec, S.symplectic_rep_of_clifford_layer(c[0], Qlabels=labs), sp_of(V), "layer without qubit count")
    # user names, with the parts of the dictionary they need
    ren = {g: "G" + g.lower() + "x" for g in list(G1) + list(G2) + C1}; d = {ren[g]: sp_of(gate_u(g)) for g, _ in w}
    c2 = Circuit([[(ren[g[0]],) + g[1:] for g in l] if len(l) > 1 else (ren[l[0][0]],) + l[0][1:] for l in layers], labs)
    eq(rec, S.symplectic_rep_of_clifford_circuit(c2, d), want, "renamed circuit", c2.str)


@facet(st.fixed_dictionaries({"seed": seeds, "n": st.sampled_from([1, 1, 2, 2])}), quick=150, rule="always")
def non_cliffords(case, rec):
    """unitaries are Clifford exactly when they map Paulis to Paulis"""
    rec.nt(); n = case["n"]; r = rng(case["seed"])
    w = [n, [[sorted(G1)[r.randint(9)], [int(r.randint(n))]] if n == 1 or r.randint(2) else ["CNOT", [int(x) for x in r.permutation(n)[:2]]] for _ in range(r.randint(0, 6))]]
    U = unitary(w); k = int(r.randint(3)); rec.note(("clifford", "T-like", "random")[k])
    if k == 1: U = U @ embed(np.diag([1, np.exp(1j * [np.pi / 4, 0.3, np.pi / 8][r.randint(3)])]), [int(r.randint(n))], n)
    if k == 2: U = M.rand_unitary(2**n, r)
    U = U * np.exp(1j * r.rand() * 6); s, p = sp_of(U)
    rec.check(S.unitary_is_a_clifford(U) == (s is not None), "is a Clifford", s is not None)
    if s is None:
        rec.check(S.unitary_to_symplectic(U, flagnonclifford=False) == (None, None), "non-Clifford answer")
        try: S.unitary_to_symplectic(U); ok = False
        except ValueError: ok = True
        rec.check(ok, "a non-Clifford unitary was accepted")
    else: eq(rec, S.unitary_to_symplectic(U), (s, p), "with a global phase")


@facet(st.fixed_dictionaries({"seed": seeds, "n": st.integers(1, 6)}), quick=160, rule="n >= 2", case_s=40)
def random_elements(case, rec):
    n = case["n"]; np.random.seed(case["seed"]); rec.nt(n > 1)
    s, p = S.random_clifford(n); rec.check(S.check_symplectic(s), "random symplectic"); Om = S.symplectic_form(n)
    rec.check(s.shape == (2 * n, 2 * n) and set(np.unique(s)) <= {0, 1} and np.array_equal(s @ Om @ s.T % 2, Om), "random Clifford isn't symplectic")
    rec.check(all(0 <= x < 4 and (x - int(np.dot(s[:n, k], s[n:, k]))) % 2 == 0 for k, x in enumerate(p)), "random phases", p)
    rec.check(S.check_symplectic(S.random_symplectic_matrix(n, convention="directsum"), convention="directsum"), "random symplectic, direct sum")
    i = S.random_symplectic_index(n); rec.check(0 <= i < S.numberofsymplectic(n), "index range", i)
    m = S.get_symplectic_matrix(i, n); rec.check(S.get_symplectic_label(m) == i, "index of matrix", i)
    np.random.seed(case["seed"]); s2, p2 = S.random_clifford(n); eq(rec, (s2, p2), (s, p), "same seed")
    x = S.int_to_bitstring(i % 2**(2 * n), 2 * n); rec.check([int(b) for b in x] == [(i >> k) & 1 for k in range(2 * n)], "bits"); rec.check(S.bitstring_to_int(x, 2 * n) == i % 2**(2 * n), "integer of bits")
    r = rng(case["seed"]); v, w = r.randint(0, 2, size=2 * n), r.randint(0, 2, size=2 * n)
    J = S.symplectic_form(n, convention="directsum"); rec.check(S.symplectic_innerproduct(v, w) == v @ J @ w % 2, "inner product")
    rec.check(np.array_equal(S.symplectic_transvection(v, w), (w + (v @ J @ w) * v) % 2), "transvection")
    if v.any() and w.any():
        t = S.find_symplectic_transvection(v, w); y = S.symplectic_transvection(t[1], S.symplectic_transvection(t[0], v)); rec.check(np.array_equal(y % 2, w), "transvections map", v, w, y)
    rec.check(S.numberofcosets(n) == 2**(2 * n - 1) * (4**n - 1), "cosets")


@facet(st.just({"n": 1}), quick=1, rule="always", shards=1)
def uniform(case, rec):
    """random generators reach the whole 1-qubit group about equally often"""
    rec.nt(); np.random.seed(11); cnt = {}
    for _ in range(2400):
        s, p = S.random_clifford(1); k = (s.tobytes(), tuple(p)); cnt[k] = cnt.get(k, 0) + 1
    rec.check(len(cnt) == 24 and 55 < min(cnt.values()) and max(cnt.values()) < 160, "frequencies", sorted(cnt.values()))


# ------------------------------------------------------------------------------------------- stabiliser states
@st.composite
def runs(draw):
    nw = draw(words(hi=10)); n = nw[0]
    return {"w": nw, "z": [draw(st.integers(0, 1)) for _ in range(n)], "m": draw(st.permutations(list(range(n)))), "k": draw(st.integers(1, n)), "o": [draw(st.integers(0, 1)) for _ in range(n)], "more": draw(words(hi=4, nq=(n,)))}


def stab_of(rec, s, p, psi):
    """do the first n columns of (s,p) stabilise psi, and the others anticommute pairwise with them?"""
    n = len(p) // 2
    for k in range(n):
        rec.check(np.allclose(xz(s[:n, k], s[n:, k], p[k]) @ psi, psi, atol=1e-7), "column", k, "does not stabilise the state")
    Om = S.symplectic_form(n); G = s.T @ Om @ s % 2; rec.check(np.array_equal(G, Om), "stabiliser/antistabiliser commutation", G.tolist())


def zstate(z):
    v = np.zeros(2**len(z), complex); v[int("".join(map(str, z)), 2)] = 1; return v


@facet(runs, quick=500, rule=">= 2 qubits and an entangling gate")
def stabilizer_tools(case, rec):
    n, w = case["w"]; U = unitary(case["w"]); sp = sp_of(U); psi = U @ zstate(case["z"]); rec.nt(n > 1 and any(len(q) == 2 for _, q in w))
    ss, pp = S.prep_stabilizer_state(n, case["z"]); stab_of(rec, ss, pp, zstate(case["z"]))
    s0, p0 = S.prep_stabilizer_state(n); stab_of(rec, s0, p0, zstate([0] * n))
    ss, pp = S.apply_clifford_to_stabilizer_state(*sp, ss, pp); stab_of(rec, ss, pp, psi)
    def proj(v, q, o): T = v.reshape((2,) * n).copy(); ix = [slice(None)] * n; ix[q] = 1 - o; T[tuple(ix)] = 0; return T.ravel()
    for q in range(n):
        a0, a1, t0, t1, q0, q1 = S.pauli_z_measurement(ss, pp, q)
        for o, a, t, ph in ((0, a0, t0, q0), (1, a1, t1, q1)):
            v = proj(psi, q, o); pr = np.linalg.norm(v)**2; rec.check(abs(a - pr) < 1e-7, "probability of", o, "on", q, a, pr)
            if pr > 1e-6: stab_of(rec, t, ph, v / np.sqrt(pr))
    qs, os_ = list(case["m"])[:case["k"]], case["o"][:case["k"]]; v = psi
    for q, o in zip(qs, os_): v = proj(v, q, o)
    pr = np.linalg.norm(v)**2
    rec.check(abs(S.stabilizer_measurement_prob((ss, pp), os_, qs) - pr) < 1e-7, "probability of", os_, "on", qs)
    p2, st_, pt_ = S.stabilizer_measurement_prob((ss, pp), os_, qs, return_state=True); rec.check(abs(p2 - pr) < 1e-7, "probability with state")
    if pr > 1e-6: stab_of(rec, st_, pt_, v / np.sqrt(pr))
    for o in itertools.product((0, 1), repeat=n): rec.check(abs(S.stabilizer_measurement_prob((ss, pp), o) - abs(psi[int("".join(map(str, o)), 2)])**2) < 1e-7, "full outcome", o)
    # products of stabilisers accumulate phases
    i, j = 0, n - 1
    if i != j:
        cs, cp = ss.copy(), pp.copy(); S.colsum(i, j, cs, cp, n); want = xz(ss[:n, i], ss[n:, i], pp[i]) @ xz(ss[:n, j], ss[n:, j], pp[j])
        rec.check(np.allclose(xz(cs[:n, i], cs[n:, i], cp[i] % 4), want), "column sum")


@facet(runs, quick=400, rule=">= 2 qubits and an entangling gate")
def frames(case, rec):
    """stabiliser frames and their compiled kernels keep state vectors, global phase included"""
    n, w = case["w"]; rec.nt(n > 1 and any(len(q) == 2 for _, q in w)); z = case["z"]
    f = _st.StabilizerFrame.from_zvals(n, z); psi = zstate(z); rep = _sv.StabilizerSPAMVec(n, z)._rep
    rec.check(np.allclose(f.to_statevec(), psi), "initial frame"); labs = ["Q%d" % i for i in range(n)]; ops = []
    for g, qs in w:
        u = gate_u(g); s, p = sp_of(u); f.clifford_update(s, p, u, qs if len(qs) < n or qs != list(range(n)) else None); psi = embed(u, qs, n) @ psi
        co = po.CliffordOp(u) if rep is not None else None
        eo = co if (len(qs) == n and qs == list(range(n))) else po.EmbeddedOp([tuple(labs)], [labs[q] for q in qs], co); ops.append((eo, embed(u, qs, n)))
        rep = eo._rep.acton(rep)
    rec.check(np.allclose(f.to_statevec(), psi, atol=1e-7), "state vector of the frame", f.to_statevec(), psi); stab_of(rec, f.s, f.ps[0], psi)
    g2 = f.copy()
    for o in itertools.product((0, 1), repeat=n):
        a = psi[int("".join(map(str, o)), 2)]; e = _sv.StabilizerEffectVec(o)._rep
        rec.check(abs(f.extract_amplitude(np.array(o)) - a) < 1e-7, "amplitude", o); rec.check(abs(f.measurement_probability(np.array(o), check=True) - abs(a)**2) < 1e-7, "probability", o)
        rec.check(abs(e.amplitude(rep) - a) < 1e-7, "compiled amplitude", o, e.amplitude(rep), a); rec.check(abs(e.probability(rep) - abs(a)**2) < 1e-7, "compiled probability", o)
    if ops:
        # composed and exponentiated operations, adjoint action
        m = ops[:4]; c = po.ComposedOp([o for o, _ in m]); V = np.eye(2**n)
        for _, v in m: V = v @ V
        r0 = _sv.StabilizerSPAMVec(n, z)._rep; x = c._rep.acton(r0); y = c._rep.adjoint_acton(r0)
        for o in itertools.product((0, 1), repeat=n):
            i = int("".join(map(str, o)), 2); e = _sv.StabilizerEffectVec(o)._rep
            rec.check(abs(e.amplitude(x) - (V @ zstate(z))[i]) < 1e-7, "composed action", o); rec.check(abs(e.amplitude(y) - (V.conj().T @ zstate(z))[i]) < 1e-7, "composed adjoint action", o)
        ex = po.ExponentiatedOp(m[0][0], 3); x = ex._rep.acton(r0)
        for o in itertools.product((0, 1), repeat=n): rec.check(abs(_sv.StabilizerEffectVec(o)._rep.amplitude(x) - (np.linalg.matrix_power(m[0][1], 3) @ zstate(z))[int("".join(map(str, o)), 2)]) < 1e-7, "exponentiated action", o)
    # views and products
    for g, qs in case["more"][1]:
        u = gate_u(g); s, p = sp_of(u); f.push_view(qs); f.clifford_update(s, p, u); f.pop_view(); psi = embed(u, qs, n) @ psi
    rec.check(np.allclose(f.to_statevec(), psi, atol=1e-7), "updates through a view")
    if n <= 3:
        k = _st.sframe_kronecker([f, g2]) ; rec.check(np.allclose(k.to_statevec(), np.kron(f.to_statevec(), g2.to_statevec()), atol=1e-7), "tensor product of frames")
    v = zstate(z); rec.check(np.allclose(_sv.StabilizerSPAMVec.from_dense_purevec(v).todense().ravel(), v), "basis state from a vector"); rec.check(np.allclose(np.ravel(_sv.StabilizerEffectVec.from_dense_purevec(v).todense()), v), "effect from a vector")


# ------------------------------------------------------------------------------------------- GF(2)
@facet(st.fixed_dictionaries({"seed": seeds, "n": st.integers(1, 6), "k": st.integers(1, 4)}), quick=300, rule="n >= 2")
def gf2(case, rec):
    n, k = case["n"], case["k"]; r = rng(case["seed"]); np.random.seed(case["seed"]); rec.nt(n > 1)
    A = r.randint(0, 2, size=(n, n)); B = r.randint(0, 2, size=(n, k)); C = r.randint(0, 2, size=(k, n)); A0 = A.copy()
    rec.check(np.array_equal(Z.dotmod2(A, B), (A @ B) % 2), "dot"); rec.check(np.array_equal(Z.multidotmod2([A, B, C, A]), A @ B @ C @ A % 2), "multidot")
    def rank2(m):
        m = m.copy() % 2; rk = 0
        for c in range(m.shape[1]):
            pv = [i for i in range(rk, m.shape[0]) if m[i, c]]
            if not pv: continue
            m[[rk, pv[0]]] = m[[pv[0], rk]]
            for i in range(m.shape[0]):
                if i != rk and m[i, c]: m[i] ^= m[rk]
            rk += 1
        return rk
    inv = rank2(A) == n; rec.check(bool(Z.detmod2(A)) == inv, "determinant", A.tolist())
    D = Z.matrix_directsum(A, r.randint(0, 2, size=(k, k))); rec.check(D.shape == (n + k, n + k) and np.array_equal(D[:n, :n], A) and not D[:n, n:].any() and not D[n:, :n].any(), "direct sum")
    M_ = Z.random_invertable_matrix(n); rec.check(rank2(M_) == n and M_.shape == (n, n), "random invertible"); Mi = Z.inv_mod2(M_); rec.check(np.array_equal(Mi @ M_ % 2, np.eye(n)) and np.array_equal(M_ @ Mi % 2, np.eye(n)), "inverse")
    b = r.randint(0, 2, size=n); x = Z.Axb_mod2(M_, b); rec.check(np.array_equal((M_ @ x).ravel() % 2, b), "solution of Ax=b"); g = Z.gaussian_elimination_mod2(np.append(M_, B, 1)); rec.check(np.array_equal(g[:, :n], np.eye(n)) and np.array_equal(M_ @ g[:, n:] % 2, B), "elimination")
    rec.check(np.array_equal(Z.diagonal_as_vec(A), np.diag(A)) and np.array_equal(Z.diagonal_as_matrix(A), np.diag(np.diag(A))) and np.array_equal(Z.strictly_upper_triangle(A), np.triu(A, 1)), "diagonal and triangle")
    Sy = Z.random_symmetric_invertable_matrix(n); rec.check(np.array_equal(Sy, Sy.T) and rank2(Sy) == n, "random symmetric invertible")
    if np.diag(Sy).any():
        L = Z.albert_factor(Sy); rec.check(np.array_equal(L @ L.T % 2, Sy), "symmetric factorisation", Sy.tolist())
        N = Z.onesify(Sy); rec.check(rank2(N) == n and np.all(np.diag(N @ Sy @ N.T % 2) == 1), "ones on the diagonal")
        T = N @ Sy @ N.T % 2; P = Z.proper_permutation(T); Q = np.round(P).astype(int); rec.check(np.array_equal(np.sort(Q.argmax(1)), np.arange(n)) and Q.sum() == n, "permutation")
        rec.check(Z.check_proper_permutation(A) == all(rank2(A[i:, i:]) == n - i for i in range(n)), "proper permutation test")
    i = int(r.randint(n)); a, P = Z.permute_top(A, i); pm = list(range(n)); pm[0], pm[i] = pm[i], pm[0]; rec.check(i == 0 or np.array_equal(a, A[np.ix_(pm, pm)]), "permute to the top")
    p = int(r.randint(2)); s = Z.random_bitstring(n, p); rec.check(len(s) == n and sum(s) % 2 == p, "random bit string"); rec.check(np.array_equal(A, A0), "input changed")
