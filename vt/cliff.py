"""Dense reference for Clifford circuits: unitaries, symplectic descriptions, stabiliser outcomes."""
import numpy as np
from pygsti.objects import Circuit, Label

X = np.array([[0, 1], [1, 0]], complex); Zm = np.diag([1, -1]).astype(complex); I2 = np.eye(2, dtype=complex); Y = 1j * X @ Zm
Hd = np.array([[1, 1], [1, -1]], complex) / np.sqrt(2); Ph = np.diag([1, 1j])
G1 = {"I": I2, "X": X, "Y": Y, "Z": Zm, "H": Hd, "P": Ph, "HP": Hd @ Ph, "PH": Ph @ Hd, "HPH": Hd @ Ph @ Hd}
CNOT = np.array([[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 0, 1], [0, 0, 1, 0]], complex)


def embed(U, qs, n):
    k = len(qs); T = np.eye(2**n, dtype=complex).reshape((2,) * n + (2**n,))
    T = np.tensordot(U.reshape((2,) * (2 * k)), T, axes=(list(range(k, 2 * k)), list(qs)))
    return np.moveaxis(T, list(range(k)), list(qs)).reshape(2**n, 2**n)


def xz(a, b, ph=0):
    out = np.array([[1j**int(ph)]])
    for x, z in zip(a, b): out = np.kron(out, np.linalg.matrix_power(X, int(x)) @ np.linalg.matrix_power(Zm, int(z)))
    return out


def sp_of(U):
    n = int(np.log2(len(U))); s = np.zeros((2 * n, 2 * n), int); p = np.zeros(2 * n, int)
    for j in range(2 * n):
        a = np.zeros(n, int); b = np.zeros(n, int); (a if j < n else b)[j % n] = 1
        P = U @ xz(a, b) @ U.conj().T; r = int(np.argmax(np.abs(P[:, 0])))
        av = [(r >> (n - 1 - q)) & 1 for q in range(n)]; bv = [0] * n
        for q in range(n):
            c = 1 << (n - 1 - q); bv[q] = int(round(np.real(P[r ^ c, c] / P[r, 0])) == -1)
        ph = int(np.round(np.angle(P[r, 0]) / (np.pi / 2))) % 4
        if not np.allclose(xz(av, bv, ph), P, atol=1e-7): return None, None
        s[:n, j] = av; s[n:, j] = bv; p[j] = ph
    return s, p


def word_u(n, w):
    """unitary of a word of [name, qubits] with internal names and CNOT"""
    U = np.eye(2**n, dtype=complex)
    for g, qs in w: U = embed(CNOT if g == "CNOT" else G1[g], qs, n) @ U
    return U


def circuit_u(circ, gates, lines):
    """unitary of a Circuit over lines, gates: name -> unitary; returns (U, labels used)"""
    if not circ._static: circ = circ.copy(editable=False)
    lines = list(lines); U = np.eye(2**len(lines), dtype=complex); used = []
    for layer in circ:
        seen = set()
        for l in layer.components:
            qs = list(l.sslbls); used.append(l); assert not (seen & set(qs)), "two gates of a layer share a qubit"; seen |= set(qs)
            U = embed(np.asarray(gates[l.name], complex), [lines.index(q) for q in qs], len(lines)) @ U
    return U, used


def same_phase(A, B, tol=1e-7):
    k = np.unravel_index(np.argmax(np.abs(B)), B.shape)
    if abs(abs(A[k]) - abs(B[k])) > tol: return False
    return bool(np.allclose(A * (B[k] / A[k]), B, atol=tol))


def is_pauli(M, tol=1e-7):
    """is M a phase times a tensor product of Paulis?"""
    n = int(np.log2(len(M))); s, p = sp_of(M); return s is not None and np.array_equal(s, np.eye(2 * n, dtype=int))


def outcome(U):
    """bits measured for certain on U|0..0>, or None"""
    pr = np.abs(U[:, 0])**2; k = int(np.argmax(pr)); n = int(np.log2(len(U)))
    return tuple((k >> (n - 1 - q)) & 1 for q in range(n)) if pr[k] > 1 - 1e-7 else None
