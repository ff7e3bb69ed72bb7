"""Independently written elements of the named matrix bases."""
import numpy as np

P2 = {"I": np.eye(2, dtype=complex), "X": np.array([[0, 1], [1, 0]], complex), "Y": np.array([[0, -1j], [1j, 0]]), "Z": np.diag([1, -1]).astype(complex)}


def mu(i, j, d):
    m = np.zeros((d, d), complex); m[i, j] = 1; return m


def gm_un(d):
    out = [np.eye(d, dtype=complex)]
    pairs = [(k, j) for k in range(d) for j in range(k + 1, d)]
    out += [mu(k, j, d) + mu(j, k, d) for k, j in pairs]
    out += [-1j * mu(k, j, d) + 1j * mu(j, k, d) for k, j in pairs]
    for l in range(1, d): out.append(np.sqrt(2 / (l * (l + 1))) * np.diag([1.] * l + [-l] + [0.] * (d - l - 1)).astype(complex))
    return out


def gm_lbl(d):
    if d == 1: return [""]
    if d == 2: return list("IXYZ")
    p = ["%d,%d" % (k, j) for k in range(d) for j in range(k + 1, d)]
    return ["I"] + ["X_{%s}" % x for x in p] + ["Y_{%s}" % x for x in p] + ["Z_{%d}" % l for l in range(1, d)]


def words_n(n):
    out = [""]
    for _ in range(n): out = [w + c for w in out for c in "IXYZ"]
    return out


def pmx(w):
    m = np.eye(1, dtype=complex)
    for c in w: m = np.kron(m, P2[c])
    return m


def qt():
    A = np.zeros((3, 4)); A[0, 0] = A[2, 3] = 1; A[1, 1] = A[1, 2] = 1 / np.sqrt(2)
    q = lambda *ws: sum(s * (A @ pmx(w) @ A.T) for s, w in ws)
    els = [np.eye(3, dtype=complex)]
    for m in (q((1, "XX"), (1, "YY")), q((1, "XX"), (-1, "YY")), q((1, "YZ")), q((1, "IX")), q((1, "IY")), q((1, "IZ")), q((1, "XY")), q((1, "XZ"))):
        els.append(m - np.trace(m) / 3 * np.eye(3))
    return [e / np.linalg.norm(e) for e in els]


def ref_named(nm, d):
    """(elements, labels) of a named matrix basis of d x d matrices"""
    if nm == "std": return [mu(i, j, d) for i in range(d) for j in range(d)], ([""] if d == 1 else ["(%d,%d)" % (i, j) for i in range(d) for j in range(d)])
    if nm == "gm_unnormalized": return gm_un(d), gm_lbl(d)
    if nm == "gm": return [e / np.linalg.norm(e) for e in gm_un(d)], gm_lbl(d)
    if nm == "pp":
        ws = words_n(int(np.log2(d))); return [pmx(w) / np.sqrt(d) for w in ws], ws
    if nm == "qt": return (qt(), ['II', 'X+Y', 'X-Y', 'YZ', 'IX', 'IY', 'IZ', 'XY', 'XZ']) if d == 3 else ([np.eye(1, dtype=complex)], [""])
