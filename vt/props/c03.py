"""C03: restructuring a circuit preserves the operation it implements."""
TECH = "Hypothesis: generated circuits, metamorphic comparison of the dense unitaries before and after each transformation; round trip through independent Quil/OpenQASM readers"
NOTE = "Generated-input search: circuits of <= 4 lines and <= ~10 layers with generic (hash-seeded random) gate unitaries, simulated densely by vt/props/c03.py."
import re, zlib, math
import numpy as np
from hypothesis import strategies as st
from vt import facet
from vt.gen import *
from pygsti.objects import Circuit, Label
from pygsti.objects.circuit import CompressedCircuit
from pygsti.objects.label import CircuitLabel
from pygsti.tools import internalgates as itgs

X = np.array([[0, 1], [1, 0]], complex); Y = np.array([[0, -1j], [1j, 0]]); Z = np.diag([1, -1]).astype(complex)
I2 = np.eye(2, dtype=complex)


def rot(P, th): return math.cos(th / 2) * I2 - 1j * math.sin(th / 2) * P


H = (X + Z) / math.sqrt(2)
PI = math.pi
ONE = {"Gi": I2, "Gxpi2": rot(X, PI / 2), "Gypi2": rot(Y, PI / 2), "Gzpi2": rot(Z, PI / 2), "Gxpi": X, "Gypi": Y, "Gzpi": Z,
       "Gxmpi2": rot(X, -PI / 2), "Gympi2": rot(Y, -PI / 2), "Gzmpi2": rot(Z, -PI / 2), "Gh": H, "Gp": np.diag([1, 1j]),
       "Gpdag": np.diag([1, -1j]), "Gt": np.diag([1, np.exp(1j * PI / 4)]), "Gtdag": np.diag([1, np.exp(-1j * PI / 4)])}
CNOT = np.array([[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 0, 1], [0, 0, 1, 0]], complex)
CZ = np.diag([1, 1, 1, -1]).astype(complex)
SWAP = np.array([[1, 0, 0, 0], [0, 0, 1, 0], [0, 1, 0, 0], [0, 0, 0, 1]], complex)
TWO = {"Gcnot": CNOT, "Gcphase": CZ, "Gswap": SWAP}


def randU(key, d):
    r = np.random.RandomState(zlib.crc32(repr(key).encode()))
    q, rr = np.linalg.qr(r.randn(d, d) + 1j * r.randn(d, d))
    return q


def gateU(name, args, k):
    if k == 1 and name in ONE and not args: return ONE[name]
    if k == 2 and name in TWO and not args: return TWO[name]
    return randU((name, tuple(args), k), 2**k)


def apply(U, V, pos, n):
    """(U on qubits pos) @ V, V is 2^n x m"""
    k = len(pos)
    T = V.reshape([2] * n + [-1])
    T = np.tensordot(U.reshape([2] * (2 * k)), T, axes=(list(range(k, 2 * k)), list(pos)))
    return np.moveaxis(T, list(range(k)), list(pos)).reshape(2**n, -1)


def simulate(layers, lines):
    """layers: list of lists of (name, sslbls or None, args)"""
    n = len(lines)
    V = np.eye(2**n, dtype=complex)
    for lay in layers:
        for name, s, args in lay:
            s = sorted(lines, key=str) if s is None else s
            V = apply(gateU(name, args, len(s)), V, [list(lines).index(x) for x in s], n)
    return V


def flat(c):
    """a static circuit's layers as lists of (name, lines, args)"""
    out = []
    for l in c.layertup:
        for e in (l.expand_subcircuits() if True else [l]):
            out.append([(x.name, x.sslbls, x.args) for x in e.components])
    return out


def U_of(c): return simulate(flat(c), c.line_labels)


def close(A, B): return np.allclose(A, B, atol=1e-8)


def phase_close(A, B):
    k = np.argmax(np.abs(A)); a, b = A.flat[k], B.flat[k]
    return abs(abs(a) - abs(b)) < 1e-7 and np.allclose(A * (b / a), B, atol=1e-7)


LINES = [[0, 1, 2], [0, 1], [0, 1, 2, 3], ["Q0", "Q1", "Q2"], ["b", "a"], [4], [7, 2, 5]]


@st.composite
def layers_st(draw, lines, depth=1, names=None, maxn=6, args=True, glob=True):
    pool = []
    for _ in range(draw(st.integers(1, 4))):
        r = draw(st.integers(0, 9))
        if glob and r == 0: pool.append([{"n": draw(st.sampled_from(["Gi", "Gall"])), "s": None, "a": []}])
        elif depth and r in (1, 2):
            ls = draw(subsets(lines, 1, 3))
            pool.append([{"c": draw(layers_st(ls, depth - 1, names, 3, args, False)), "r": draw(st.integers(1, 3)), "s": ls}])
        else:
            l = draw(layer_of(lines, args=args, time=False, names=names)); [x.pop("t") for x in l]; pool.append(l)
    return [pool[i % len(pool)] for i in draw(st.lists(st.integers(0, 11), min_size=1, max_size=maxn))]


def mkl(lay):
    comps = []
    for e in lay:
        if "c" in e:
            comps.append(CircuitLabel("", tuple(mkl(l) for l in e["c"]), tuple(e["s"]), e["r"]))
        else: comps.append(Label(e["n"], None if e["s"] is None else tuple(e["s"]), None, tuple(e["a"]) or None))
    return Label(comps)


def ref_flat(layers):
    out = []
    for l in layers:
        cols = []
        for e in l:
            if "c" in e: cols.append(ref_flat(e["c"]) * e["r"])
            else: cols.append([[(e["n"], None if e["s"] is None else tuple(e["s"]), tuple(e["a"]))]])
        d = max([len(c) for c in cols] or [1])
        out += [sum([c[i] for c in cols if i < len(c)], []) for i in range(d)]
    return out


@st.composite
def circ(draw, depth=1, names=None, args=True, glob=True):
    lines = draw(st.sampled_from(LINES))
    return {"lines": lines, "layers": draw(layers_st(lines, depth, names, 7, args, glob)), "i": draw(st.integers(0, 9)),
            "m": draw(st.integers(0, 4)), "perm": list(draw(st.permutations(lines)))}


def names_used(c): return [x[0] for l in flat(c) for x in l]


def multiset(c): return sorted((repr(x) for l in flat(c) for x in l))


@facet(circ, quick=1500, rule="at least two non-empty layers and two lines")
def equivalent(case, rec):
    lines, lay = tuple(case["lines"]), case["layers"]
    c = Circuit([mkl(l) for l in lay], lines)
    un = Circuit([mkl(l) for l in lay], lines, expand_subcircuits=False)
    rf = ref_flat(lay)
    U = simulate(rf, lines)
    rec.nt(sum(1 for l in rf if l) >= 2 and len(lines) > 1)
    hassub = any("c" in e for l in lay for e in l); glob = any(e["s"] is None for l in lay for e in l)
    rec.note("sub" if hassub else "", "global" if glob else "")
    rec.check(close(U_of(c), U) and close(U_of(un), U), "expansion of sub-circuits", un.str)
    rec.check(c.depth() == un.depth() == len(rf), "depth", un.str, c.depth(), un.depth(), len(rf))
    rec.check(c.size() == un.size() == sum(len(lines) if s is None else len(s) for l in rf for _, s, _ in l) or hassub, "size", un.str)
    ms = multiset(c)
    key = c.tup
    def chk(r, what, same_gates=True):
        rec.check(r.line_labels == lines, what, "lines", r.line_labels)
        rec.check(close(U_of(r), U), what, "changes the operation:", c.str, "->", r.str)
        if same_gates: rec.check(multiset(r) == ms, what, "changes the gates:", c.str, "->", r.str)
        rec.check(c.tup == key, what, "changed its source")
        # no line is used twice in a layer
        for l in flat(r):
            used = [x for _, s, _ in l for x in (lines if s is None else s)]
            rec.check(len(used) == len(set(used)), what, "overlapping gates in a layer", r.str)
    s = c.serialize(); chk(s, "serialize")
    rec.check(all(len(l.components) <= 1 for l in s.layertup), "serialize: one gate per layer", s.str)
    for cb in (True, False):
        for adj in (True, False):
            if not cb and glob: pass
            p = c.parallelize(can_break_labels=cb, adjacent_only=adj); chk(p, "parallelize(%s,%s)" % (cb, adj))
            rec.check(p.num_layers() <= max(c.num_layers(), 1), "parallelize: depth", c.str, p.str)
            chk(s.parallelize(cb, adj), "parallelize of serialized")
    chk(s.parallelize(True, True).serialize(), "serialize of parallelized")
    sp = s.parallelize(True, True).serialize()
    rec.check([l for l in sp.layertup if len(l.components)] == [l for l in s.layertup if len(l.components)], "adjacent_only preserves the serial order", s.str, sp.str)
    if not any(len(l) == 0 for l in rf):
        p = s.parallelize(); d = {}; depth = 0
        for l in rf:
            for n_, ss, a in l:
                ss = lines if ss is None else ss
                t = max([d.get(x, 0) for x in ss]) + 1; depth = max(depth, t)
                for x in ss: d[x] = t
        rec.check(p.num_layers() == depth, "parallelize gives the greedy (leftmost) depth", s.str, p.str, depth)
    e = c.copy(editable=True)
    e.factorize_repetitions(); f = e.copy(editable=False); f2 = Circuit(f.layertup, lines, expand_subcircuits=False)
    chk(Circuit(f2.layertup, lines), "factorize_repetitions")
    e = c.copy(editable=True); e.compress_depth(); e.done_editing(); chk(e, "compress_depth")
    rec.check(len(e) <= len(c) and not any(len(l.components) == 0 for l in e.layertup), "compress_depth: depth", c.str, e.str)
    e = c.copy(editable=True); r = e.shift_gates_forward(); ch = Circuit(e.layertup, lines); chk(ch, "shift_gates_forward")
    rec.check(len(ch) == len(c), "shift_gates_forward depth")
    e = c.copy(editable=True); e.delete_idle_layers(); e.done_editing(); chk(e, "delete_idle_layers")
    e = c.copy(editable=True); e.insert_idling_layers(case["i"] % (len(c) + 1), case["m"]); e.done_editing(); chk(e, "insert_idling_layers")
    # boxes
    b = Circuit([c.as_label(case["m"])], lines, expand_subcircuits=False)
    rec.check(close(U_of(b), np.linalg.matrix_power(U, case["m"])), "as_label(nreps)")
    rec.check(b.depth() == case["m"] * len(c), "depth of a box")
    ex = Circuit(b.layertup, lines); rec.check(ex == Circuit(c.layertup * case["m"], lines), "expanded box", ex.str)
    for expand in (True, False):
        rp = c.repeat(case["m"], expand=expand); rec.check(close(U_of(rp), np.linalg.matrix_power(U, case["m"])), "repeat", expand)
    # compressed storage
    big = Circuit(c.layertup * (case["i"] + 1), lines)
    for mn, mx in ((1, 20), (3, 4), (20, 20)):
        cc = CompressedCircuit(big, mn, mx).expand(); rec.check(cc == big and cc.str == big.str, "CompressedCircuit", big.str)
    t = tuple(big.layertup)
    rec.check(CompressedCircuit.expand_op_label_tuple(CompressedCircuit.compress_op_label_tuple(t, 1, 5)) == t, "compress tuple")
    # single-character coding
    ops = list(dict.fromkeys(c.layertup))
    rec.check(Circuit.from_pythonstr(c.to_pythonstr(ops), ops).layertup == c.layertup, "pythonstr")
    # lines
    m = dict(zip(lines, case["perm"]))
    r = c.map_state_space_labels(m)
    if not glob: rec.check(close(simulate(flat(r), [m[x] for x in lines]), U), "map_state_space_labels")
    e = c.copy(editable=True); e.reorder_lines(case["perm"]); e.done_editing()
    P = simulate(flat(c), case["perm"]); rec.check(close(U_of(e), P), "reorder_lines")
    e = c.copy(editable=True); e.reverse()
    rec.check(close(simulate(flat(e), lines), simulate(rf[::-1], lines)), "reverse")


# ---------------------------------------------------------------------------- one-qubit gate relations, gate libraries
def relations(names):
    rel = {}
    for a in names:
        for b in names:
            M = ONE[b] @ ONE[a]
            if phase_close(I2, M): rel[a, b] = None
            else:
                for c in names:
                    if phase_close(ONE[c], M): rel[a, b] = c
    return rel


NM = {1: ["Gxpi2", "Gypi2", "Gzpi2", "Gxpi", "Gypi", "Gzpi", "Gxmpi2", "Gympi2", "Gh", "Gp", "Gpdag", "Gt"], 2: ["Gcnot", "Gcphase", "Gswap"],
      3: ["G3"]}


@st.composite
def comp_case(draw):
    c = draw(circ(depth=0, names=NM, args=False))
    c["rel"] = draw(st.lists(st.sampled_from(NM[1]), min_size=1, max_size=8, unique=True))
    c["mode"] = draw(st.sampled_from(["rel", "lib", "lib"]))
    c["lib"] = {}
    for n in draw(st.lists(st.sampled_from(NM[1] + NM[2]), min_size=1, max_size=8, unique=True)):
        k = 1 if n in NM[1] else 2
        c["lib"][n] = draw(layers_st(list(range(k)), 0, NM, 3, False, False))
    c["unch"] = draw(st.booleans()); c["dc"] = draw(st.booleans()); c["userel"] = draw(st.booleans())
    return c


@facet(comp_case, quick=1500, rule="at least one gate was merged, cancelled or replaced")
def rewriting(case, rec):
    lines = tuple(case["lines"])
    c = Circuit([mkl(l) for l in case["layers"]], lines)
    U = U_of(c); rel = relations(case["rel"])
    e = c.copy(editable=True)
    rec.note(case["mode"])
    if case["mode"] == "rel":
        ch = e.combine_oneQgates(rel)
        d = Circuit(e.layertup, lines)
        rec.check(phase_close(U, U_of(d)), "combine_oneQgates", c.str, "->", d.str)
        rec.nt(sorted(names_used(c)) != sorted(names_used(d)))
        rec.check(ch or d == c, "reports no change but changed", c.str, d.str)
        e = c.copy(editable=True); e.compress_depth(rel); e.done_editing()
        rec.check(phase_close(U, U_of(e)), "compress_depth(relations)", c.str, "->", e.str)
        # no two neighbouring combinable gates on a line remain
        last = {}
        for l in flat(e):
            for n, s, a in l:
                s = lines if s is None else s
                if len(s) == 1 and s[0] in last: rec.check((last[s[0]], n) not in rel or a, "combinable gates left", e.str)
                for x in s: last[x] = None
                if len(s) == 1: last[s[0]] = n
        return
    # replace gates by circuits
    lib = {}; full = {}
    for name, lay in case["lib"].items():
        k = 1 if name in NM[1] else 2
        for l in set(s for lr in flat(c) for n, s, a in lr if n == name and s is not None):
            mp = dict(zip(range(k), l))
            full[(name, l)] = [[(n, tuple(mp[x] for x in s), a) for n, s, a in lr] for lr in ref_flat(lay)]
            lib[Label(name, l)] = Circuit([Label([Label(n, s) for n, s, a in lr]) for lr in full[(name, l)]], l, editable=False)
    want = []; missing = False
    for lr in flat(c):
        rest = []
        for g in lr:
            if (g[0], g[1]) in full: want += full[(g[0], g[1])]
            else: rest.append(g); missing = True
        want.append(rest)
    rec.nt(bool(lib))
    kw = dict(depth_compression=case["dc"], allow_unchanged_gates=case["unch"], oneQgate_relations=rel if case["userel"] else None)
    if missing and not case["unch"]:
        try: e.change_gate_library(lib, **kw)
        except ValueError: return
        rec.check(False, "incomplete library accepted", c.str, list(lib))
    e.change_gate_library(lib, **kw)
    d = Circuit(e.layertup, lines)
    rec.check(phase_close(simulate(want, lines), U_of(d)), "change_gate_library", c.str, "->", d.str, {str(k): v.str for k, v in lib.items()})


# ---------------------------------------------------------------------------- other languages
def quil_gate(t):
    m = re.match(r"R([XYZ])\((-?)pi/(\d)\)$", t)
    if m: return rot({"X": X, "Y": Y, "Z": Z}[m.group(1)], (-1 if m.group(2) else 1) * PI / int(m.group(3)))
    return {"I": I2, "X": X, "Y": Y, "Z": Z, "H": H, "CZ": CZ, "CNOT": CNOT}.get(t)


def qasm_gate(t):
    m = re.match(r"u3\(([^)]*)\)$", t)
    if m:
        th, ph, la = [float(x) for x in m.group(1).split(",")]
        return np.array([[math.cos(th / 2), -np.exp(1j * la) * math.sin(th / 2)], [np.exp(1j * ph) * math.sin(th / 2), np.exp(1j * (ph + la)) * math.cos(th / 2)]])
    return {"id": I2, "x": X, "y": Y, "z": Z, "h": H, "s": ONE["Gp"], "sdg": ONE["Gpdag"], "t": ONE["Gt"], "tdg": ONE["Gtdag"],
            "cz": CZ, "cx": CNOT, "swap": SWAP}.get(t)


Q1 = sorted(set(itgs.get_standard_gatenames_quil_conversions()) & set(itgs.get_standard_gatenames_openqasm_conversions()) - {"Gcnot", "Gcphase"})
QN = {1: Q1, 2: ["Gcnot", "Gcphase"]}


@st.composite
def lang_case(draw):
    lines = draw(st.sampled_from([[0, 1, 2], ["Q0", "Q1"], ["Q3", "Q1", "Q2"], [3, 1], ["a", "b"], [0]]))
    return {"lines": lines, "layers": draw(layers_st(lines, 0, QN, 6, False, False)), "gi": draw(st.integers(0, 6)),
            "conv": draw(st.sampled_from([None, "shift", "rev"])), "block": draw(st.booleans()), "ro": draw(st.booleans()), "iz": draw(st.integers(0, 5))}


@facet(lang_case, quick=1500, rule="a two-qubit gate and at least two layers")
def languages(case, rec):
    lines, lay = case["lines"], [list(l) for l in case["layers"]]
    if case["gi"] < 3: lay.insert(case["gi"] % (len(lay) + 1), [{"n": "Gi", "s": None, "a": []}])
    c = Circuit([mkl(l) for l in lay], tuple(lines))
    rec.nt(len(lay) > 1 and any(len(e["s"] or ()) == 2 for l in lay for e in l)); rec.note(str(case["conv"]), "lines:" + str(lines))
    nums = [int(str(l).replace("Q", "")) if str(l).replace("Q", "").isdigit() else None for l in lines]
    conv = {"shift": {l: 10 + i for i, l in enumerate(lines)}, "rev": {l: len(lines) - i for i, l in enumerate(lines)}, None: None}[case["conv"]]
    if conv is None and None in nums:
        for f in (c.convert_to_quil, c.convert_to_openqasm):
            try: f()
            except ValueError: continue
            rec.check(False, "no standard conversion but accepted")
        return
    cv = conv or dict(zip(lines, nums))
    # expected: per layer the gates, then idles on unused lines
    want = []
    for lr in flat(c):
        L = []
        for n, s, a in lr:
            if s is None: L += [(n, (cv[x],)) for x in lines]
            else: L.append((n, tuple(cv[x] for x in s)))
        used = [x for _, s in L for x in s]
        want.append((L, [cv[x] for x in lines if cv[x] not in used]))

    def compare(layers, table, gate, what, idname):
        rec.check(len(layers) == len(want), what, "number of layers", len(layers), len(want))
        for got, (L, idle) in zip(layers, want):
            rec.check(len(got) == len(L) + len(idle), what, "number of gates", got, L, idle)
            rest = list(got)
            for n, s in L:
                hit = [g for g in rest if g[1] == s]
                rec.check(len(hit) == 1, what, "gate", n, s, "missing in", got)
                rest.remove(hit[0])
                G = gate(hit[0][0])
                if G is None: rec.check(hit[0][0] == n, what, "name", hit[0], n)
                else: rec.check(phase_close(gateU2(n, len(s)), G), what, "gate", n, "emitted as", hit[0])
            rec.check(sorted(g[1] for g in rest) == sorted((x,) for x in idle) and all(g[0] == idname for g in rest), what, "idles", rest, idle)
    # Quil
    if case["gi"] >= 0:
        ro = {l: i for i, l in enumerate(lines)} if case["ro"] else None
        q = c.convert_to_quil(qubit_conversion=conv, readout_conversion=ro, block_between_layers=True, block_idles=case["block"])
        ls = [x for x in q.split("\n") if x]
        rec.check(ls[0] == "DECLARE ro BIT[%d]" % len(lines) and "RESET" in ls[:2], "quil header", ls[:3])
        layers, cur, meas = [], [], []
        i = 0
        while i < len(ls):
            l = ls[i]
            if l == "PRAGMA PRESERVE_BLOCK" and ls[i + 1] == "PRAGMA END_PRESERVE_BLOCK": layers.append(cur); cur = []; i += 1
            elif l.startswith(("PRAGMA", "DECLARE", "RESET")): pass
            elif l.startswith("MEASURE"):
                m = re.match(r"MEASURE (\d+) ro\[(\d+)\]$", l); meas.append((int(m.group(1)), int(m.group(2))))
            else:
                w = l.split(" "); cur.append((w[0], tuple(int(x) for x in w[1:])))
            i += 1
        rec.check(cur == [], "quil: gates after last layer", cur)
        compare(layers, None, quil_gate, "quil", "I")
        rec.check(meas == [(cv[l], ro[l] if ro else cv[l]) for l in lines], "quil measurements", meas)
        q2 = c.convert_to_quil(qubit_conversion=conv, block_between_layers=False, block_idles=False)
        g1 = [x for x in ls if not x.startswith(("PRAGMA", "MEASURE", "DECLARE"))]; g2 = [x for x in q2.split("\n") if x and not x.startswith(("PRAGMA", "MEASURE", "DECLARE"))]
        rec.check(g1 == g2, "quil gates without blocks")
        rec.check("PRESERVE_BLOCK" not in q2, "quil blocks")
    # OpenQASM
    nIz = 0
    if case["iz"] < 2 and len(lines) > 0:
        k = case["iz"]; lay2 = lay[:k] + [[{"n": "Iz", "s": [lines[0]], "a": []}]] + lay[k:]
        c = Circuit([mkl(l) for l in lay2], tuple(lines)); nIz = 1
        want.insert(min(k, len(want)), ([("Iz", (cv[lines[0]],))], [cv[x] for x in lines[1:]]))
    q = c.convert_to_openqasm(qubit_conversion=conv, block_between_layers=True)
    ls = [x for x in q.split("\n") if x]
    rec.check(ls[:4] == ["OPENQASM 2.0;", 'include "qelib1.inc";', "qreg q[%d];" % len(lines), "creg cr[%d];" % (len(lines) + nIz)], "qasm header", ls[:4])
    layers, cur, meas = [], [], []
    for l in ls[4:]:
        if l.startswith("barrier"):
            rec.check(re.findall(r"q\[(\d+)\]", l) == [str(cv[x]) for x in lines], "barrier on all lines", l)
            layers.append(cur); cur = []
        elif l.startswith("measure"):
            m = re.match(r"measure q\[(\d+)\] -> cr\[(\d+)\];$", l)
            if len(layers) < len(want) and want[len(layers)][0][0:1] == [("Iz", (int(m.group(1)),))]: cur.append(("Iz", (int(m.group(1)),))); rec.check(m.group(2) == "0", "mid-circuit bit")
            else: meas.append((int(m.group(1)), int(m.group(2))))
        else:
            m = re.match(r"(.*?) (q\[.*);$", l)
            cur.append((m.group(1), tuple(int(x) for x in re.findall(r"q\[(\d+)\]", m.group(2)))))
            rec.check(re.sub(r"\s", "", m.group(2)) == ",".join("q[%d]" % x for x in cur[-1][1]), "operand syntax", l)
    rec.check(cur == [], "qasm: gates after last layer")
    compare(layers, None, qasm_gate, "qasm", "id")
    rec.check(meas == [(cv[l], nIz + cv[l]) for l in lines], "qasm measurements", meas)
    q2 = c.convert_to_openqasm(qubit_conversion=conv, block_between_layers=False)
    rec.check([x for x in q2.split("\n") if x] == [x for x in ls if not x.startswith("barrier")], "qasm without barriers")


_STD = itgs.get_standard_gatename_unitaries()


def gateU2(n, k):
    return ONE.get(n) if n in ONE else TWO.get(n) if n in TWO else _STD[n]
