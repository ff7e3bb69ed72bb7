"""C21: compiled and sampled circuits implement what they claim on their device."""
TECH = "Hypothesis: generated Cliffords, stabiliser states, CNOT circuits, devices, compilers, samplers and graphs; every circuit multiplied out as a dense unitary and compared with the requested operation or announced outcome, gates checked against the device, graph queries against breadth-first search"
NOTE = "Generated-input search: 5 devices of 1-4 qubits (line, star, ring; CNOT, with and without CPHASE; integer and string labels) and connected subsets; graphs of <= 6 nodes; sampler distributions are judged by support and by bounds that correct sampling exceeds with probability < 1e-9."
import itertools, warnings
import numpy as np
from hypothesis import strategies as st
from vt import facet
from vt.gen import *
from vt.cliff import *
import pygsti
import pygsti.objects as po
from pygsti.objects import Circuit, Label, ProcessorSpec, QubitGraph
from pygsti.algorithms import compilers as cm, randomcircuit as rcm
from pygsti.tools import symplectic as sy
warnings.simplefilter("ignore")

DEV = [(1, ["Gxpi2", "Gypi2", "Gxmpi2", "Gympi2", "Gxpi", "Gypi", "Gzpi"], {}, None),
       (2, ["Gh", "Gp", "Gxpi", "Gypi", "Gzpi", "Gpdag", "Gcnot"], {"Gcnot": [(0, 1)]}, None),
       (3, ["Gh", "Gp", "Gpdag", "Gxpi", "Gypi", "Gzpi", "Gcphase", "Gcnot"], {"Gcphase": [("Q0", "Q1"), ("Q2", "Q1")], "Gcnot": [("Q0", "Q1"), ("Q2", "Q1")]}, ["Q0", "Q1", "Q2"]),
       (4, ["Gc%d" % i for i in range(24)] + ["Gcnot"], {"Gcnot": [(0, 1), (1, 2), (2, 3), (3, 0)]}, None),
       (4, ["Gxpi2", "Gypi2", "Gxmpi2", "Gympi2", "Gcnot"], {"Gcnot": [("a", "c"), ("b", "c"), ("c", "d")]}, ["a", "b", "c", "d"])]
SUB = [[[0]], [[0, 1], [1, 0], [0], [1]], [["Q0", "Q1", "Q2"], ["Q1", "Q2"], ["Q2"], ["Q1", "Q0"]], [[0, 1, 2, 3], [1, 2, 3], [3, 0], [2], [1, 0, 3]], [["a", "b", "c", "d"], ["c", "a", "b"], ["d", "c"], ["b"]]]
_cache = {}


def device(k):
    if k not in _cache:
        n, names, av, labs = DEV[k]; p = ProcessorSpec(n, list(names), availability={a: list(b) for a, b in av.items()}, qubit_labels=labs)
        p._vt = {nm: np.asarray(u, complex) for nm, u in p.root_gate_unitaries.items()}; p._labels = {Label(nm, q) for nm in names for q in p.qubit_labels if p._vt[nm].shape == (2, 2)} | {Label(nm, e) for nm, es in av.items() for e in es}
        _cache[k] = p
    return _cache[k]


@st.composite
def onDev(draw, lo=0, hi=14):
    k = draw(st.integers(0, len(DEV) - 1)); sub = draw(st.sampled_from(SUB[k] + [None])); n = len(sub) if sub else DEV[k][0]; w = []
    for _ in range(draw(st.integers(lo, hi))):
        if n > 1 and draw(st.integers(0, 2)) == 0: w.append(["CNOT", list(draw(st.permutations(list(range(n)))))[:2]])
        else: w.append([draw(st.sampled_from(sorted(G1))), [draw(st.integers(0, n - 1))]])
    return {"dev": k, "sub": sub, "w": w, "n": n, "seed": draw(seeds)}


@st.composite
def compcases(draw):
    c = draw(onDev()); c.update(alg=draw(st.sampled_from(["BGGE", "ROGGE", "iAGvGE", "AGvGE"])), cost=draw(st.sampled_from(["2QGC", "depth", "2QGC:10:depth:1"])), it=draw(st.integers(1, 5)), pre=draw(st.booleans()), rand=draw(st.booleans()), nops=draw(st.integers(0, 7)) == 0,
                                cn=draw(st.sampled_from(["BGE", "ROCAGE", "COCAGE", "COiCAGE", "OCAGE", "OiCAGE"])), ord=draw(st.integers(0, 23)), cl=draw(st.sampled_from(["paulieq", "paulieq", None])))
    return c


def fin(c): return c if c._static else c.copy(editable=False)


def native(rec, dev, circ, lines, what):
    "unitary of a circuit that must be made of the device's gates on the requested qubits"
    rec.check(set(circ.line_labels) == set(lines), what + ": lines", circ.line_labels, lines)
    U, used = circuit_u(circ, dev._vt, lines)
    bad = [str(l) for l in used if l not in dev._labels or not set(l.sslbls) <= set(lines)]
    rec.check(not bad, what + ": gates the device does not have", bad[:4]); return U


@facet(lambda: compcases(), quick=230, rule="a Clifford on at least two qubits", case_s=100)
def compiled(case, rec):
    dev = device(case["dev"]); sub, n = case["sub"], case["n"]; lines = sub or list(dev.qubit_labels); U = word_u(n, case["w"]); s, p = sp_of(U); rec.nt(n > 1); rec.note(case["alg"], case["cn"], str(case["dev"]))
    np.random.seed(case["seed"] % 2**32)
    if case["nops"]:
        c = cm.compile_clifford(s, p, iterations=case["it"], algorithm=case["alg"] if case["alg"][0] != "i" and case["alg"][0] != "A" else "ROGGE", costfunction=case["cost"], prefixpaulis=case["pre"], paulirandomize=case["rand"])
        V, _ = circuit_u(c, dict(G1, CNOT=CNOT), list(range(n))); rec.check(same_phase(V, U), "compile_clifford without a device", c.str); return
    kw = dict(qubit_labels=sub, iterations=case["it"], costfunction=case["cost"], paulirandomize=case["rand"])
    if case["alg"] != "AGvGE":
        s0, p0 = s.copy(), p.copy(); c = cm.compile_clifford(s, p, dev, algorithm=case["alg"], prefixpaulis=case["pre"], **kw)
        rec.check(np.array_equal(s, s0) and np.array_equal(p, p0), "compile_clifford changes its arguments")
        rec.check(same_phase(native(rec, dev, c, lines, "compile_clifford"), U), "compile_clifford", c.str, case["w"])
        c = cm.compile_symplectic(s, dev, sub, case["it"], [case["alg"], "BGGE"], case["cost"], case["rand"])
        rec.check(is_pauli(native(rec, dev, c, lines, "compile_symplectic") @ U.conj().T), "compile_symplectic", c.str)
    orders = list(itertools.permutations(lines)); order = list(orders[case["ord"] % len(orders)])
    if case["cn"] == "OiCAGE":   # needs the remaining qubits to stay connected
        for i in range(1, len(order)): rec.skip(not connected(dev, order[i:]))
    aargs = [order] if case["cn"][0] == "O" else []
    skw = dict(kw, algorithm=case["cn"], aargs=aargs)
    c = cm.compile_stabilizer_state(s, p, dev, **skw); V = native(rec, dev, c, lines, "compile_stabilizer_state")
    rec.check(abs(abs(np.vdot(V[:, 0], U[:, 0])) - 1) < 1e-7, "compile_stabilizer_state", c.str, case["w"])
    c = cm.compile_stabilizer_measurement(s, p, dev, **skw); V = native(rec, dev, c, lines, "compile_stabilizer_measurement")
    rec.check(abs(abs((V @ U[:, 0])[0]) - 1) < 1e-7, "compile_stabilizer_measurement", c.str, case["w"])
    # CNOT circuits
    W = word_u(n, [g for g in case["w"] if g[0] == "CNOT"]); sc, _ = sp_of(W)
    c = cm.compile_cnot_circuit(sc, dev, sub, case["cn"], clname=case["cl"], aargs=aargs)
    if case["cl"]: rec.check(is_pauli(native(rec, dev, c, lines, "compile_cnot_circuit") @ W.conj().T), "compile_cnot_circuit over the device", c.str)
    else:
        V, used = circuit_u(c, {"CNOT": CNOT}, lines); rec.check(same_phase(V, W), "compile_cnot_circuit", c.str)
    c2, c1 = cm.compile_conditional_symplectic(s, dev, sub, case["cn"], aargs)
    # the circuit alone prepares the same stabiliser state up to Paulis
    g = dict(dev._vt); g.update(G1); g["CNOT"] = CNOT
    V, _ = circuit_u(c2, g, lines); a, b = sp_of(V); rec.check(same_group(a[:, n:], s[:, n:]), "compile_conditional_symplectic", c2.str)


def same_group(A, B):
    "do the columns of A and B span the same space over GF(2)?"
    def span(M):
        out = {(0,) * len(M)}
        for c in M.T: out |= {tuple((np.array(x) + c) % 2) for x in out}
        return out
    return span(A) == span(B)


def adj(dev): return {frozenset(l.sslbls) for l in dev._labels if len(l.sslbls) == 2}
def connected(dev, qs):
    E = adj(dev); seen = {qs[0]}; st_ = [qs[0]]
    while st_:
        x = st_.pop()
        for y in qs:
            if y not in seen and frozenset((x, y)) in E: seen.add(y); st_.append(y)
    return seen == set(qs)


@facet(lambda: st.fixed_dictionaries({"dev": st.integers(0, len(DEV) - 1), "i": st.integers(0, 200), "force": st.booleans()}), quick=120, rule="a gate the device does not have natively", case_s=100)
def library(case, rec):
    dev = device(case["dev"]); lines = list(dev.qubit_labels); n = len(lines); rec.nt(n > 1)
    IGU = pygsti.tools.internalgates.get_internal_gate_unitaries()
    for typ in ("absolute", "paulieq"):
        lib = dev.compilations[typ]; labs = sorted(lib.keys(), key=str); lab = labs[case["i"] % len(labs)]
        c = lib.get_compilation_of(lab, force=case["force"]) if lab.name != "CNOT" or True else None
        U, used = circuit_u(c, dev._vt, lines); T = embed(CNOT if lab.name == "CNOT" else np.asarray(IGU[lab.name], complex), [lines.index(q) for q in lab.sslbls], n)
        rec.check(all(l in dev._labels for l in used), "a compilation uses a gate the device does not have", str(lab), c.str)
        rec.check(same_phase(U, T) if typ == "absolute" else is_pauli(U @ T.conj().T), typ + " compilation of a gate", str(lab), c.str)
        rec.check(lib[lab] == c, "stored compilation")
    g = dev._vt
    for a, b in dev.gate_inverse.items(): rec.check(same_phase(g[a] @ g[b], np.eye(len(g[a]), dtype=complex)), "gate_inverse", a, b)
    inv = [a for a in g if any(g[a].shape == g[b].shape and same_phase(g[b] @ g[a], np.eye(len(g[a]), dtype=complex)) for b in g)]
    rec.check(set(inv) == set(dev.gate_inverse), "gate_inverse: complete", sorted(dev.gate_inverse), inv)
    for (a, b), c in dev.oneQgate_relations.items(): rec.check(same_phase(g[b] @ g[a], g[c] if c is not None else I2), "one-qubit relations", a, b, c)
    one = [a for a in g if g[a].shape == (2, 2)]
    for a in one:
        for b in one:
            P = g[b] @ g[a]; hit = same_phase(P, I2) or any(same_phase(P, g[c]) and not same_phase(g[c], I2) for c in one)
            if not same_phase(g[a], I2) and not same_phase(g[b], I2): rec.check(hit == ((a, b) in dev.oneQgate_relations), "one-qubit relations: complete", a, b)
    for k in range(1, n + 1):
        want = {frozenset(q) for q in itertools.combinations(lines, k) if connected(dev, list(q))}
        x = dev.get_all_connected_sets(k); rec.check(len(x) == len(want) and {frozenset(q) for q in x} == want, "get_all_connected_sets", k)
        if n > 1: y = dev.get_all_connected_sets_new()[k]; rec.check(len(y) == len(want) and {frozenset(q) for q in y} == want, "get_all_connected_sets_new", k, y)
    sub = SUB[case["dev"]][case["i"] % len(SUB[case["dev"]])]
    rec.check(sorted(map(tuple, dev.get_edges(sub))) == sorted(tuple(l.sslbls) for l in dev._labels if len(l.sslbls) == 2 and set(l.sslbls) <= set(sub)), "get_edges")
    for l in dev._labels:
        for q in itertools.permutations(l.sslbls): rec.check(l in dev.clifford_ops_on_qubits[q], "clifford_ops_on_qubits", str(l), q)
    rec.check(sum(map(len, dev.clifford_ops_on_qubits.values())) == sum(1 if len(l.sslbls) == 1 else 2 for l in dev._labels), "clifford_ops_on_qubits: nothing else")


SAMP = ["Qelimination", "Qelimination", "edgegrab", "local", "co2Qgates", "pairingQs"]


@st.composite
def sampcases(draw):
    c = draw(onDev(0, 0)); s = draw(st.sampled_from(SAMP)); c.update(sampler=s, prob=draw(st.sampled_from([0, 0.25, 0.5, 1.0, None])), L=draw(st.sampled_from([0, 1, 2, 3, 4, 6])), addlocal=draw(st.booleans()), rout=draw(st.booleans()), twirl=draw(st.booleans()), cond=draw(st.booleans()),
                                                                                                part=draw(st.booleans()), kind=draw(st.sampled_from(["direct", "direct", "simul", "clifford", "mirror", "mirror", "germ", "simexp"])), lc=draw(st.booleans()), pr=draw(st.booleans()), fixed=draw(st.booleans()), one=draw(st.booleans()))
    return c


def sampler_of(case, dev, lines):
    """(sampler, args, max number of 2Q gates in a layer or None, certain?)"""
    s = case["sampler"]; E = [e for e in adj(dev) if e <= set(lines)]
    two = sorted([l for l in dev._labels if len(l.sslbls) == 2 and set(l.sslbls) <= set(lines)], key=str)
    if s == "Qelimination": return s, [case["prob"]]
    if s == "local": return s, []
    if s == "edgegrab": return s, [0 if not E or case["prob"] in (None, 0) else 1]
    if s == "co2Qgates":
        sets = [[]] + [[l] for l in two] + [[[l] for l in two]] * bool(two)
        return s, [sets, "uniform", case["prob"] if case["prob"] is not None else 1.0]
    return s, [case["prob"] if case["prob"] is not None else 0.5]


def layer_ok(rec, dev, layer, lines, what, conn=True):
    comp = [x for l in layer for x in (l.components if isinstance(l, Label) else [l])]; qs = [q for l in comp for q in l.sslbls]
    rec.check(sorted(map(str, qs)) == sorted(map(str, lines)), what + ": one gate on every qubit", [str(x) for x in comp], lines)
    if conn: rec.check(all(l in dev._labels for l in comp), what + ": gates the device does not have", [str(l) for l in comp if l not in dev._labels])
    return comp


@facet(lambda: sampcases(), quick=260, rule="a circuit on at least two qubits with two or more random layers", case_s=100)
def sampled(case, rec):
    dev = device(case["dev"]); sub, n, L = case["sub"], case["n"], case["L"]; lines = sub or list(dev.qubit_labels); full = len(lines) == len(dev.qubit_labels); q = list(sub) if sub else None
    smp, args = sampler_of(case, dev, lines); kind = case["kind"]; rec.nt(n > 1 and L > 1); rec.note(kind, smp); np.random.seed(case["seed"] % 2**32)
    # plain random circuits
    ls = circuit_random(rec, dev, case, smp, args, lines, q, L)
    if smp == "pairingQs": return        # pays no attention to connectivity (documented)
    if kind == "direct":
        c, out = rcm.direct_rb_circuit(dev, L, q, smp, args, case["addlocal"], [], case["rout"], case["twirl"], case["cond"], 2, [], case["part"])
        parts = c if case["part"] else [c]
        if case["part"]:
            core = parts[1 if case["twirl"] else 0]; rec.check(len(core) == (2 * L + 1 if case["addlocal"] else L), "direct RB: random layers", len(core), L)
        Us = np.eye(2**n, dtype=complex)
        for x in parts: Us = native(rec, dev, x, lines, "direct RB") @ Us
        rec.check(outcome(Us) == tuple(out), "direct RB: announced outcome", outcome(Us), out)
        if not case["rout"]: rec.check(not any(out), "direct RB: all-zeros outcome", out)
        if not case["cond"]: rec.check(is_pauli(Us), "direct RB without conditional compilation is a Pauli")
    elif kind == "clifford":
        c, out = rcm.clifford_rb_circuit(dev, min(L, 3), q, case["rout"], 2); Us = native(rec, dev, c, lines, "Clifford RB")
        rec.check(outcome(Us) == tuple(out) and is_pauli(Us) and (case["rout"] or not any(out)), "Clifford RB outcome", outcome(Us), out)
    elif kind in ("mirror", "germ"):
        rec.skip(set(dev.gate_inverse) != set(dev.root_gate_names)); L2 = 2 * (L // 2)
        if kind == "mirror":
            c, out = rcm.mirror_rb_circuit(dev, L2, q, smp, args, case["lc"], case["pr"]); res = [(L2, c, out)]
        else:
            dens = 0 if n == 1 else 1 / 8
            cs, outs, aux = rcm.random_germpower_mirror_circuits(dev, [L2, L2 + 2], q, case["lc"], case["pr"], dens, case["fixed"]); res = list(zip([L2, L2 + 2], cs, outs)); rec.check(len(cs) == 2, "one circuit per depth")
        for d, c, out in res:
            Us = native(rec, dev, c, lines, kind); rec.check(outcome(Us) == tuple(out) and is_pauli(Us), kind + " circuit: announced outcome", outcome(Us), [out, c.str])
            if not case["pr"]: rec.check(not any(out), kind + ": all-zeros outcome")
            if not case["lc"] and not case["pr"]: rec.check(len(c) == (d if kind == "mirror" else 2 * d), kind + ": depth", len(c), d)
    elif kind in ("simul", "simexp"):
        rec.skip(n < 2)
        if case["one"]: struct = "1Q"; groups = [(x,) for x in dev.qubit_labels]
        else:
            groups = [(lines[0],)] + ([tuple(lines[1:])] if connected(dev, lines[1:]) else [(x,) for x in lines[1:]]); struct = groups
        smp2, a2 = ("Qelimination", [case["prob"]]) if smp not in ("local",) else (smp, []); allq = [x for g in groups for x in g]
        def chk(c, out, grp, iso=False):
            Us = np.eye(2**len(allq), dtype=complex)
            for x in (c if isinstance(c, list) else [c]): Us = native(rec, dev, x, allq, "simultaneous RB") @ Us
            o = outcome(Us); rec.check(o is not None, "simultaneous RB: an outcome is random")
            d = dict(zip(allq, o)); rec.check(tuple(tuple(d[x] for x in g) for g in grp) == tuple(tuple(y) for y in out), "simultaneous RB: announced outcome", [o, allq], out)
            for x in (c if isinstance(c, list) else [c]):
                for l in fin(x):
                    for y in l.components: rec.check(any(set(y.sslbls) <= set(g) for g in groups), "simultaneous RB: a gate joins two groups", str(y))
            if not case["rout"]: rec.check(not any(v for y in out for v in y), "simultaneous RB: all zeros")
            return o
        if kind == "simul":
            c, out = rcm.simultaneous_direct_rb_circuit(dev, L, struct, smp2, a2, case["addlocal"], [], case["rout"], case["twirl"], case["cond"], 2, [], case["part"]); chk(c, out, groups)
        else:
            ex = rcm.simultaneous_direct_rb_experiment(dev, [0, 1 + L], 2, struct, smp2, a2, case["addlocal"], [], case["rout"], case["twirl"], case["cond"], 1, [], False, case["lc"], case["pr"], verbosity=0)
            rec.check(sorted(ex["circuits"]) == [(0, 0), (0, 1), (1 + L, 0), (1 + L, 1)], "experiment: lengths", sorted(ex["circuits"]))
            settings = []
            for k, v in ex["circuits"].items():
                t = ex["target"][k]
                if not isinstance(v, dict): chk(v, t, groups); continue
                G = tuple(tuple(g) for g in groups); chk(v[G], t[G], groups); whole = v[G]; settings.append(ex["settings"][k])
                want = {G} | ({((g,)) for g in G} if case["lc"] else set()) | ({tuple(h for h in G if h != g) for g in G} if case["pr"] else set())
                rec.check(set(v) == want == set(t), "experiment: isolated subsets", str(list(v)), str(want))
                for key in v:
                    keep = {x for g in key for x in g}; c = v[key]
                    exp = [[y for y in l.components if set(y.sslbls) <= keep] for l in fin(whole)]; got = [list(l.components) for l in fin(c)]
                    rec.check([sorted(map(str, a)) for a in exp] == [sorted(map(str, a)) for a in got], "experiment: isolated circuit is the circuit with other lines idle", c.str)
                    chk(c, t[key], key)
                    chk2 = {x: b for g, o in zip(G, t[G]) for x, b in zip(g, o)}; rec.check(tuple(tuple(chk2[x] for x in g) for g in key) == tuple(tuple(o) for o in t[key]), "experiment: isolated target")


def circuit_random(rec, dev, case, smp, args, lines, q, L):
    c = rcm.random_circuit(dev, L, q, smp, args, case["addlocal"], [])
    rec.check(len(c) == (2 * L + 1 if case["addlocal"] else L) and list(c.line_labels) == list(lines), "random_circuit: layers", len(c), L)
    conn = smp != "pairingQs"; cnt = []
    for i, l in enumerate(c):
        comp = layer_ok(rec, dev, [l], lines, "random_circuit", conn); t = sum(len(x.sslbls) == 2 for x in comp); cnt.append(t)
        rec.check(all(set(x.sslbls) <= set(lines) for x in comp), "random_circuit: other qubits")
        if case["addlocal"] and i % 2 == 0: rec.check(t == 0, "random_circuit: local layer")
        else:
            E = [e for e in adj(dev) if e <= set(lines)]
            p = args[0] if smp in ("Qelimination", "pairingQs") else None
            if smp == "local" or p == 0: rec.check(t == 0, "random_circuit: no two-qubit gates", str(l))
            if smp == "Qelimination" and p == 1.0:
                pairs = [set(x.sslbls) for x in comp if len(x.sslbls) == 2]; free = set(lines) - set().union(*pairs) if pairs else set(lines)
                rec.check(not any(e <= free for e in E), "Qelimination with probability 1 pairs all it can", str(l))
            if smp == "pairingQs" and p == 1.0: rec.check(t == len(lines) // 2, "pairingQs with probability 1", str(l))
            if smp == "edgegrab" and args[0] == 0: rec.check(t == 0, "edgegrab with mean 0")
            if smp == "co2Qgates" and args[2] == 0: rec.check(t == 0, "co2Qgates with probability 0")
    return cnt


@st.composite
def distcases(draw):
    k = draw(st.integers(1, len(DEV) - 1))
    return {"dev": k, "kind": draw(st.sampled_from(["edge", "pair", "co2", "local", "elim", "compat", "pauli", "c1"])), "seed": draw(seeds), "m": draw(st.sampled_from([0.25, 0.5, 1.0])), "w": [draw(st.integers(1, 5)) for _ in range(3)]}


@facet(lambda: distcases(), quick=70, rule="a sampler with a stated distribution", case_s=60)
def distributions(case, rec):
    dev = device(case["dev"]); lines = list(dev.qubit_labels); n = len(lines); np.random.seed(case["seed"] % 2**32); k, N = case["kind"], 400; rec.nt(True); rec.note(k)
    two = sorted([l for l in dev._labels if len(l.sslbls) == 2], key=str); ones = sorted([l for l in dev._labels if len(l.sslbls) == 1], key=str); names1 = sorted({l.name for l in ones})
    def near(x, mean, sd, what): rec.check(abs(x - N * mean) <= 7 * sd * np.sqrt(N) + 8, what, x / N, mean)
    lay = lambda f: [layer_ok(rec, dev, f(), lines, k, k not in ("pair",)) for _ in range(N)]
    n2 = lambda ls: sum(len(x.sslbls) == 2 for l in ls for x in l)
    if k == "edge": near(n2(lay(lambda: rcm.circuit_layer_by_edgegrab(dev, None, case["m"]))), case["m"], 1, "edgegrab: mean number of two-qubit gates")
    elif k == "pair": near(n2(lay(lambda: rcm.circuit_layer_by_pairing_qubits(dev, None, case["m"]))), case["m"] * (n // 2), n // 2, "pairingQs: mean number of two-qubit gates")
    elif k == "co2":
        sets = [[], [two[0]], [[x] for x in two]]; w = case["w"]; ls = lay(lambda: rcm.circuit_layer_by_co2Qgates(dev, None, sets, w, case["m"]))
        near(n2(ls), case["m"] * (w[1] + w[2]) / sum(w), 1, "co2Qgates: rate of two-qubit gates"); t0 = sum(two[0] in l for l in ls); near(t0, case["m"] * (w[1] + w[2] / len(two)) / sum(w), 1, "co2Qgates: rate of the first set")
    elif k == "local":
        nm = names1[:3]; w = case["w"][:len(nm)]; ls = lay(lambda: rcm.circuit_layer_of_oneQgates(dev, None, nm, w))
        for a, x in zip(nm, w): near(sum(l.name == a for y in ls for l in y) / n, x / sum(w), 1, "local: gate probabilities")
        ls = lay(lambda: rcm.circuit_layer_of_oneQgates(dev)); near(sum(l.name == names1[0] for y in ls for l in y) / n, 1 / len(names1), 1, "local: uniform gates")
    elif k == "elim":
        ls = lay(lambda: rcm.circuit_layer_by_Qelimination(dev, None, case["m"])); E = adj(dev)
        if n == 2: near(n2(ls), case["m"], 1, "Qelimination: rate of two-qubit gates")
        seen = {x for l in ls for x in l}; rec.check(len(seen) > len(dev._labels) * 0.9 or case["m"] == 1, "Qelimination: all gates occur", len(seen), len(dev._labels))
    elif k == "compat":
        E = [tuple(l.sslbls) for l in two]
        for m in (1, 2): 
            x = rcm.find_all_sets_of_compatible_twoQgates(E, m, gatename=two[0].name, aslabel=True); want = [c for c in itertools.combinations(E, m) if len({q for e in c for q in e}) == 2 * m]
            rec.check(sorted(map(str, x)) == sorted(str([Label(two[0].name, e) for e in c]) for c in want), "compatible sets", str(x))
    else:
        tot = {}
        for _ in range(200):
            c = rcm.pauli_layer_as_compiled_circuit(dev, None) if k == "pauli" else rcm.oneQclifford_layer_as_compiled_circuit(dev, None); U = native(rec, dev, c, lines, k) if len(c) else np.eye(2**n, dtype=complex)
            if k == "pauli": rec.check(is_pauli(U), "Pauli layer"); s, p = sp_of(U); tot[str(list(p))] = tot.get(str(list(p)), 0) + 1
            else: s, p = sp_of(U); rec.check(all(s[i, j] == 0 for i in range(2 * n) for j in range(2 * n) if i % n != j % n), "one-qubit Clifford layer"); tot[str(s.tolist()) + str(list(p))] = 1
        if k == "pauli" and n == 2: rec.check(len(tot) > 8 and max(tot.values()) < 60, "Paulis are uniform", tot)
        if k == "c1" and n > 1: rec.check(len(tot) > 60, "one-qubit Cliffords are uniform", len(tot))


@st.composite
def graphs(draw):
    n = draw(st.integers(1, 6)); names = draw(st.sampled_from(["int", "str", "odd"])); dirn = draw(st.booleans()); prs = [(i, j) for i in range(n) for j in range(n) if i != j]
    E = draw(st.lists(st.sampled_from(prs), max_size=12, unique=True)) if prs else []
    return {"n": n, "names": names, "dir": dirn, "dirs": dirn and draw(st.booleans()), "E": [list(e) for e in E], "how": draw(st.sampled_from(["edges", "matrix", "add"])), "hops": draw(st.integers(0, 3)), "base": draw(st.lists(st.integers(0, 5), min_size=1, max_size=2)), "keep": draw(st.lists(st.integers(0, 5), min_size=1, max_size=5, unique=True)),
            "rm": draw(st.lists(st.integers(0, 11), max_size=3)), "size": draw(st.integers(1, 3)), "reset": draw(st.booleans()), "geo": draw(st.sampled_from(["line", "ring", "grid", "torus"])), "gn": draw(st.integers(0, 10)), "alld": draw(st.booleans())}


@facet(lambda: graphs(), quick=260, rule="a graph with at least three nodes and two edges", case_s=30)
def graph(case, rec):
    n = case["n"]; lab = {"int": list(range(n)), "str": ["Q%d" % i for i in range(n)], "odd": [7 * i + 3 for i in range(n)][::-1]}[case["names"]]; d = case["dir"]; rec.nt(n > 2 and len(case["E"]) > 1)
    DN = ["up", "left", "right"]; E = [tuple(e) for e in case["E"]]
    if not d:
        E2 = []
        for e in E:
            if (e[1], e[0]) not in E2: E2.append(e)
        E = E2
    way = {e: DN[(e[0] * 3 + e[1]) % 3] for e in E}; te = [(lab[i], lab[j]) + ((way[(i, j)],) if case["dirs"] else ()) for i, j in E]
    if case["how"] == "edges": g = QubitGraph(lab, initial_edges=te, directed=d, direction_names=DN if case["dirs"] else None)
    elif case["how"] == "matrix" and not case["dirs"]:
        m = np.zeros((n, n), bool)
        for i, j in E: m[(i, j) if d or i < j else (j, i)] = True
        g = QubitGraph(lab, initial_connectivity=m, directed=d)
    else:
        g = QubitGraph(lab, directed=d, direction_names=DN if case["dirs"] else None)
        for k, e in enumerate(te):
            if k % 2 and not case["dirs"]: g[e[0], e[1]] = True
            else: g.add_edge(*e)
    def verify(g, E, tag):
        A = set(E) | (set() if d else {(j, i) for i, j in E}); D = np.full((n, n), np.inf)
        for i in range(n):
            D[i, i] = 0; fr = [i]
            while fr:
                nx = [j for x in fr for j in range(n) if (x, j) in A and D[i, j] == np.inf]
                for j in nx: pass
                new = []
                for x in fr:
                    for j in range(n):
                        if (x, j) in A and D[i, j] == np.inf: D[i, j] = D[i, x] + 1; new.append(j)
                fr = new
        rec.check(tuple(g.get_node_names()) == tuple(lab), tag + "nodes")
        ed = g.edges(); want = {(lab[i], lab[j]) for i, j in E}
        rec.check(len(ed) == len(E) and (set(ed) == want if d else {frozenset(e) for e in ed} == {frozenset(e) for e in want}), tag + "edges", ed, sorted(want))
        rec.check(set(g.edges(True)) == {(lab[i], lab[j]) for i, j in A}, tag + "edges, both ways")
        rec.check(np.array_equal(np.asarray(g.shortest_path_distance_matrix(), float), D), tag + "distances")
        for i in range(n):
            for j in range(n):
                a, b = lab[i], lab[j]
                if i != j:
                    rec.check(g.is_directly_connected(a, b) == g[a, b] == g.has_edge((a, b)) == ((i, j) in A), tag + "has_edge", [a, b])
                    rec.check(bool(g.is_connected(a, b)) == (D[i, j] < np.inf), tag + "is_connected", [a, b])
                rec.check(g.shortest_path_distance(a, b) == D[i, j], tag + "distance")
                if D[i, j] < np.inf:
                    p = g.shortest_path(a, b); ix = [lab.index(x) for x in p]
                    rec.check(p[0] == a and p[-1] == b and len(p) == D[i, j] + 1 and all(e in A for e in zip(ix, ix[1:])), tag + "shortest_path", p)
                    rec.check(g.shortest_path_edges(a, b) == list(zip(p, p[1:])), tag + "shortest_path_edges")
                    for q in lab: rec.check(g.shortest_path_intersect(a, b, [q]) == (q in p), tag + "shortest_path_intersect")
        return A, D
    A, D = verify(g, E, "")
    base = [lab[b % n] for b in case["base"]]; rec.check(g.radius(base, case["hops"]) == sorted(lab[j] for j in range(n) if any(D[lab.index(b), j] <= case["hops"] for b in base)), "radius", g.radius(base, case["hops"]))
    def glob(nodes): return all(D[i, j] < np.inf for i in nodes for j in nodes)
    for sz in (1, 2, 3):
        for c in itertools.combinations(range(n), sz): rec.check(g.are_glob_connected([lab[i] for i in c]) == glob(c), "are_glob_connected", c)
    rec.check(g.connected_combos(lab, case["size"]) == sum(glob(c) for c in itertools.combinations(range(n), case["size"])), "connected_combos")
    keep = list(dict.fromkeys(k % n for k in case["keep"])); sg = g.subgraph([lab[k] for k in keep], case["reset"]); nm = {k: (i if case["reset"] else lab[k]) for i, k in enumerate(keep)}
    want = {(nm[i], nm[j]) for i, j in E if i in keep and j in keep}; got = sg.edges()
    rec.check(len(got) == len(want) and (set(got) == want if d else {frozenset(e) for e in got} == {frozenset(e) for e in want}) and list(sg.get_node_names()) == [nm[k] for k in keep], "subgraph", got, sorted(want))
    cp = g.copy(); verify(cp, E, "copy: ")
    E2 = list(E)
    for r in case["rm"]:
        if E2: e = E2.pop(r % len(E2)); cp.remove_edge(lab[e[0]], lab[e[1]])
    verify(cp, E2, "after removals: "); verify(g, E, "after changing the copy: ")
    # standard graphs
    gn = case["gn"]; geo = case["geo"]
    if geo in ("grid", "torus"): gn = 4 if gn < 6 else 9
    cg = QubitGraph.common_graph(gn, geo, directed=d, all_directions=case["alld"]); s = int(round(np.sqrt(gn))); W = set()
    if geo in ("line", "ring"):
        W = {(i, i + 1) for i in range(gn - 1)} | ({(gn - 1, 0)} if geo == "ring" and gn > 2 else set())
    else:
        for r in range(s):
            for c in range(s):
                if c + 1 < s or (geo == "torus" and s > 2): W.add((r * s + c, r * s + (c + 1) % s))
                if r + 1 < s or (geo == "torus" and s > 2): W.add((r * s + c, ((r + 1) % s) * s + c))
    ed = cg.edges()
    if d: rec.check(set(ed) == (W | {(j, i) for i, j in W} if case["alld"] else W), "common_graph", [geo, gn], ed)
    else: rec.check({frozenset(e) for e in ed} == {frozenset(e) for e in W} and len(ed) == len(W), "common_graph, undirected", [geo, gn], ed)


@facet(st.just({"moves": "line of three, left and right"}), quick=1, shards=1, rule="always")
def moves(case, rec):
    rec.nt(True); g = QubitGraph([0, 1, 2], initial_edges=[(0, 1, "right"), (1, 2, "right"), (1, 0, "left"), (2, 1, "left")], directed=True, direction_names=["left", "right"])
    got = [[g.move_in_direction(i, w) for i in range(3)] for w in ("left", "right")]; rec.check(got == [[None, 0, 1], [1, 2, None]], "move_in_direction", got)
