"""C06: serialised objects decode to equal, equally behaving objects."""
TECH = "Hypothesis: generated containers, arrays, labels, circuits, bases, model members, models and experiment designs encoded and decoded in every format (round trip, re-encoding, behaviour of the decoded object under parameter changes)"
NOTE = "Generated-input search: containers of <= 12 leaves, models on 1-2 qubits with <= 3 operations of every parameterisation, circuits on <= 4 lines, text models compared to the 8 printed digits; experiment directories of <= 6 circuits."
import collections, copy, os, pickle, uuid, warnings
import numpy as np
from hypothesis import strategies as st
from vt import facet, models as M
from vt.gen import *
from vt.mstrat import explicit_specs
import pygsti
from pygsti import io
from pygsti.io import json as J, msgpack as MP
from pygsti.objects import Circuit, Label, DataSet

FMT = {"json": lambda o: J.loads(J.dumps(o)), "msgpack": lambda o: MP.loads(MP.dumps(o)), "pickle": lambda o: pickle.loads(pickle.dumps(o)), "deepcopy": copy.deepcopy}
ENC = {"json": J.dumps, "msgpack": MP.dumps}


# ------------------------------------------------------------------------------------ standard containers and arrays
scal = st.one_of(st.none(), st.booleans(), st.integers(-2**62, 2**62).map(lambda i: ["int", str(i)]), st.floats(allow_nan=False).map(lambda x: ["float", x.hex()]),
                 st.text(max_size=5).map(lambda s: ["str", s]), st.binary(max_size=5).map(lambda b: ["bytes", b.hex()]),
                 st.tuples(st.floats(allow_nan=False), st.floats(allow_nan=False)).map(lambda t: ["cplx", t[0].hex(), t[1].hex()]),
                 st.integers(0, 2**64).map(lambda i: ["uuid", i]), st.tuples(st.sampled_from(["f8", "f4", "i8", "i4", "u1", "c16", "b1", ">f8", "c8"]), st.integers(-100, 100)).map(lambda t: ["npg"] + list(t)),
                 st.tuples(st.one_of(st.none(), st.integers(-3, 9)), st.one_of(st.none(), st.integers(-3, 9)), st.one_of(st.none(), st.integers(1, 3))).map(lambda t: ["slice"] + list(t)),
                 st.tuples(st.integers(-3, 9), st.integers(-3, 9), st.integers(1, 3)).map(lambda t: ["range"] + list(t)), st.just(["func"]), st.just(["class"]))
arr = st.tuples(st.sampled_from(["f8", "f4", "i8", "i2", "u1", "c16", "c8", "b1", ">f8", ">i4", "U3", "S2", "rec", "rec2"]), st.lists(st.integers(0, 3), max_size=3), seeds, st.booleans()).map(lambda t: ["arr"] + [x for x in t])
lbl = linesets.flatmap(lambda l: simple_label(l)).map(lambda s: ["label", s])
circ = linesets.flatmap(lambda ls: st.lists(layer_of(ls, time=False), max_size=3).map(lambda c: ["circ", ls, c]))
hashable = st.one_of(st.text(max_size=4).map(lambda s: ["str", s]), st.integers(-9, 2**40).map(lambda i: ["int", str(i)]), st.lists(st.integers(0, 3).map(lambda i: ["int", str(i)]), max_size=2).map(lambda l: ["tuple", l]), lbl, circ, st.booleans(), st.none())
tree = st.recursive(st.one_of(scal, scal, arr, lbl, circ), lambda s: st.one_of(
    st.lists(s, max_size=4).map(lambda l: ["list", l]), st.lists(s, max_size=4).map(lambda l: ["tuple", l]), st.lists(hashable, max_size=3).map(lambda l: ["set", l]),
    st.lists(st.tuples(hashable, s), max_size=3).map(lambda l: ["dict", [list(x) for x in l]]), st.lists(st.tuples(hashable, s), max_size=3).map(lambda l: ["odict", [list(x) for x in l]]),
    st.lists(st.tuples(hashable, st.integers(0, 9).map(lambda i: ["int", str(i)])), max_size=3).map(lambda l: ["counter", [list(x) for x in l]])), max_leaves=12)


def mk(t):
    if t is None or isinstance(t, bool): return t
    k = t[0]
    if k == "int": return int(t[1])
    if k == "float": return float.fromhex(t[1])
    if k == "str": return t[1]
    if k == "bytes": return bytes.fromhex(t[1])
    if k == "cplx": return complex(float.fromhex(t[1]), float.fromhex(t[2]))
    if k == "uuid": return uuid.UUID(int=t[1])
    if k == "npg": return np.array(t[2]).astype(t[1])[()]
    if k == "slice": return slice(*t[1:])
    if k == "range": return range(*t[1:])
    if k == "func": return pygsti.tools.change_basis
    if k == "class": return Circuit
    if k == "arr":
        r = rng(t[3]); sh = tuple(t[2])
        if t[1] == "rec": a = np.zeros(sh, [("x", "f8"), ("name", "S3"), ("k", "i4")]); a["x"] = r.randn(*sh); a["k"] = r.randint(0, 9, sh)
        elif t[1] == "rec2": a = np.zeros(sh, [("a", "c16"), ("v", "f4", (2,))]); a["a"] = r.randn(*sh); a["v"] = r.randn(*(sh + (2,)))
        elif t[1][0] in "US": a = r.randint(0, 999, sh).astype(t[1])
        elif "c" in t[1]: a = (r.randn(*sh) + 1j * r.randn(*sh)); a = np.asarray(a).astype(t[1])
        else: a = np.asarray(100 * r.rand(*sh)).astype(t[1])
        return a.T if t[4] else a
    if k == "label": return mk_label(t[1])
    if k == "circ": return Circuit([mk_layer(l) for l in t[2]], tuple(t[1]))
    if k == "list": return [mk(x) for x in t[1]]
    if k == "tuple": return tuple(mk(x) for x in t[1])
    if k == "set": return set(mk(x) for x in t[1])
    if k == "dict": return {mk(a): mk(b) for a, b in t[1]}
    if k == "odict": return collections.OrderedDict((mk(a), mk(b)) for a, b in t[1])
    if k == "counter": return collections.Counter({mk(a): mk(b) for a, b in t[1]})
    raise ValueError(k)


def same(a, b, path="", circ_exact=True):
    """None if equal in type and value, else where they differ"""
    if type(a) is not type(b): return "%s: type %s became %s" % (path, type(a).__name__, type(b).__name__)
    if isinstance(a, np.ndarray):
        if a.dtype != b.dtype or a.shape != b.shape: return "%s: array %s%s became %s%s" % (path, a.dtype, a.shape, b.dtype, b.shape)
        if a.dtype.kind in "fc": return None if np.array_equal(a, b, equal_nan=True) else path + ": array values"
        return None if a.tobytes() == b.tobytes() else path + ": array values"
    if isinstance(a, np.generic): return None if a.dtype == b.dtype and a.tobytes() == b.tobytes() else "%s: %r became %r" % (path, a, b)
    if isinstance(a, float): return None if a.hex() == b.hex() or (a != a and b != b) else "%s: %r became %r" % (path, a, b)
    if isinstance(a, complex): return same(a.real, b.real, path + ".re") or same(a.imag, b.imag, path + ".im")
    if isinstance(a, Circuit):
        ok = a == b and hash(a) == hash(b) and a.str == b.str and a.line_labels == b.line_labels and tuple(a) == tuple(b) and a._static == b._static
        return None if ok else "%s: circuit %r became %r" % (path, a, b)
    if isinstance(a, Label): return None if a == b and hash(a) == hash(b) and str(a) == str(b) and a.time == b.time and a.args == b.args and a.sslbls == b.sslbls else "%s: label %r became %r" % (path, a, b)
    if isinstance(a, dict):
        if len(a) != len(b): return path + ": number of keys"
        if isinstance(a, collections.OrderedDict) and list(a.keys()) != list(b.keys()): return path + ": key order"
        for k in a:
            kb = [x for x in b if type(x) is type(k) and x == k]   # (a Circuit cannot be compared with e.g. an integer)
            if not kb or k not in b: return "%s: key %r lost" % (path, k)
            kb = kb[0]
            r = same(k, kb, path + ".key") or same(a[k], b[k], "%s[%r]" % (path, k))
            if r: return r
        return None
    if isinstance(a, (list, tuple)):
        if len(a) != len(b): return "%s: length %d became %d" % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            r = same(x, y, "%s[%d]" % (path, i))
            if r: return r
        return None
    return None if a == b else "%s: %r became %r" % (path, a, b)


@facet(st.fixed_dictionaries({"t": tree}), quick=4000, rule="a container, array or circuit")
def containers(case, rec):
    o = mk(case["t"])
    rec.nt(isinstance(o, (list, tuple, set, dict, np.ndarray, Circuit))); rec.note(type(o).__name__)
    for f in ENC:
        o2 = FMT[f](o)
        r = same(o, o2); rec.check(r is None, f, r)
        if f in ENC and not "set" in str(case["t"]): rec.check(ENC[f](o2) == ENC[f](o), f, "encoded again differently")
        if isinstance(o, np.ndarray) and o.size:
            rec.check(o2.flags.writeable and not np.shares_memory(o, o2), f, "decoded array is not writeable or not independent")
    if isinstance(o, (list, dict)):
        import io as _io
        for mod, mode in ((J, "w"), (MP, "wb")):
            d = rec.scratch()
            with open(d + "/x", mode) as fl: mod.dump(o, fl)
            with open(d + "/x", mode.replace("w", "r")) as fl: rec.check(same(o, mod.load(fl)) is None, "dump/load to a file", mod.__name__)


# ------------------------------------------------------------------------------------ models and their members
def probs(m):
    out = []
    ops = [k for k in m.operations] + [k for k in m.instruments]
    cs = [()] + [(a,) for a in ops] + [(a, b) for a, b in zip(ops, ops[1:] + ops[:1])]
    for pl in m.preps:
        for pv in m.povms:
            for c in cs:
                p = m.probs(Circuit((pl,) + c + (pv,), m.state_space_labels.labels[0]))
                out.extend((c, str(k), float(v)) for k, v in p.items())
    return out


def pdiff(a, b, ignore=()):
    if [x[:2] for x in a] != [x[:2] for x in b]: return "different outcomes %s %s" % ([x for x in a if x not in b][:2], [x for x in b if x not in a][:2])
    d = max(abs(x[2] - y[2]) for x, y in zip(a, b))
    return d


def same_model(rec, m, m2, w, tol=1e-12):
    rec.check(type(m) is type(m2), w, "model type", type(m2))
    if hasattr(m, "preps"):
        for dn in ("preps", "povms", "operations", "instruments"):
            a, b = getattr(m, dn), getattr(m2, dn)
            rec.check(list(a.keys()) == list(b.keys()), w, dn, "labels", list(a.keys()), list(b.keys()))
            for k in a:
                rec.check(type(a[k]) is type(b[k]), w, dn, k, "type", type(a[k]).__name__, type(b[k]).__name__)
                rec.check(a[k].num_params() == b[k].num_params() and list(a[k].gpindices_as_array()) == list(b[k].gpindices_as_array()), w, dn, k, "parameter indices", a[k].gpindices, b[k].gpindices)
    rec.check(m.num_params() == m2.num_params() and np.allclose(m.to_vector(), m2.to_vector(), atol=1e-13, rtol=0), w, "parameters", m.num_params(), m2.num_params())
    rec.check(m.state_space_labels.labels == m2.state_space_labels.labels and m.state_space_labels.labeldims == m2.state_space_labels.labeldims, w, "state space labels", m2.state_space_labels)
    rec.check(m.basis == m2.basis and m.basis.name == m2.basis.name, w, "basis")
    rec.check(m.simtype == m2.simtype and m._evotype == m2._evotype, w, "simulation or evolution type")
    rec.check(type(getattr(m, "default_gauge_group", None)) is type(getattr(m2, "default_gauge_group", None)), w, "default gauge group")
    d = pdiff(probs(m), probs(m2)) if hasattr(m, "preps") else 0
    rec.check(not isinstance(d, str) and d < tol, w, "probabilities", d)


def build(spec):
    return M.explicit(spec)


@facet(st.fixed_dictionaries({"spec": explicit_specs(), "fmt": st.sampled_from(["json", "msgpack", "pickle", "deepcopy"]), "gg": st.integers(0, 4), "shift": seeds}), quick=700, rule="a model with parameters", case_s=120)
def models_rt(case, rec):
    m = build(case["spec"]); w = case["fmt"]
    GG = [None, pygsti.objects.TPGaugeGroup(m.dim), pygsti.objects.FullGaugeGroup(m.dim), pygsti.objects.UnitaryGaugeGroup(m.dim, m.basis), pygsti.objects.TPSpamGaugeGroup(m.dim)][case["gg"]]
    m.default_gauge_group = GG
    rec.nt(m.num_params() > 0); rec.note(w, *["op " + o[2] for o in case["spec"]["ops"]])
    before = m.to_vector().copy(); p0 = probs(m)
    m2 = FMT[w](m)
    same_model(rec, m, m2, w)
    if w in ENC and case["shift"] % 4 == 0: same_model(rec, m2, FMT[w](m2), w + " again")   # (equal to rounding: dense forms are recomputed)
    if m.num_params():
        v = before + 0.02 * rng(case["shift"]).randn(len(before))
        m2.from_vector(v)
        rec.check(np.array_equal(m.to_vector(), before) and pdiff(probs(m), p0) < 1e-13, w, "changing the decoded model changed the original")
        m3 = FMT[w](m2)
        m.from_vector(v)
        d = pdiff(probs(m), probs(m2)); rec.check(not isinstance(d, str) and d < 1e-12, w, "the decoded model behaves differently at another parameter vector", d)
        d = pdiff(probs(m), probs(m3)); rec.check(not isinstance(d, str) and d < 1e-12, w, "a model encoded after a parameter change", d)
    # shared parts stay shared
    sh = [k for k, o in m.operations.items() if any(o_[2] == "shared" and Label(o_[0], o_[1]) == k for o_ in case["spec"]["ops"])]
    if len(sh) > 1 and w not in ENC:   # (JSON and MessagePack keep the common parameters, not the identity)
        rec.note("shared")
        rec.check(m2.operations[sh[0]].factorops[1] is m2.operations[sh[1]].factorops[1], w, "operations composed of a common part no longer share it")


@facet(st.fixed_dictionaries({"kind": st.sampled_from(M.OPKINDS), "n": st.sampled_from([1, 1, 2]), "seed": seeds, "fmt": st.sampled_from(["json", "msgpack", "pickle", "deepcopy", "copy"])}), quick=600, rule="an operation with parameters")
def operations_rt(case, rec):
    o = M.mk_op(case["kind"], case["n"], rng(case["seed"]), dense=[None, True, False][case["seed"] % 3]); M.alone(o)
    rec.nt(o.num_params() > 0); rec.note(case["kind"], case["fmt"])
    o2 = o.copy() if case["fmt"] == "copy" else FMT[case["fmt"]](o)
    M.alone(o2)
    rec.check(type(o) is type(o2), "type", type(o2).__name__)
    d0 = np.array(o.todense()); v = o.to_vector().copy()
    rec.check(np.array_equal(v, o2.to_vector()), "parameters")
    rec.check(np.allclose(d0, o2.todense(), atol=1e-12, rtol=0), "matrix", abs(d0 - o2.todense()).max())
    st_ = np.zeros(4**case["n"]); st_[:] = rng(case["seed"]).randn(len(st_))
    sv = pygsti.objects.StaticSPAMVec(st_, "densitymx", "prep")
    rec.check(np.allclose(o2._rep.acton(sv._rep).todense(), d0 @ st_, atol=1e-9), "action of the decoded operation")
    if len(v):
        w = v + 0.03 * rng(case["seed"]).randn(len(v))
        o2.from_vector(w)
        rec.check(np.array_equal(o.to_vector(), v) and np.array_equal(np.array(o.todense()), d0), "changing the decoded operation changed the original")
        o.from_vector(w)
        rec.check(np.allclose(o.todense(), o2.todense(), atol=1e-12, rtol=0), "decoded operation at other parameters")
        rec.check(np.allclose(o2._rep.acton(sv._rep).todense(), np.array(o.todense()) @ st_, atol=1e-9), "action of the decoded operation at other parameters")


@facet(st.fixed_dictionaries({"kind": st.sampled_from([["prep", k] for k in M.PREPKINDS] + [["povm", k] for k in M.POVMKINDS] + [["inst", k] for k in ("tp", "full", "static")]), "n": st.sampled_from([1, 1, 2]), "seed": seeds,
                             "fmt": st.sampled_from(["json", "msgpack", "pickle", "deepcopy", "copy"])}), quick=500, rule="a member with parameters")
def members_rt(case, rec):
    what, kind = case["kind"]
    o = getattr(M, "mk_" + what)(kind, case["n"], rng(case["seed"])); M.alone(o)
    rec.nt(o.num_params() > 0); rec.note(what + " " + kind, case["fmt"])
    o2 = M.alone(o.copy() if case["fmt"] == "copy" else FMT[case["fmt"]](o))
    dense = (lambda x: {"": np.array(x.todense())}) if what == "prep" else (lambda x: {k: np.array(x[k].todense()) for k in x.keys()})
    d0 = dense(o); v = o.to_vector().copy()

    def eq(a, b): return list(a) == list(b) and all(np.allclose(a[k], b[k], atol=1e-12, rtol=0) for k in a)
    rec.check(type(o) is type(o2), "type", type(o2).__name__)
    rec.check(np.allclose(v, o2.to_vector(), atol=1e-13, rtol=0), "parameters")
    rec.check(eq(d0, dense(o2)), "vectors or matrices")
    if len(v):
        w = v + 0.03 * rng(case["seed"]).randn(len(v))
        o2.from_vector(w)
        rec.check(np.array_equal(o.to_vector(), v) and eq(dense(o), d0), "changing the decoded member changed the original")
        o.from_vector(w)
        rec.check(eq(dense(o), dense(o2)), "decoded member at other parameters")


TXTOPS = ["full", "tp", "static", "lindu"]


@facet(st.fixed_dictionaries({"spec": explicit_specs(TXTOPS, prepkinds=["full", "tp", "static", "lind:CPTP"], povmkinds=["full", "tp", "lind:CPTP", "static"]), "gg": st.integers(0, 3)}), quick=300, rule="two operations")
def text_models(case, rec):
    sp = dict(case["spec"])
    sp["lines"] = [l if isinstance(l, str) else l for l in sp["lines"]]
    m = build(sp); m.set_simtype("auto")
    # embedded operations are documented as not representable: written as plain gates
    m.default_gauge_group = [None, pygsti.objects.TPGaugeGroup(m.dim), pygsti.objects.FullGaugeGroup(m.dim), pygsti.objects.UnitaryGaugeGroup(m.dim, m.basis)][case["gg"]]
    rec.nt(len(m.operations) > 1)
    f = os.path.join(rec.scratch(), "m.txt")
    io.write_model(m, f, "title: a model")
    m2 = io.load_model(f)
    rec.check(m2.state_space_labels.labels == m.state_space_labels.labels, "state-space labels", m2.state_space_labels.labels)
    rec.check(m2.basis == m.basis, "basis")
    rec.check(type(m2.default_gauge_group) is type(m.default_gauge_group), "gauge group")
    for dn in ("preps", "povms", "operations", "instruments"):
        a, b = getattr(m, dn), getattr(m2, dn)
        rec.check(sorted(a.keys()) == sorted(b.keys()), dn, "labels", list(a.keys()), list(b.keys()))
        for k in a:
            exact = type(a[k]).__name__ in ("FullDenseOp", "TPDenseOp", "StaticDenseOp", "LindbladDenseOp", "FullSPAMVec", "TPSPAMVec", "StaticSPAMVec", "LindbladSPAMVec", "UnconstrainedPOVM", "TPPOVM", "LindbladPOVM", "Instrument", "TPInstrument")
            if exact: rec.check(type(a[k]) is type(b[k]) and a[k].num_params() == b[k].num_params(), dn, k, "parameterisation", type(a[k]).__name__, a[k].num_params(), type(b[k]).__name__, b[k].num_params())
    d = pdiff(probs(m), probs(m2)); rec.check(not isinstance(d, str) and d < 2e-6, "probabilities", d)
    f2 = os.path.join(rec.scratch(), "m2.txt"); io.write_model(m2, f2, "title: a model"); m3 = io.load_model(f2)
    d = pdiff(probs(m2), probs(m3)); rec.check(not isinstance(d, str) and d < 2e-6, "written again", d)


# ------------------------------------------------------------------------------------ other objects
def attrs(o, skip=()):
    return {k: o.__dict__[k] for k in sorted(o.__dict__) if k not in skip}


def deep(a, b, path="", skip=(), seen=None):
    """None if equal in type and value (attribute by attribute for pyGSTi objects), else where they differ"""
    seen = {} if seen is None else seen
    if id(a) in seen: return None
    if "lax" in skip and isinstance(a, tuple) and isinstance(b, list) and not path.endswith("qubit_labels"): b = tuple(b)   # plain-JSON metadata: tuples are read as lists
    if isinstance(a, (Circuit, Label, np.ndarray, np.generic)) or a is None or isinstance(a, (bool, int, float, complex, str, bytes)): return same(a, b, path)
    seen[id(a)] = a
    if type(a) is not type(b): return "%s: type %s became %s" % (path, type(a).__name__, type(b).__name__)
    if isinstance(a, pygsti.objects.Model): return None if np.array_equal(a.to_vector(), b.to_vector()) and list(a.operations) == list(b.operations) else path + ": model"
    if isinstance(a, DataSet):
        if list(a.keys()) != list(b.keys()): return path + ": data set circuits"
        for c in a:
            if dict(a[c].counts) != dict(b[c].counts) or a[c].aux != b[c].aux: return "%s: data of %s: %s became %s" % (path, c.str, dict(a[c].counts), dict(b[c].counts))
        return None
    if isinstance(a, dict):
        if list(a.keys()) != list(b.keys()): return "%s: keys %s became %s" % (path, list(a.keys()), list(b.keys()))
        for k in a:
            if k in skip: continue
            r = deep(a[k], b[k], "%s[%r]" % (path, k), skip, seen)
            if r: return r
        if hasattr(a, "keyname") and (a.keyname, a.keytype, a.valtype) != (b.keyname, b.keytype, b.valtype): return path + ": NamedDict properties"
        return None
    if isinstance(a, (list, tuple)):
        if len(a) != len(b): return "%s: length %d became %d" % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            r = deep(x, y, "%s[%d]" % (path, i), skip, seen)
            if r: return r
        return None
    if isinstance(a, (set, frozenset, slice, range, uuid.UUID)): return None if a == b else path + ": %r" % (b,)
    if type(a).__module__.startswith("pygsti") and hasattr(a, "__dict__"):
        ka, kb = set(a.__dict__), set(b.__dict__)
        if (ka ^ kb) - set(skip): return "%s: attributes %s" % (path, sorted(ka ^ kb))
        for k in sorted(ka):
            if k in skip: continue
            r = deep(a.__dict__[k], b.__dict__[k], "%s.%s" % (path, k), skip, seen)
            if r: return r
    return None


BASES = [("pp", 1), ("pp", 4), ("pp", 16), ("gm", 4), ("gm", 9), ("std", 4), ("std", 9), ("qt", 9), ("cl", 3), ("sv", 2), ("id", 4), ("gm_unnormalized", 4), ("unknown", 4)]


@facet(st.fixed_dictionaries({"k": st.integers(0, 8), "b": st.integers(0, 10), "seed": seeds, "sparse": st.booleans(), "fmt": st.sampled_from(["json", "msgpack", "pickle", "deepcopy"])}), quick=260, rule="any object", case_s=90)
def others_rt(case, rec):
    from pygsti import objects as po
    r = rng(case["seed"]); k = case["k"]; f = FMT[case["fmt"]]; rec.nt()
    nm, d = BASES[case["b"]]
    if k in (0, 1, 2):
        b = po.BuiltinBasis(nm, d, sparse=case["sparse"] and case["fmt"] not in ENC and nm in ("pp", "gm", "std"))
        if k == 1: b = po.TensorProdBasis([b, po.BuiltinBasis("gm", 4)]) if b.real and not b.sparse else b
        if k == 2: b = po.DirectSumBasis([b, po.BuiltinBasis("pp", 4)]) if b.real and not b.sparse and len(b.elshape) == 2 else b
        if r.randint(2): b.elements  # builds lazily
        rec.note(type(b).__name__)
        b2 = f(b)
        rec.check(type(b2) is type(b) and b2 == b and b == b2 and (b.name, b.longname, b.dim, b.size, b.elshape, b.real, b.sparse) == (b2.name, b2.longname, b2.dim, b2.size, b2.elshape, b2.real, b2.sparse), "basis", b, b2)
        rec.check(list(b.labels) == list(b2.labels), "labels", b2.labels)
        tod = lambda x: x.toarray() if hasattr(x, "toarray") else x
        rec.check(all(np.array_equal(tod(x), tod(y)) for x, y in zip(b.elements, b2.elements)), "elements")
        if not b.sparse: rec.check(hash(b) == hash(b2), "hash")
    elif k == 3:
        els = [r.randn(2, 2) + 1j * r.randn(2, 2) for _ in range(4)]
        b = po.ExplicitBasis(els, labels=["e%d" % i for i in range(4)], name="mine", longname="my basis", real=bool(r.randint(2)))
        b2 = f(b); rec.check(b2 == b and b2.labels == b.labels and b2.real == b.real and b2.name == b.name and all(np.array_equal(x, y) for x, y in zip(b.elements, b2.elements)), "explicit basis")
    elif k == 4:
        labs = [[("Q0", "Q1"), ("L0",)], [(0, 1, 2)], [("a", "b")], [("Q3",)]][r.randint(4)]
        dims = None if labs[0][0] != "a" else [(4, 9)]
        s = po.StateSpaceLabels(labs, dims) if dims else po.StateSpaceLabels(labs)
        s2 = f(s); rec.check(type(s2) is type(s) and s.labels == s2.labels and s.labeldims == s2.labeldims and s.labeltypes == s2.labeltypes and s.dim == s2.dim and s.tpb_index == s2.tpb_index and s.tpb_dims == s2.tpb_dims, "state space labels", s2)
    elif k == 5:
        n = r.randint(2, 6); labs = [["Q%d" % i for i in range(n)], list(range(n))][r.randint(2)]
        names = ["left", "right"] if r.randint(2) else None
        mx = r.randint(0, 3 if names else 2, (n, n)); np.fill_diagonal(mx, 0)
        if not names: mx = np.triu(mx); mx = mx + mx.T
        g = po.QubitGraph(labs, initial_connectivity=mx.astype(bool) if names is None else None, initial_edges=[(labs[i], labs[(i + 1) % n], "left") for i in range(n)] + [(labs[(i + 1) % n], labs[i], "right") for i in range(n)] if names else None, directed=bool(names), direction_names=names)
        g2 = f(g); rec.check(type(g2) is type(g) and g.get_node_names() == g2.get_node_names() and g.edges() == g2.edges() and np.array_equal(g._connectivity, g2._connectivity) and g.directions == g2.directions and g.directed == g2.directed, "graph")
        rec.check(np.array_equal(g.shortest_path_distance_matrix(), g2.shortest_path_distance_matrix()), "distances")
    elif k == 6:
        d = [4, 16][r.randint(2)]
        G = [po.TPGaugeGroup(d), po.FullGaugeGroup(d), po.UnitaryGaugeGroup(d, "pp"), po.DiagGaugeGroup(d), po.TPDiagGaugeGroup(d), po.SpamGaugeGroup(d), po.TPSpamGaugeGroup(d)][r.randint(7)]
        g2 = f(G); v = 0.1 * r.randn(G.num_params()) + G.get_initial_params()
        rec.check(type(g2) is type(G) and g2.num_params() == G.num_params(), "gauge group")
        el = G.get_element(v); e2 = f(el)
        rec.check(type(el) is type(e2) and np.array_equal(el.to_vector(), e2.to_vector()) and np.allclose(el.get_transform_matrix(), e2.get_transform_matrix(), atol=1e-13, rtol=0), "gauge element")
        v = v + 0.1 * r.randn(len(v)); el.from_vector(v); e2.from_vector(v)
        rec.check(np.allclose(el.get_transform_matrix(), e2.get_transform_matrix(), atol=1e-13, rtol=0), "gauge element at other parameters")
    elif k == 7:
        nqb = int(r.randint(1, 3)); labs = ["Q%d" % i for i in range(nqb)]
        ps = po.ProcessorSpec(nqb, ["Gi", "Gxpi2", "Gypi2"] + (["Gcphase"] if nqb > 1 else []), nonstd_gate_unitaries={"Gmine": M.rand_unitary(2, r)} if r.randint(2) else {}, qubit_labels=labs)
        p2 = f(ps); rec.check(type(p2) is type(ps) and p2.qubit_labels == ps.qubit_labels and p2.root_gate_names == ps.root_gate_names and {k_: v for k_, v in p2.availability.items()} == dict(ps.availability.items()), "processor spec")
        rec.check(all(np.array_equal(p2.root_gate_unitaries[g_], ps.root_gate_unitaries[g_]) for g_ in ps.root_gate_unitaries), "gate unitaries")
    elif k == 8:
        gs = [Circuit((("Gx", 0),), (0,)), Circuit((("Gx", 0), ("Gy", 0)), (0,)), Circuit((("Gy", 0),), (0,))]
        fid = [Circuit((), (0,)), gs[0], gs[2]]
        from pygsti.construction import circuitconstruction, stdlists
        prs = None if r.randint(2) else [(i, j) for i in range(3) for j in range(3) if r.randint(2)]
        m = M.explicit({"nq": 1, "lines": [0], "ops": [["Gx", [0], "static"], ["Gy", [0], "static"]], "preps": ["static"], "povms": ["static"], "inst": None, "seed": 1, "eps": 0})
        s = stdlists.make_lsgst_structs(m, fid, fid, gs, [1, 2, 4][:r.randint(1, 4)], prs, nest=bool(r.randint(2)))[-1]
        s2 = f(s)
        rec.check(type(s) is type(s2) and s.allstrs == s2.allstrs and s.Ls == s2.Ls and s.germs == s2.germs, "circuit structure")
        for L in s.Ls:
            for g_ in s.germs:
                p1, p2 = s.get_plaquette(L, g_), s2.get_plaquette(L, g_)
                rec.check(list(p1) == list(p2), "plaquette")


# ------------------------------------------------------------------------------------ directory trees
dcirc = lambda lines: st.lists(layer_of(lines, args=False, time=False, allow_empty=True), max_size=3)


@st.composite
def designs(draw, depth=2, lines=None):
    lines = lines or draw(st.sampled_from([[0], [0, 1], ["Q0", "Q1"], ["Q0"], [2, 5, 7]]))
    k = draw(st.sampled_from(["plain", "lists", "bench", "gst"] + (["combined", "simul", "combined", "simul"] if depth else [])))
    if k == "simul" and len(lines) < 2: k = "lists"
    if k == "gst": lines = lines[:1]
    d = {"k": k, "lines": lines, "seed": draw(seeds)}
    if k in ("lists", "bench"): d["cs"] = [draw(st.lists(dcirc(lines), min_size=1, max_size=3)) for _ in range(draw(st.integers(1, 3)))]; d["nested"] = draw(st.booleans())
    if k == "plain": d["cs"] = draw(st.lists(dcirc(lines), min_size=1, max_size=4))
    if k == "combined": d["subs"] = draw(st.lists(designs(depth - 1, lines if draw(st.booleans()) else None), min_size=1, max_size=3)); d["named"] = draw(st.booleans())
    if k == "simul": d["subs"] = [draw(designs(0, ls)) for ls in ([lines[:1], lines[1:]] if draw(st.booleans()) else [[l] for l in lines])]
    return d


def mk_design(d):
    from pygsti import protocols as pr
    L = tuple(d["lines"]); C = lambda c: Circuit([mk_layer(l) for l in c], L)
    k = d["k"]; r = rng(d["seed"])
    if k == "plain":
        e = pr.ExperimentDesign([C(c) for c in d["cs"]])
        if r.randint(2): e.set_actual_circuits_executed([Circuit(list(c) + [Label("Gi", L[0])], L) for c in e.all_circuits_needing_data])
        if r.randint(2): e.add_default_protocol(pr.rb.RandomizedBenchmarking(name="prot1", depths=[1, 2]))
        return e
    if k == "lists":
        cs = [[C(c) for c in l] for l in d["cs"]]
        if d["nested"]:
            for i in range(1, len(cs)): cs[i] = cs[i - 1] + [c for c in cs[i] if c not in cs[i - 1]]
        return pr.CircuitListsDesign(cs, nested=d["nested"])
    if k == "bench":
        cs = [[C(c) for c in l] for l in d["cs"]]
        return pr.rb.BenchmarkingDesign([2 * i for i in range(len(cs))], cs, [[("".join(map(str, r.randint(0, 2, len(L)))),) if r.randint(2) else ("0" * len(L),) for _ in l] for l in cs], qubit_labels=L)
    if k == "gst":
        m = M.explicit({"nq": 1, "lines": d["lines"], "ops": [["Gx", L, "tp"], ["Gy", L, "static"]], "preps": ["static"], "povms": ["tp"], "inst": None, "seed": d["seed"], "eps": 0.05})
        gs = [Circuit((("Gx",) + L,), L), Circuit((("Gx",) + L, ("Gy",) + L), L)]
        return pr.StandardGSTDesign(m, [Circuit((), L)] + gs[:1], [Circuit((), L)] + gs[:1], gs, [1, 2], germLengthLimits={gs[1]: 1} if r.randint(2) else None, fidPairs=[(0, 1), (1, 1)] if r.randint(2) else None, nest=bool(r.randint(2)), add_default_protocol=bool(r.randint(2)))
    subs = [mk_design(s) for s in d["subs"]]
    if k == "combined": return pr.CombinedExperimentDesign({"part %d" % i: s for i, s in enumerate(subs)} if d["named"] else subs)
    return pr.SimultaneousExperimentDesign(subs)


SKIP = ("_loaded_from", "_vals", "lax")


def same_design(rec, a, b, path=""):
    r = deep(a, b, path, SKIP); rec.check(r is None, "design", r)
    rec.check(list(a.keys()) == list(b.keys()), path, "parts", list(a.keys()), list(b.keys()))
    for k in a.keys(): same_design(rec, a[k], b[k], path + "/" + str(k))


def outs_for(c, r):
    n = len(c.line_labels)
    return {"".join(b): int(r.randint(1, 30) if "1" not in b else r.randint(0, 30)) for b in __import__("itertools").product("01", repeat=n)} if n else {"": 3}


def same_data(rec, a, b, path=""):
    r = deep(a.dataset, b.dataset, path); rec.check(r is None, "data", r)
    q = deep(dict(sorted(a.cache.items())), dict(sorted(b.cache.items())), path); rec.check(q is None, path, "cache", q)
    for k in a.keys(): same_data(rec, a[k], b[k], path + "/" + str(k))


@facet(designs(), quick=250, rule="a design with at least two circuits or with parts", case_s=120)
def designs_rt(case, rec):
    from pygsti import protocols as pr
    e = mk_design(case); d = rec.scratch()
    rec.nt(len(e.all_circuits_needing_data) > 1 or len(e) > 0); rec.note(case["k"])
    e.write(d + "/a")
    e2 = io.load_edesign_from_dir(d + "/a")
    same_design(rec, e, e2)
    for k in e.keys():   # parts are complete directories of their own
        if e._dirs[k]: same_design(rec, e[k], io.load_edesign_from_dir(os.path.join(d, "a", e._dirs[k])), "part %s" % (k,))
    e2.write(d + "/b"); same_design(rec, e2, io.load_edesign_from_dir(d + "/b"), "again")
    for f in ("pickle",):
        rec.check(deep(e, FMT[f](e), "pickle", SKIP) is None, f, deep(e, FMT[f](e), "pickle", SKIP))
    # data, with its cache
    cs = list(dict.fromkeys(e.all_circuits_needing_data))
    r = rng(case["seed"]); ds = DataSet(outcomeLabels=None)
    for c in cs: ds.add_count_dict(c, outs_for(c, r))
    ds.done_adding_data()
    data = pr.ProtocolData(e, ds, {"x": r.randn(3), "sub": {"a": [1, 2.5, "s"], "c": cs[0]}} if r.randint(2) else None)
    made = [k for k in data.keys() if r.randint(3)]
    for k in made: data[k]          # sub-data are created on demand
    data.write(d + "/d")
    data2 = io.load_data_from_dir(d + "/d")
    rec.check(type(data2) is type(data), "type of the data")
    same_design(rec, e, data2.edesign, "design of the data")
    same_data(rec, data, data2)
    for k in made: same_data(rec, data[k], io.load_data_from_dir(os.path.join(d, "d", e._dirs[k])), "part %s" % (k,))
    rec.check(deep(data.dataset, pickle.loads(pickle.dumps(data)).dataset) is None, "pickled data")
    # results (of a simple protocol), if the design allows
    benches = [k for k in data.keys() if isinstance(e[k], pr.rb.BenchmarkingDesign)]
    if isinstance(e, pr.rb.BenchmarkingDesign) or benches:
        rec.note("results")
        P = DummyProtocol("dummy"); top = isinstance(e, pr.rb.BenchmarkingDesign)
        if top: res = pr.ProtocolResultsDir(data, {"dummy": P.run(data)})
        else: res = pr.ProtocolResultsDir(data, {}, {k: pr.ProtocolResultsDir(data[k], {"dummy": P.run(data[k])}) for k in benches})
        res.write(d + "/r")
        res2 = io.load_results_from_dir(d + "/r")
        def cmp(x, y, pth):
            rec.check(list(x.for_protocol) == list(y.for_protocol) and sorted(map(str, x._vals)) == sorted(map(str, y._vals)), pth, "results tree")
            for nm in x.for_protocol:
                a_, b_ = x.for_protocol[nm], y.for_protocol[nm]
                q = deep(attrs(a_, ("data",)), attrs(b_, ("data",)), pth, SKIP); rec.check(q is None, "results", q)
                same_data(rec, a_.data, b_.data, pth)
            for k in x._vals: cmp(x[k], y[k], pth + "/" + str(k))
        cmp(res, res2, "results")
        # what is computed from the loaded data equals what was computed from the original
        k = None if top else benches[0]
        x, y = (data, data2) if top else (data[k], data2[k])
        if any(c not in x.dataset for c in x.edesign.all_circuits_needing_data): return   # two circuits differing by idle layers can be executed as one
        b1, b2 = pr.rb.Benchmark("b").compute_summary_data(x), pr.rb.Benchmark("b").compute_summary_data(y)
        rec.check(all(np.allclose(b1[t][dp], b2[t][dp], equal_nan=True) for t in b1 for dp in b1[t]), "success counts of the loaded data")


from pygsti.protocols import Protocol as _P, ProtocolResults as _PR


class DummyProtocol(_P):
    def __init__(self, name="dummy"):
        super().__init__(name); self.setting = 3.5; self.names = ["a", "b"]

    def run(self, data, memlimit=None, comm=None):
        return DummyResults(data, self, {"counts": [float(data.dataset[c].total) for c in data.edesign.all_circuits_needing_data if c in data.dataset]})


class DummyResults(_PR):
    def __init__(self, data, prot, vals):
        super().__init__(data, prot)
        self.vals = vals; self.arr = np.arange(4.) + 1j; self.note = "text"; self.nothing = None; self.jj = {"x": [1, 2, {"y": None}]}
        self.auxfile_types["arr"] = "pickle"; self.auxfile_types["jj"] = "json"
