"""C02: editing a circuit acts like editing a table of layers by lines."""
TECH = "Hypothesis stateful/model-based testing: generated edit histories run on Circuit and on a plain list-of-layers reference table, compared after every edit"
NOTE = "Generated-input search over edit histories (<= 14 edits, <= 6 lines, <= ~12 layers) against the reference table in vt/props/c02.py; sub-circuit boxes are only edited whole."
import pickle, copy
from hypothesis import strategies as st
from vt import facet
from vt.gen import *
from pygsti.objects import Circuit, Label


def lk(l):
    return (l.name, l.sslbls, tuple(l.args), round(float(l.time), 9))


def sk(s):
    return (s["n"], None if s["s"] is None else tuple(s["s"]), tuple(s["a"]), round(float(s["t"]), 9))


class Reject(Exception):
    pass


class Table:
    """lines: list of labels; layers: list of lists of label specs (dicts n,s,a,t)."""

    def __init__(self, lines, layers):
        self.lines, self.layers = list(lines), [list(l) for l in layers]

    def copy(self): return Table(self.lines, self.layers)

    def on(self, s): return set(self.lines) if s["s"] is None else set(s["s"])

    def key(self): return [sorted(map(sk, l), key=repr) for l in self.layers]

    # queries
    def size(self): return sum(len(self.on(s)) for l in self.layers for s in l)

    def count(self, f): return sum(1 for l in self.layers for s in l if s["s"] is not None and f(len(s["s"])))

    def idle_lines(self, ignore=()):
        keep = [s for l in self.layers for s in l if not (s["s"] is None and s["n"] in ignore and not s["a"])]
        if any(s["s"] is None for s in keep): return []
        used = set(x for s in keep for x in s["s"])
        return [l for l in self.lines if l not in used]

    def region(self, layers, lines, strict):
        L = set(lines)
        return [[s for s in self.layers[i] if (self.on(s) <= L if strict else self.on(s) & L)] for i in layers]

    # edits
    def clear(self, layers, lines, straddlers):
        L = set(lines)
        if not straddlers:
            for i in layers:
                for s in self.layers[i]:
                    if self.on(s) & L and not self.on(s) <= L: raise Reject()
        for i in layers: self.layers[i] = [s for s in self.layers[i] if not self.on(s) & L]

    def set(self, layers, lines, lbls, allow_new):
        new = [l for l in sorted(set(x for lay in lbls for s in lay for x in (s["s"] or ()))) if l not in self.lines]
        if new and not allow_new: raise Reject()
        if lines is not None:
            for lay in lbls:
                for s in lay:
                    if s["s"] is not None and not set(s["s"]) <= set(lines): raise Reject()
        t = self.copy()
        if lines is None: t.lines = t.lines + new
        t.clear(layers, t.lines if lines is None else lines, False)
        for i, lay in zip(layers, lbls):
            t.layers[i] = t.layers[i] + [dict(s, s=list(lines)) if s["s"] is None and lines is not None else s for s in lay]
        self.lines, self.layers = t.lines, t.layers

    def shift(self, at, n, lines):
        if lines is None:
            self.layers[at:at] = [[] for _ in range(n)]; return
        L = set(lines)
        if n == 0: return
        for lay in self.layers[at:]:
            for s in lay:
                if self.on(s) & L and not self.on(s) <= L: raise Reject()
        old = self.layers
        new = [[] for _ in range(len(old) + n)]
        for i, lay in enumerate(old):
            for s in lay: new[i + n if (i >= at and self.on(s) & L) else i].append(s)
        self.layers = new


LINES = [[0, 1, 2, 3], ["Q0", "Q1", "Q2"], [0, 1], ["a", "b_1", "Q9"], [5, 2, 9]]
EXTRA = {int: [20, 21, 22], str: ["x0", "x1", "x2"]}
IX = st.integers(0, 11)


OPS = ["get", "get", "set", "set", "setl", "setint", "idle_layers", "idle_layers_part", "ins", "ins_part", "idle_lines",
       "as_lines", "clear", "clear_all", "del_layers", "del_lines", "del_idle_lines", "repl_idle", "ins_layer", "ins_circ",
       "append", "prefix", "tensor", "repl_layer_circ", "repl_name", "map_names", "map_lines", "reorder", "reverse",
       "del_idle_layers", "repl_layer", "alias", "add", "mul", "copy", "static", "setlines", "box"]
# an operation: kind, i, j, m, flags (b, c), line choices, layer choices, pool choices
RAWOP = st.tuples(st.sampled_from(OPS), IX, IX, st.integers(0, 3), st.integers(0, 3), st.lists(st.integers(0, 4), min_size=1, max_size=4),
                  st.lists(IX, min_size=1, max_size=4), st.lists(st.integers(0, 6), min_size=1, max_size=3))


def unpack(r, lines, extra, pool):
    k, i, j, m, fl, ln, ly, pl = r
    allowed = lines + extra[:1]
    ls = []
    for x in ln:
        l = allowed[x % len(allowed)]
        if l not in ls: ls.append(l)
    return {"k": k, "i": i, "j": j, "m": m, "b": bool(fl & 1), "c": bool(fl & 2), "lines": ls, "layers": ly,
            "lays": [pool[x % len(pool)] for x in pl]}


@st.composite
def lay(draw, lines, extra):
    r = draw(st.integers(0, 9))
    if r == 0: return [draw(simple_label(lines).map(lambda l: dict(l, s=None)))]
    pool = lines + (extra[:2] if r == 1 else [])
    return draw(layer_of(pool, max_lines=draw(st.sampled_from([2, 2, 3]))))


@st.composite
def history(draw):
    lines = draw(st.sampled_from(LINES))
    extra = EXTRA[type(lines[0])]
    return {"lines": lines, "pool": draw(st.lists(lay(lines, extra), min_size=2, max_size=6)),
            "init": draw(st.lists(st.integers(0, 6), max_size=5)), "ops": draw(st.lists(RAWOP, min_size=1, max_size=14))}


def mkc(t, editable=True):
    return Circuit([mk_layer(l) for l in t.layers], tuple(t.lines), editable=editable)


def layers_of(c):
    return [sorted([lk(x) for x in l.components], key=repr) for l in c.layertup]


def same(rec, c, t, what):
    rec.check(tuple(c.line_labels) == tuple(t.lines), what, "lines", c.line_labels, t.lines)
    rec.check(layers_of(c) == t.key(), what, "layers", layers_of(c), t.key())


def queries(rec, c, t, what):
    n = len(t.layers)
    rec.check(len(c) == c.num_layers() == c.depth() == n, what, "depth")
    rec.check(c.width() == c.number_of_lines() == len(t.lines), what, "width")
    rec.check(c.size() == t.size(), what, "size", c.size(), t.size())
    for k in (1, 2, 3): rec.check(c.nQgate_count(k) == t.count(lambda x: x == k), what, "nQgate_count", k)
    rec.check(c.twoQgate_count() == t.count(lambda x: x == 2), what, "twoQ")
    rec.check(c.multiQgate_count() == t.count(lambda x: x >= 2), what, "multiQ")
    idle = t.idle_lines()
    rec.check(list(c.get_idling_lines()) == idle, what, "idling lines", c.get_idling_lines(), idle)
    for l in t.lines: rec.check(c.is_line_idling(l) == (l in idle), what, "is_line_idling", l)
    for j in range(n if t.lines else 0):
        rec.check(sorted(map(lk, c.get_layer(j)), key=repr) == t.key()[j], what, "get_layer", j)
        used = set().union(*[t.on(s) for s in t.layers[j]]) if t.layers[j] else set()
        want = sorted([sk(s) for s in t.layers[j]] + [("Gid", (l,), (), 0.0) for l in t.lines if l not in used], key=repr)
        rec.check(sorted(map(lk, c.get_layer_with_idles(j, "Gid")), key=repr) == want, what, "with idles", j)
    for j in (-1, n) if t.lines else ():
        try: c.get_layer_label(j)
        except AssertionError: continue
        rec.check(False, what, "layer out of range accepted", j)


@facet(history, quick=5000, case_s=30, rule="at least four accepted edits of which one changes the table")
def edits(case, rec):
    lines = case["lines"]
    ext = EXTRA[type(lines[0])]
    pool = case["pool"]
    inside = [l for l in pool if all(x in lines for s in l for x in (s["s"] or ()))]
    t = Table(lines, [inside[x % len(inside)] for x in case["init"]] if inside else []); c = mkc(t)
    accepted = changed = 0
    frozen = []      # static circuits with the table they must keep
    for raw in case["ops"]:
        o = unpack(raw, lines, ext, pool)
        t0 = t.copy(); key0 = (t.lines, t.key())
        try:
            c = step(o, c, t, rec, lines, ext, frozen)
            accepted += 1
            rec.note(o["k"])
            same(rec, c, t, o["k"])
            changed += key0 != (t.lines, t.key())
        except Reject:
            t = t0; c = mkc(t)      # (a refused edit may leave a partial change: continue from the table)
            rec.note(o["k"] + " refused")
        if len(t.layers) > 14 or len(t.lines) > 8 or not t.lines: break
    queries(rec, c, t, "final")
    for f, ft in frozen:
        same(rec, f, ft, "static/copy is independent"); queries(rec, f, ft, "static")
    rec.nt(accepted >= 4 and changed >= 1)


def refused(rec, f, what):
    try: f()
    except (ValueError, AssertionError, IndexError): raise Reject()
    rec.check(False, what, "accepted, should be refused")


def both(rec, t, ft, fc, what):
    """run the table edit; if it refuses, the circuit must refuse; else run the circuit edit"""
    try: ft()
    except Reject:
        refused(rec, fc, what)
    fc()


def step(o, c, t, rec, lines, ext, frozen):
    k, n = o["k"], len(t.layers)
    i, j, m = o["i"] % (n + 1), o["j"] % (n + 1), o["m"]
    lays = o["lays"]
    sub = [l for l in o["lines"] if l in t.lines]
    lst = sorted(set(x % n for x in o["layers"])) if n else []
    if o["b"]: lst = lst[::-1]
    lb = lambda ls: [mk_layer(l) for l in ls]
    if k == "get":
        if not n or not sub: raise Reject()
        lo, hi = min(i, j), max(i, j)
        if o["m"] == 0 and lo < hi:
            keys = (slice(lo, hi), list(range(lo, hi)))
        elif o["m"] == 1 and i < n:
            l = c[i]; rec.check(sorted(map(lk, l.components), key=repr) == t.key()[i], "c[i]")
            l = c[i, sub]; w = t.region([i], sub, True)[0]
            rec.check(sorted(map(lk, l.components), key=repr) == sorted(map(sk, w), key=repr), "c[i,lines]", l, w)
            l = c[i - n]; rec.check(sorted(map(lk, l.components), key=repr) == t.key()[i], "c[-i]")
            return c
        elif o["m"] == 2 and lo < hi:
            keys = (slice(lo, hi, 2), list(range(lo, hi, 2)))
        else: keys = (lst, lst)
        full = Table(t.lines, t.region(keys[1], t.lines, True))
        for r in (c[keys[0]], c.get_labels(layers=keys[0]), c.get_labels(keys[0], None, strict=False)):
            if r.line_labels == tuple(t.lines): same(rec, r, full, "c[layers]")
            else: rec.check(layers_of(r) == full.key() and set(r.line_labels) <= set(t.lines) | {"*"}, "c[layers] not strict")
        r = c[keys[0], sub]
        same(rec, r, Table(sub, t.region(keys[1], sub, True)), "c[layers,lines]")
        r = c.get_labels(keys[0], sub, strict=False)
        rec.check(layers_of(r) == Table(t.lines, t.region(keys[1], sub, False)).key(), "get_labels(strict=False)", r.str, sub)
        r = c[None, sub[0]]
        same(rec, r, Table(sub[:1], t.region(range(n), sub[:1], True)), "c[None,line]")
    elif k in ("set", "setl"):
        if not lst: raise Reject()
        if k == "set":
            hi = min(n, i + len(lays))
            if hi <= i: raise Reject()
            keyl, ids = slice(i, hi), list(range(i, hi))
            if o["c"] and len(ids) != len(lays):
                refused(rec, lambda: c.__setitem__(keyl, lb(lays)), "block of wrong width")
        else: keyl = ids = lst
        use = (lays * 4)[:len(ids)]
        if o["b"]: both(rec, t, lambda: t.set(ids, None, use, True), lambda: c.__setitem__(keyl, lb(use)), "c[layers]=")
        else:
            if not sub: raise Reject()
            both(rec, t, lambda: t.set(ids, sub, use, False), lambda: c.__setitem__((keyl, sub), lb(use)), "c[layers,lines]=")
    elif k == "setint":
        if i >= n: raise Reject()
        lbl = mk_layer(lays[0])
        if o["b"]: both(rec, t, lambda: t.set([i], None, lays[:1], True), lambda: c.__setitem__(i if o["c"] else i - n, lbl), "c[i]=")
        else:
            if not sub: raise Reject()
            both(rec, t, lambda: t.set([i], sub, lays[:1], False), lambda: c.__setitem__((i, sub), lbl), "c[i,lines]=")
    elif k == "box":
        # put a circuit in one layer as a sub-circuit, then expand it in place
        if i >= n or not sub: raise Reject()
        inner = [[s for s in l if s["s"] is not None and set(s["s"]) <= set(sub)] for l in lays]
        if any(s for s in t.layers[i] if t.on(s) & set(sub)): raise Reject()
        ic = Circuit(lb(inner), tuple(sub))
        if o["c"]: ic = ic.copy(editable=True); ic.done_editing()
        c[i, sub] = ic
        rec.check(c.depth() == n - 1 + len(inner) and len(c) == n, "depth of boxed circuit")
        rec.check(c.size() >= 0, "size")
        c.expand_subcircuits()
        t.layers[i:i + 1] = [t.layers[i]] + [[] for _ in inner[1:]]
        for q, l in enumerate(inner): t.layers[i + q] = t.layers[i + q] + l
    elif k == "idle_layers":
        at = None if (o["b"] and i == n) else (i - n if o["c"] and i < n else i)
        t.shift(i, m, None); c.insert_idling_layers(at, m)
    elif k == "idle_layers_part":
        if not sub: raise Reject()
        both(rec, t, lambda: t.shift(i, m, sub), lambda: c.insert_idling_layers(None if o["b"] and i == n else i, m, sub), "insert partial idling layers")
    elif k == "ins":
        at = None if (o["b"] and i == n) else (i - n if o["c"] and i < n else i)

        def f():
            t.shift(i, len(lays), None); t.set(list(range(i, i + len(lays))), None, lays, True)
        both(rec, t, f, lambda: c.insert_labels_into_layers(lb(lays), at), "insert layers")
    elif k == "ins_part":
        if not sub: raise Reject()
        use = [[s for s in l if s["s"] is None or set(s["s"]) <= set(sub)] for l in lays]

        def f():
            t.shift(i, len(use), sub); t.set(list(range(i, i + len(use))), sub, use, False)
        both(rec, t, f, lambda: c.insert_labels_into_layers(lb(use), i, sub), "insert partial layers")
    elif k == "idle_lines":
        new = [e for e in ext[:m] if e not in t.lines]
        if o["b"] and t.lines:
            at = o["j"] % len(t.lines); c.insert_idling_lines(t.lines[at], new); t.lines[at:at] = new
        else: c.append_idling_lines(new); t.lines += new
    elif k in ("as_lines", "tensor") and any(s["s"] is None for l in t.layers for s in l):
        raise Reject()      # (a global gate would come to act on the new lines)
    elif k == "as_lines":
        used = ext[:2]
        use = [[dict(s, s=used[:len(s["s"])] if len(s["s"]) < 3 else used) for s in l if s["s"]][:1] for l in lays]
        if set(used) & set(t.lines):
            refused(rec, lambda: c.insert_labels_as_lines(lb(use), None, None, used), "existing line inserted")
        at = None if o["b"] else i
        before = None if o["c"] else t.lines[o["j"] % len(t.lines)] if t.lines else None
        src = Circuit(lb(use), tuple(used)) if m % 2 else lb(use)
        c.insert_labels_as_lines(src, at, before, "auto" if m == 3 else used)
        q = len(t.lines) if before is None else t.lines.index(before)
        t.lines[q:q] = used
        a = at or 0
        while len(t.layers) < a + len(use): t.layers.append([])
        for x, l in enumerate(use): t.layers[a + x] = t.layers[a + x] + l
    elif k == "clear":
        if not lst or not sub: raise Reject()
        both(rec, t, lambda: t.clear(lst, sub, o["b"]), lambda: c.clear_labels(lst, sub, o["b"]), "clear")
    elif k == "clear_all":
        if o["b"]: c.clear(); t.layers = []
        else: c.clear_labels(); t.layers = [[] for _ in t.layers]
    elif k == "del_layers":
        if not lst: raise Reject()
        if o["c"]: del c[lst]
        elif o["b"]: c.delete_layers(slice(min(lst), max(lst) + 1)); lst = list(range(min(lst), max(lst) + 1))
        else: lst = lst[:1]; del c[lst[0]]
        t.layers = [l for q, l in enumerate(t.layers) if q not in lst]
    elif k == "del_lines":
        if not sub or any(s["s"] is None for l in t.layers for s in l): raise Reject()
        strad = any(t.on(s) & set(sub) and not t.on(s) <= set(sub) for l in t.layers for s in l)
        if o["b"]:
            c.delete_lines(sub, delete_straddlers=True)
        elif o["c"]: del c[None, sub]
        elif strad: refused(rec, lambda: c.delete_lines(sub), "delete straddled line")
        else: c.delete_lines(sub if m else sub)
        t.layers = [[s for s in l if not t.on(s) & set(sub)] for l in t.layers]
        t.lines = [l for l in t.lines if l not in sub]
    elif k == "del_idle_lines":
        # (idle global gates may be named to be ignored)
        ign = ()
        if o["b"]:
            g = [s["n"] for l in t.layers for s in l if s["s"] is None and not s["a"] and len(l) == 1]
            ign = tuple(g)
        idle = t.idle_lines(ign)
        st_c = c.copy(editable=False) if m == 0 else c
        r = st_c.get_idling_lines([Label(x) for x in ign] or None)
        rec.check(list(r) == idle, "get_idling_lines", r, idle, ign)
        if m == 0: c = st_c
        c.delete_idling_lines([Label(x) for x in ign] or None)
        t.lines = [l for l in t.lines if l not in idle]
        if m == 0:
            same(rec, c, t, "idle lines of a static circuit"); rec.check(Circuit(None, stringrep=c.str) == c if c.line_labels else True, "text after deleting lines", c.str)
            c = c.copy(editable=True)
    elif k == "repl_idle":
        if not sub: raise Reject()
        both(rec, t, lambda: t.clear(range(n), sub[:1], o["b"]), lambda: c.replace_with_idling_line(sub[0], o["b"]), "replace_with_idling_line")
    elif k == "ins_layer":
        def f():
            t.shift(i, 1, None); t.set([i], None, lays[:1], True)
        if not t.lines: raise Reject()
        both(rec, t, f, lambda: c.insert_layer(mk_layer(lays[0]), i), "insert_layer")
    elif k in ("ins_circ", "append", "prefix"):
        ll = list(t.lines) if not o["b"] else list(reversed(t.lines))
        if o["c"]: ll = ll + [e for e in ext[:1] if e not in ll]
        use = [[s for s in l if s["s"] is None or set(s["s"]) <= set(ll)] for l in lays]
        if not ll: raise Reject()
        other = Circuit(lb(use), tuple(ll), editable=(m % 2 == 1))
        busy = any(s["s"] is None for l in use for s in l) or any(x not in t.lines for l in use for s in l for x in s["s"])
        at = {"ins_circ": i, "append": n, "prefix": 0}[k]
        f = {"ins_circ": lambda: c.insert_circuit(other, i), "append": lambda: c.append_circuit(other), "prefix": lambda: c.prefix_circuit(other)}[k]
        if busy and len(ll) > len(t.lines): refused(rec, f, "circuit on foreign lines")
        f()
        t.layers[at:at] = [list(l) for l in use]
        same(rec, other, Table(ll, use), "inserted circuit unchanged")
    elif k == "tensor":
        new = ext[1:3]
        use = [[dict(s, s=new[:len(s["s"])] if len(s["s"]) < 3 else new) for s in l if s["s"]][:1] for l in lays]
        other = Circuit(lb(use), tuple(new), editable=(m % 2 == 1))
        if set(new) & set(t.lines): refused(rec, lambda: c.tensor_circuit(other), "overlapping tensor")
        if o["b"]:
            order = (new + t.lines)[::-1]
            if o["c"]:
                bad = [order[:-1], order + ["zz"], order + order[:1]][m % 3]
                refused(rec, lambda: c.tensor_circuit(other, bad), "bad line order")
            c.tensor_circuit(other, order if m else tuple(order)); t.lines = order
        else: c.tensor_circuit(other); t.lines = t.lines + new
        while len(t.layers) < len(use): t.layers.append([])
        for x, l in enumerate(use): t.layers[x] = t.layers[x] + l
    elif k == "repl_layer_circ":
        if i >= n: raise Reject()
        use = [[s for s in l if s["s"] is None or set(s["s"]) <= set(t.lines)] for l in lays]
        c.replace_layer_with_circuit(Circuit(lb(use), tuple(t.lines)), i)
        t.layers[i:i + 1] = use
    elif k in ("repl_name", "map_names"):
        names = sorted(set(s["n"] for l in t.layers for s in l)) or ["Gx"]
        old, new = names[o["j"] % len(names)], "Gnew%d" % m
        mp = {old: new}
        if k == "map_names" and len(names) > 1: mp = dict(zip(names, names[1:] + names[:1]))
        if k == "map_names": c.map_names_inplace(mp if o["b"] else (lambda x: mp.get(x, None)))
        elif o["b"]: c.replace_gatename_inplace(old, new)
        else:
            src = c if o["c"] else c.copy(editable=False)
            r = src.replace_gatename(old, new); same(rec, src, t, "source of replace_gatename"); c = r.copy(editable=True)
        t.layers = [[dict(s, n=mp.get(s["n"], s["n"])) for s in l] for l in t.layers]
    elif k == "map_lines":
        if not t.lines: raise Reject()
        ch = t.lines[1:] + t.lines[:1] if o["c"] else [("y%d" % q if isinstance(lines[0], str) else 30 + q) for q in range(len(t.lines))]
        mp = dict(zip(t.lines, ch))
        f = mp if m % 2 else (lambda x: mp[x])
        if o["b"]: c.map_state_space_labels_inplace(f)
        else:
            src = c if m > 1 else c.copy(editable=False)
            r = src.map_state_space_labels(f); same(rec, src, t, "source of map_state_space_labels"); c = r.copy(editable=True)
        t.lines = ch
        t.layers = [[dict(s, s=None if s["s"] is None else [mp[x] for x in s["s"]]) for s in l] for l in t.layers]
        if not o["c"]:    # map back so that later edits refer to known lines
            inv = {v: q for q, v in mp.items()}
            c.map_state_space_labels_inplace(inv)
            t.lines = [inv[x] for x in t.lines]
            t.layers = [[dict(s, s=None if s["s"] is None else [inv[x] for x in s["s"]]) for s in l] for l in t.layers]
    elif k == "reorder":
        new = sorted(t.lines, key=lambda x: hash((str(x), o["j"])))
        c.reorder_lines(new); t.lines = list(new)
    elif k == "reverse":
        c.reverse(); t.layers.reverse()
    elif k == "del_idle_layers":
        r = c.delete_idle_layers(); rec.check(r == any(not l for l in t.layers), "return value"); t.layers = [l for l in t.layers if l]
    elif k == "repl_layer":
        if i >= n: raise Reject()
        new = [s for s in lays[0] if s["s"] is None or set(s["s"]) <= set(t.lines)]
        src = c if o["b"] else c.copy(editable=False)
        old = src.layertup[i]
        r = src.replace_layer(old, mk_layer(new))
        hit = [l == old for l in src.layertup]
        same(rec, src, t, "source of replace_layer")
        c = r.copy(editable=True)
        t.layers = [list(new) if h else l for h, l in zip(hit, t.layers)]
    elif k == "alias":
        if i >= n: raise Reject()
        use = [[s for s in l if s["s"] is None or set(s["s"]) <= set(t.lines)] for l in lays]
        src = c if o["b"] else c.copy(editable=False)
        old = src.layertup[i]
        al = Circuit(lb(use), tuple(t.lines))
        if old in al.layertup: raise Reject()
        r = src.replace_layers_with_aliases({old: al})
        same(rec, src, t, "source of replace_layers_with_aliases")
        hit = [l == old for l in src.layertup]
        c = r.copy(editable=True)
        t.layers = sum([([list(x) for x in use] if h else [l]) for h, l in zip(hit, t.layers)], [])
    elif k == "add":
        ll = sorted(set(x for l in lays for s in l for x in (s["s"] or ()))) or list(t.lines)
        if not t.lines or not ll: raise Reject()
        a = c.copy(editable=False) if o["b"] else c
        b = Circuit(lb(lays), tuple(ll), editable=(m % 2 == 1))
        r = a + b
        same(rec, a, t, "left of +"); same(rec, b, Table(ll, lays), "right of +")
        t.lines = t.lines + [x for x in ll if x not in t.lines]; t.layers = t.layers + [list(l) for l in lays]
        same(rec, r, t, "+")
        rec.check(Circuit(None, stringrep=r.str).layertup == r.layertup, "text of sum", r.str)
        c = r.copy(editable=True)
    elif k == "mul":
        if n * m > 14 or not t.lines: raise Reject()
        a = c.copy(editable=False) if o["b"] else c
        rs = [a * m, a ** m, a.repeat(m)]
        same(rec, a, t, "repeated circuit")
        t.layers = [list(l) for _ in range(m) for l in t.layers]
        for r in rs:
            same(rec, r, t, "repeat"); rec.check(Circuit(None, stringrep=r.str).layertup == r.layertup, "text of power", r.str)
        c = rs[0].copy(editable=True)
    elif k == "setlines":
        new = list(t.lines) + [e for e in ext[:m] if e not in t.lines]
        if o["b"]: new = new[::-1]
        src = c if o["c"] else c.copy(editable=False)
        src.line_labels = tuple(new)
        t.lines = new
        same(rec, src, t, "line_labels=")
        rec.check(Circuit(None, stringrep=src.str).line_labels == tuple(new) if new else True, "text after line_labels=", src.str)
        c = src if o["c"] else src.copy(editable=True)
    elif k == "copy":
        d = c.copy()
        (frozen.append((c, t.copy())) if o["b"] else frozen.append((d, t.copy())))
        c = d if o["b"] else c
        if o["c"]: frozen.append((copy.deepcopy(c), t.copy()))
    elif k == "static":
        s = c.copy(); s.done_editing()
        e = c.copy(editable=False)
        h = hash(s)
        rec.check(s == e and hash(e) == h and {s: 1}[e] == 1, "equal and hash alike")
        rec.check(Circuit([mk_layer(l) for l in t.layers], tuple(t.lines)).line_labels == s.line_labels, "same lines")
        p = pickle.loads(pickle.dumps(s)); rec.check(p == s and hash(p) == h, "pickle")
        if t.lines:
            q = Circuit(None, stringrep=s.str); rec.check(q == s and hash(q) == h, "text", s.str)
        frozen.append((s, t.copy()))
        fs = [lambda: s.clear(), lambda: s.insert_idling_layers(0, 1), lambda: s.insert_labels_into_layers([Label("Gx")], 0),
              lambda: s.clear_labels([0] if n else None), lambda: s.delete_layers([0]), lambda: s.delete_lines(t.lines[:1]), lambda: s.reverse(),
              lambda: s.__setitem__(0, "Gx"), lambda: s.__delitem__(0), lambda: s.insert_layer(Label("Gx"), 0), lambda: s.append_circuit(e),
              lambda: s.prefix_circuit(e), lambda: s.insert_circuit(e, 0), lambda: s.tensor_circuit(Circuit(("Gx:zz9",))),
              lambda: s.replace_gatename_inplace("Gx", "Gy"), lambda: s.map_names_inplace({"Gx": "Gy"}), lambda: s.map_state_space_labels_inplace({l: l for l in t.lines}),
              lambda: s.delete_idle_layers(), lambda: s.compress_depth(), lambda: s.expand_subcircuits(), lambda: s.factorize_repetitions(),
              lambda: s.replace_layer_with_circuit(e, 0), lambda: s.change_gate_library({}), lambda: s.combine_oneQgates({}), lambda: s.shift_gates_forward(),
              lambda: s.append_idling_layers(1), lambda: s.set_labels([Label("Gx")], (0,)), lambda: setattr(s, "str", s.str)]
        for q, f in enumerate(fs):
            try: f()
            except Exception: pass
            else: rec.check(n == 0 and q in (3,), "static circuit accepted edit number", q)
        rec.check(hash(s) == h and s == e, "unchanged by refused edits")
        # the iterable and item views of a static circuit
        rec.check([lk(x) for l in s for x in l.components] == [lk(x) for l in s.layertup for x in l.components], "iteration")
        for l in s.layertup: rec.check(l in s, "contains")
    else: raise AssertionError(k)
    return c


# ------------------------------------------------------------------------------------------------ equality and hashing
@st.composite
def eq_case(draw):
    lines = draw(st.sampled_from(LINES))
    ls = [draw(st.lists(lay(lines, []), min_size=0, max_size=3)) for _ in range(2)]
    perm = draw(st.permutations(lines))
    return {"lines": lines, "a": ls[0], "b": draw(st.sampled_from([ls[1], ls[0], ls[0]])), "perm": list(perm),
            "how": draw(st.sampled_from(["same", "lines", "arg", "name", "drop", "plus"])), "i": draw(IX)}


@st.composite
def short_history(draw):
    """One or two edits (of uniformly chosen kinds) of a circuit of wide gates"""
    lines = draw(st.sampled_from([l for l in LINES if len(l) > 2]))
    return {"lines": lines, "pool": draw(st.lists(layer_of(lines, max_lines=4, fill=5), min_size=2, max_size=4)), "init": draw(st.lists(st.integers(0, 6), min_size=1, max_size=3)),
            "ops": [[draw(st.sampled_from(sorted(set(OPS))))] + list(draw(RAWOP))[1:] for _ in range(draw(st.integers(1, 2)))]}


@facet(short_history, quick=3500, case_s=30, rule="an accepted edit of a circuit with gates on three or more lines")
def wide_edits(case, rec):
    edits(case, rec)
    rec.nontrivial = False
    rec.nt(any(len(s["s"]) > 2 for l in case["pool"] for s in l))


@facet(eq_case, quick=2500, rule="the two circuits have at least one layer")
def equality(case, rec):
    a, b, lines = case["a"], [list(l) for l in case["b"]], case["lines"]
    la = lb_ = list(lines)
    how = case["how"]
    if how == "lines": lb_ = case["perm"]
    if b:
        i = case["i"] % len(b)
        if how == "plus": b = b[:i] + [[]] + b[i:]
        elif how == "drop": b = b[:i] + b[i + 1:]
        elif how in ("arg", "name") and b[i]:
            s = dict(b[i][0]); s.update({"a": s["a"] + ["7"]} if how == "arg" else {"n": s["n"] + "q"}); b[i] = [s] + b[i][1:]
    A = Circuit([mk_layer(l) for l in a], tuple(la)); B = Circuit([mk_layer(l) for l in b], tuple(lb_))
    k = lambda ls: [[sk(s)[:3] for s in l] for l in ls]
    eq = k(a) == k(b) and la == lb_
    rec.nt(bool(a and b)); rec.note("equal" if eq else "unequal", how)
    rec.check((A == B) == eq and (B == A) == eq and (A != B) == (not eq), "equality", A.str, B.str)
    d = {A: "A"}
    rec.check((B in d) == eq, "dictionary look-up", A.str, B.str)
    if eq: rec.check(hash(A) == hash(B), "hash")
    rec.check(A == A.tup and A == tuple(A.tup), "tuple comparison")
    rec.check(not (A == None), "None")
    rec.check(len(set([A, B, A.copy()])) == (1 if eq else 2), "set")
