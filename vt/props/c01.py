"""C01: circuit and label text round-trips and means what the grammar says."""
TECH = "Hypothesis: grammar-based generation of labels, circuits and circuit text against a reference meaning; round trips; differential test of the two parsers; mutated malformed text"
NOTE = "Generated-input search: no counterexample among the labels, circuits (nesting depth <= 3, lines <= 4) and strings generated; trusts the reference recogniser and meaning function in vt/props/c01.py."
import copy, pickle, re
from hypothesis import strategies as st
from vt import facet
from vt.gen import *
from pygsti.objects import Circuit, Label
from pygsti.objects.label import CircuitLabel, LabelTupTup
from pygsti.io.circuitparser import CircuitParser, fastcircuitparser, slowcircuitparser


def lkey(l):
    """Everything observable of a label, recursively."""
    if isinstance(l, CircuitLabel):
        return ("circ", l.name, l.sslbls and tuple(l.sslbls), l.reps, float(l.time), tuple(lkey(x) for x in l.components))
    if not l.issimple():
        return ("par", float(l.time), tuple(lkey(x) for x in l.components))
    return ("simple", l.name, l.sslbls, tuple(l.args), round(float(l.time), 9))


def skey(spec):
    return ("simple", spec["n"], None if spec["s"] is None else tuple(spec["s"]), tuple(spec["a"]), round(float(spec["t"]), 9))


def label_text(spec):
    t = spec["n"]
    if spec["a"]: t += ";" + ";".join(spec["a"])
    if spec["s"]: t += ":" + ":".join(map(str, spec["s"]))
    if spec["t"]: t += "!" + ("%f" % spec["t"]).rstrip("0").rstrip(".")
    return t


def both(text, create=True, integerize=True):
    """Run both parser implementations; returns their (layers, lines) or the string 'ERR'."""
    out = []
    for m in (fastcircuitparser, slowcircuitparser):
        try: out.append(m.parse_circuit(text, create, integerize))
        except Exception: out.append("ERR")
    return out


# ------------------------------------------------------------------------------------------------ labels
@st.composite
def label_case(draw):
    lines = draw(linesets)
    return {"l": draw(simple_label(lines)), "o": draw(simple_label(lines)), "lines": lines,
            "suffix": draw(st.text("abc_", min_size=1, max_size=3))}


@facet(label_case, quick=3000, rule="label has arguments, a time or more than one line")
def labels(case, rec):
    sp = case["l"]; L = mk_label(sp)
    rec.nt(bool(sp["a"] or sp["t"] or (sp["s"] and len(sp["s"]) > 1)))
    rec.note("args" if sp["a"] else "noargs", "time" if sp["t"] else "notime", "global" if sp["s"] is None else "local")
    rec.check(lkey(L) == skey(sp), "constructed", lkey(L), skey(sp))
    txt = str(L)
    rec.check(txt == label_text(sp), "str", txt, label_text(sp))
    for res in both(txt):
        rec.check(res != "ERR", "parsers reject", txt)
        (ls, lines) = res
        rec.check(len(ls) == 1 and lines is None, "one label", txt, ls)
        rec.check(ls[0] == L and hash(ls[0]) == hash(L) and type(ls[0]) is type(L) and lkey(ls[0]) == lkey(L), "reparse", txt, ls[0])
    # equivalent ways of writing the same label
    forms = [Label(L), copy.copy(L), copy.deepcopy(L), pickle.loads(pickle.dumps(L))]
    s = tuple(sp["s"] or ())
    marks = []
    for a in sp["a"]: marks += [";", a] if len(a) % 2 else [";" + a]
    if sp["t"]: marks += ["!", sp["t"]] if len(txt) % 2 else ["!" + repr(sp["t"])]
    forms.append(Label((sp["n"],) + tuple(marks) + s))
    forms.append(Label([sp["n"]] + marks + list(s)))
    if not sp["a"] and not sp["t"]:
        forms.append(Label(L.tonative()))
        if len(s) == 1: forms.append(Label(sp["n"], s[0]))
    forms.append(Label([L]))
    for f in forms:
        rec.check(f == L and hash(f) == hash(L) and type(f) is type(L) and lkey(f) == lkey(L), "form", repr(f), lkey(f), lkey(L))
    # relabelling
    mp = {l: "m%s" % i for i, l in enumerate(case["lines"])}
    for mapper in (mp, lambda x: mp[x]):
        m = L.map_state_space_labels(mapper)
        rec.check(lkey(m) == ("simple", sp["n"], tuple(mp[x] for x in s) or None, tuple(sp["a"]), round(float(sp["t"]), 9)), "mapped", m)
    r = L.replacename(sp["n"], "Gnew")
    rec.check(lkey(r) == skey(dict(sp, n="Gnew")), "replacename", r)
    rec.check(lkey(L.replacename("Gother_not_there", "Gnew")) == lkey(L), "replacename of another name")
    rec.check(lkey(L + case["suffix"]) == skey(dict(sp, n=sp["n"] + case["suffix"])), "add suffix")
    for k in range(len(sp["n"]) + 1): rec.check(L.has_prefix(sp["n"][:k]), "prefix")
    rec.check(not L.has_prefix("Zz"), "no prefix")
    # equality: iff same name, args and lines (time is documented not to count)
    O = mk_label(case["o"])
    for other in (case["o"], dict(sp, n=sp["n"] + "q"), dict(sp, s=(sp["s"] or []) + ["extra"]), dict(sp, a=sp["a"] + ["9"]),
                  dict(sp, s=list(reversed(sp["s"])) if sp["s"] else None), dict(sp, t=sp["t"] + 1.0)):
        O = mk_label(other)
        same = all(sp[k] == other[k] for k in "nsa")
        rec.check((O == L) == same and (L == O) == same, "equality", L, O)
        if same: rec.check(hash(O) == hash(L), "hash of equal labels")


# ------------------------------------------------------------------------------------------------ circuits: round trip
@st.composite
def sub_layer(draw, lines, depth):
    """Layer element list: simple labels and (if depth) sub-circuits on disjoint lines."""
    perm = list(draw(st.permutations(lines))); out = []
    while perm:
        c = draw(st.integers(0, 5))
        k = min(len(perm), draw(st.integers(1, 2)))
        if c == 0: perm.pop(); continue
        mine, perm = perm[:k], perm[k:]
        if c == 1 and depth > 0:
            lays = draw(st.lists(sub_layer(mine, depth - 1), min_size=2, max_size=3))
            out.append({"c": lays, "r": draw(st.integers(1, 3))})
        else:
            l = draw(simple_label(mine, allow_global=False)); l["s"] = list(mine)
            out.append(l)
    return out


def lay_lines(layer):
    s = set()
    for e in layer:
        if "c" in e:
            for l in e["c"]: s |= lay_lines(l)
        else: s |= set(e["s"] or ())
    return s


def idle_inside(layer):
    return any("c" in e and any(len(l) == 0 or idle_inside(l) for l in e["c"]) for e in layer)


def mk_elem(e):
    if "c" in e:
        comps = [mk_lay(l) for l in e["c"]]
        return CircuitLabel("", comps, Label(comps).sslbls, e["r"])
    return mk_label(e)


def mk_lay(layer):
    return Label([mk_elem(e) for e in layer])


def ref_expand_layer(layer):
    """list of flat layers (each a list of label specs) a layer with sub-circuits stands for"""
    cols = [ref_expand_elem(e) for e in layer]
    depth = max([len(c) for c in cols] or [1])
    return [sum([c[i] for c in cols if i < len(c)], []) for i in range(depth)]


def ref_expand_elem(e):
    if "c" not in e: return [[e]]
    once = []
    for l in e["c"]: once += ref_expand_layer(l)
    return once * e["r"]


def flat_key(lbl):
    return tuple(lkey(c) for c in lbl.components)


@st.composite
def circ_case(draw):
    lines = draw(linesets)
    layers = draw(st.lists(st.one_of(
        sub_layer(lines, 2), sub_layer(lines, 0),
        simple_label(lines).map(lambda l: [l])), min_size=0, max_size=6))
    ll = draw(st.sampled_from(["auto", "all", "perm", "extra"]))
    if ll == "perm": ll = list(draw(st.permutations(lines)))
    elif ll == "all": ll = list(lines)
    elif ll == "extra": ll = list(lines) + ([97, 98] if isinstance(lines[0], int) else ["Q97", "zz9"])
    return {"layers": layers, "ll": ll, "lines": lines}


@facet(circ_case, quick=2500, rule="at least two layers and a sub-circuit, argument, time or multi-line layer")
def circuits(case, rec):
    layers, ll = case["layers"], case["ll"]
    hassub = any("c" in e for l in layers for e in l)
    # a time printed on an unnamed sub-circuit is the sum of its parts: keep sub-circuits untimed (their text form
    # is only defined for simple labels)
    def strip(l):
        for e in l:
            if "c" in e:
                for x in e["c"]: strip(x)
            else: e["t"] = 0.0
    for l in layers:
        for e in l:
            if "c" in e:
                for x in e["c"]: strip(x)
    rec.nt(len(layers) > 1 and (hassub or any(len(l) > 1 or l and (l[0].get("a") or l[0].get("t")) for l in layers)))
    rec.note("sub" if hassub else "nosub", "ll:" + (ll if isinstance(ll, str) else "list"))
    lay = [mk_lay(l) for l in layers]
    used = set().union(*[lay_lines(l) for l in layers]) if layers else set()
    exp_lines = tuple(sorted(used)) if (ll == "auto" and used) else (("*",) if ll == "auto" else tuple(ll))
    c = Circuit(lay, ll if ll == "auto" else tuple(ll))
    flat = [x for l in layers for x in ref_expand_layer(l)]
    rec.check(c.line_labels == exp_lines, "line labels", c.line_labels, exp_lines)
    rec.check([flat_key(x) for x in c.layertup] == [tuple(skey(s) for s in f) for f in flat], "expanded layers", c.str)
    cs = [c]
    # a sub-circuit with an idle (empty) layer has no definite lines of its own, so it is only used expanded
    if not any(idle_inside(l) for l in layers): cs.append(Circuit(lay, exp_lines, expand_subcircuits=False))
    for k, cc in enumerate(cs):
        txt = cc.str
        for kw in ({}, {"expand_subcircuits": False}):
            c2 = Circuit(None, stringrep=txt, **kw)
            if k == 0 or kw:
                rec.check(c2 == cc and hash(c2) == hash(cc) and cc == c2, "reparse", txt, c2.str, c2.tup, cc.tup)
                rec.check([lkey(x) for x in c2.layertup] == [lkey(x) for x in cc.layertup], "reparse detail", txt)
            else:
                rec.check(c2 == c, "reparse with expansion", txt)
            rec.check(c2.line_labels == exp_lines, "reparse lines", txt, c2.line_labels)
        c3 = Circuit(txt, expand_subcircuits=False) if k else Circuit(txt)
        rec.check(c3 == cc, "string as first argument", txt)
        rec.check(Circuit(cc.layertup, cc.line_labels, stringrep=txt, expand_subcircuits=(k == 0)) == cc, "checked stringrep", txt)
        r = both(txt)
        rec.check(r[0] != "ERR" and r[1] != "ERR", "parser rejects", txt)
        for (ls, lines) in r:
            rec.check([lkey(x) for x in map(Label, ls)] == [lkey(x) for x in cc.layertup], "parser", txt, ls)
            rec.check((lines if lines is not None else ("*",)) == exp_lines, "parser lines", txt, lines)
        for f in (pickle.loads(pickle.dumps(cc)), copy.deepcopy(cc), cc.copy()):
            rec.check(f == cc and hash(f) == hash(cc) and f.str == txt and f.line_labels == cc.line_labels, "copy", txt)
        e = cc.copy(editable=True)
        if k == 0:
            rec.check(Circuit(None, stringrep=e.str) == cc, "editable copy text", e.str, txt)
            e.done_editing()
            rec.check(e == cc and hash(e) == hash(cc), "editable copy", e.str, txt)
    rec.check(Circuit.fromtup(c.tup) == c or c.line_labels in (("*",),), "fromtup", c.tup)
    if len(c) and c.line_labels == ("*",): rec.check(Circuit.fromtup(c.tup) == c, "fromtup", c.tup)


# ------------------------------------------------------------------------------------------------ grammar
@st.composite
def gram(draw, lines, depth):
    """AST of a string: list of factors"""
    out = []
    for _ in range(draw(st.integers(0 if depth else 1, 4))):
        kind = draw(st.sampled_from(["g", "g", "g", "layer", "paren", "nop", "elayer"]))
        if kind == "paren" and depth == 0: kind = "g"
        ex = draw(st.one_of(st.none(), st.none(), st.integers(0, 4), st.just(12)))
        star = draw(st.integers(0, 3)) == 0
        if kind == "g": body = draw(simple_label(lines))
        elif kind == "layer":
            perm = list(draw(st.permutations(lines))); body = []
            while perm:
                k = min(len(perm), draw(st.integers(1, 2))); mine, perm = perm[:k], perm[k:]
                if depth and draw(st.integers(0, 4)) == 0:
                    sub = draw(gram(mine, depth - 1))
                    body.append({"p": sub, "r": draw(st.one_of(st.none(), st.integers(1, 3)))})
                else:
                    l = draw(simple_label(mine, allow_global=False)); l["s"] = mine
                    body.append(l)
                if draw(st.integers(0, 3)) == 0: break
        elif kind == "paren": body = draw(gram(lines, depth - 1))
        else: body = None
        out.append({"k": kind, "b": body, "e": ex, "star": star})
    return out


def render(ast):
    s = ""
    for f in ast:
        if f["star"] and s: s += "*"
        k, b = f["k"], f["b"]
        if k == "g": s += label_text(b)
        elif k == "nop": s += "{}"
        elif k == "elayer": s += "[]"
        elif k == "paren": s += "(" + render(b) + ")"
        else:
            s += "[" + "".join("(" + render(x["p"]) + ")" + ("" if x["r"] is None else "^%d" % x["r"]) if "p" in x
                               else label_text(x) for x in b) + "]"
        if f["e"] is not None: s += "^%d" % f["e"]
    return s


def meaning(ast):
    """list of flat layers (lists of label specs)"""
    out = []
    for f in ast:
        k, b = f["k"], f["b"]
        if k == "g": one = [[b]]
        elif k == "nop": one = []
        elif k == "elayer": one = [[]]
        elif k == "paren": one = meaning(b)
        else:
            cols = []
            for x in b:
                if "p" in x:
                    m = meaning(x["p"])
                    if len(x["p"]) == 0 or not m: continue
                    cols.append(m * (1 if x["r"] is None else x["r"]))
                else: cols.append([[x]])
            depth = max([len(c) for c in cols] or [1])
            one = [sum([c[i] for c in cols if i < len(c)], []) for i in range(depth)]
        out += one * (1 if f["e"] is None else f["e"])
    return out


def parens_in_layer(ast):
    return any((f["k"] == "layer" and any("p" in x for x in f["b"])) or
               (f["k"] == "paren" and parens_in_layer(f["b"])) for f in ast)


def definite(ast, inside=False):
    """every sub-circuit acts on definite lines"""
    for f in ast:
        k, b = f["k"], f["b"]
        if inside and (k == "elayer" or k == "g" and b["s"] is None): return False
        if k == "paren" and not definite(b, True): return False
        if k == "layer":
            if inside and any("p" in x and not x["p"] for x in b): return False
            if any("p" in x and (not x["p"] or not definite(x["p"], True)) for x in b): return False
    return True


@st.composite
def gram_case(draw):
    lines = draw(linesets)
    ll = draw(st.sampled_from([None, None, "all", "perm"]))
    if ll == "perm": ll = list(draw(st.permutations(lines)))
    elif ll == "all": ll = list(lines)
    return {"ast": draw(gram(lines, 3)), "ll": ll, "prep": draw(st.sampled_from([None, None, None, "rho0", "rho_a"])),
            "povm": draw(st.sampled_from([None, None, None, "Mdefault", "M1_"]))}


@facet(gram_case, quick=3500, rule="an exponent, parentheses or a parallel layer occurs")
def grammar(case, rec):
    ast, ll = case["ast"], case["ll"]
    txt = render(ast)
    mean = meaning(ast)
    rec.skip(len(mean) > 3000)
    # how many layers a layer made only of an empty sub-circuit has is not specified
    rec.skip(parens_in_layer(ast) and "^0" in txt)
    if case["prep"]: txt = case["prep"] + txt; mean = [[{"n": case["prep"], "s": None, "a": [], "t": 0.0}]] + mean
    if case["povm"]: txt = txt + case["povm"]; mean = mean + [[{"n": case["povm"], "s": None, "a": [], "t": 0.0}]]
    body = txt
    if ll: txt += "@(" + ",".join(map(str, ll)) + ")"
    rec.skip(body == "")
    rec.nt(any(ch in body for ch in "^[("))
    rec.note("paren" if "(" in body else "", "exp" if "^" in body else "", "prep" if case["prep"] else "", "povm" if case["povm"] else "")
    want = [tuple(skey(s) for s in f) for f in mean]
    used = set(x for f in mean for s in f for x in (s["s"] or ()))
    lines = tuple(ll) if ll else (tuple(sorted(used)) if used else ("*",))
    c = Circuit(None, stringrep=txt)
    rec.check([flat_key(x) for x in c.layertup] == want, "layers of", txt, c.layertup)
    rec.check(c.line_labels == lines, "lines of", txt, c.line_labels, lines)
    rec.check(Circuit(c.layertup, c.line_labels, stringrep=txt) == c, "check=True accepts its own text", txt)
    rec.note("idle sub-circuit layer" if "[]" in body else "")
    for create in (True, False):
        a, b = both(txt, create)
        rec.check(a != "ERR" and b != "ERR", "rejected", txt, a == "ERR", b == "ERR")
        rec.check(a[1] == b[1] and [lkey(Label(x)) for x in a[0]] == [lkey(Label(x)) for x in b[0]], "parsers differ", txt, a, b)
        rec.check(a[1] == (tuple(ll) if ll else None), "parser lines", txt, a[1])
        if not create and not parens_in_layer(ast):
            rec.check([flat_key(Label(x)) for x in a[0]] == want, "parsed without sub-circuits", txt, a[0])
    # (expanded once more from the unexpanded circuit)
    if definite(ast):
        cu = Circuit(None, stringrep=txt, expand_subcircuits=False)
        rec.check(Circuit(cu.layertup, cu.line_labels).layertup == c.layertup, "expansion later equals expansion now", txt)
    # parsing with a text that says something else is refused
    if len(want) and c.line_labels != ("*",):
        try:
            Circuit(c.layertup + (Label("Gzz9", c.line_labels[0]),), c.line_labels, stringrep=txt)
        except ValueError: pass
        else: rec.check(False, "mismatching text accepted", txt)


# ------------------------------------------------------------------------------------------------ malformed text
TOK = re.compile(r"(?P<lbl>[GI][a-z0-9_]+(?:;[a-zQ0-9_\./]+)*(?::[a-zQ0-9_]+)*(?:![0-9]+(?:\.[0-9]*)?)?)|(?P<nop>\{\})|(?P<exp>\^[0-9]+)|(?P<br>[\[\]\(\)])|(?P<star>\*)")


LAX = re.compile(TOK.pattern.replace("_]+", "_]*").replace("\\./]+", "\\./]*").replace("![0-9]+", "![0-9]*"))


def wellformed(txt, TOK=TOK):
    """Independent recogniser of the gate/layer/parenthesis/exponent part of the grammar."""
    toks = []; i = 0
    while i < len(txt):
        m = TOK.match(txt, i)
        if not m: return False
        toks.append((m.lastgroup, m.group())); i = m.end()
    toks = [t for t in toks if t[0] != "star"]
    stack = []; prev = None
    for k, v in toks:
        if k == "exp":
            if prev not in ("lbl", "close", "nop"): return False
        elif k == "br" and v in "([": stack.append(v)
        elif k == "br":
            if not stack or stack.pop() + v not in ("()", "[]"): return False
            prev = "close"; continue
        prev = k
    return not stack


@st.composite
def bad_case(draw):
    lines = draw(linesets)
    ast = draw(gram(lines, 2))
    return {"txt": render(ast), "pos": draw(st.integers(0, 10**6)), "how": draw(st.sampled_from(["ins", "del", "rep", "trunc", "post"])),
            "ch": draw(st.sampled_from(list("()[]^:;!*{}GXM%&#-+~?=,'\"\\|<>HZ$")))}


@facet(bad_case, quick=4000, rule="the mutated text is not in the grammar")
def malformed(case, rec):
    t = case["txt"]; p = case["pos"] % (len(t) + 1); ch = case["ch"]
    how = case["how"]
    if how == "ins": s = t[:p] + ch + t[p:]
    elif how == "del": s = t[:p] + t[p + 1:]
    elif how == "rep": s = t[:p] + ch + t[p + 1:]
    elif how == "post": s = t + "Mz" + "Gx"
    else: s = t[:p]
    rec.skip(s == "" or "M" in s and how != "post" or "*" in s.replace(")*", "").replace("*(", ""))
    a, b = both(s)
    ok = wellformed(s)
    if ok and "(" in s:
        kinds = set(x.isdigit() for x in re.findall(r":([a-zQ0-9_]+)", s))
        rec.skip(len(kinds) > 1, "line labels of one circuit are all integers or all names")
    rec.skip(not ok and wellformed(s, LAX), "labels with an empty name, argument or line: tolerated or not, both are fine")
    rec.nt(not ok); rec.note("valid" if ok else "invalid", how)
    if how == "post":
        rec.check(a == "ERR" and b == "ERR", "gate after measurement accepted", s); return
    if ok:
        rec.check(a != "ERR" and b != "ERR", "well-formed text rejected", s, a == "ERR", b == "ERR")
        rec.check(a[1] == b[1] and [lkey(Label(x)) for x in a[0]] == [lkey(Label(x)) for x in b[0]], "parsers differ", s)
    else:
        rec.check(a == "ERR", "malformed text accepted (compiled)", s, a)
        rec.check(b == "ERR", "malformed text accepted (python)", s, b)
        for kw in ({"stringrep": s}, ):
            try: Circuit(None, **kw)
            except Exception: pass
            else: rec.check(False, "circuit made from malformed text", s)
