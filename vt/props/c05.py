"""C05: saved data sets come back unchanged."""
TECH = "Hypothesis: generated data sets written and read back through every text, binary and pickle format (round trip); generated column-format files read by pyGSTi and by an independent reference reader (differential)"
NOTE = "Generated-input search: <= 6 circuits on <= 4 lines, <= 5 outcome labels (strings and tuples), counts exact in single precision, files of <= 10 data lines; reference reader in vt/props/c05.py."
import collections, io as _io, os, pickle, time as _time, warnings
import numpy as np
from hypothesis import strategies as st
from vt import facet
from vt.gen import *
import pygsti
from pygsti import io
from pygsti.objects import Circuit, Label, DataSet, MultiDataSet

el = st.one_of(st.sampled_from(["0", "1", "00", "01", "10", "11", "p0", "reset"]), st.text("01abQ_+-9", min_size=1, max_size=4))
olab = st.one_of(el.map(lambda x: [x]), el.map(lambda x: [x]), st.lists(el, min_size=2, max_size=3))
outcomes = st.lists(olab, min_size=1, max_size=5, unique_by=tuple)
cnt = st.one_of(st.integers(0, 5), st.integers(0, 200), st.integers(0, 2**21), st.integers(1, 4000).map(lambda k: k / 4.0))
tim = st.one_of(st.integers(0, 4), st.integers(0, 4), st.integers(0, 4000).map(lambda k: k / 8.0), st.integers(0, 400).map(lambda k: 1.6e9 + k / 4.0))
auxv = st.recursive(st.one_of(st.integers(-5, 10**6), st.text("ab #'\"1:,={}\\", max_size=6), st.booleans(), st.none(), st.sampled_from([0.5, 1e-9, 0.1])),
                    lambda s: st.one_of(st.lists(s, max_size=3), st.dictionaries(st.text("ab1 #", max_size=3), s, max_size=2)), max_leaves=4)
aux = st.one_of(st.just({}), st.dictionaries(st.text("abc 1#", min_size=1, max_size=4), auxv, max_size=3))
comment = st.one_of(st.none(), st.lists(st.text("abc 1#:,{}", max_size=8).map(lambda s: ("x" + s).strip()), min_size=1, max_size=3))


@st.composite
def circs(draw, n=5, args=True):
    lines = draw(linesets)
    ncl = draw(st.sampled_from([0, 0, 0, 1]))
    reps = draw(st.lists(st.lists(st.sampled_from([1, 1, 2, 3, 9, 21, 40]), max_size=4), min_size=1, max_size=3)) if draw(st.integers(0, 2)) == 0 else [[]]
    return {"lines": lines, "auto": bool(ncl), "rep": reps,
            "c": [[draw(layer_of(lines, args=args, time=False)) for _ in range(draw(st.integers(0, 4)))] for _ in range(draw(st.integers(1, n)))]}


def mk_circs(spec):
    if "c" in spec and not spec.get("done"):
        spec = dict(spec, done=1, c=[[l for l, n in zip(c, spec["rep"][i % len(spec["rep"])] + [1] * len(c)) for _ in range(n)] for i, c in enumerate(spec["c"])])
    if spec["auto"]: return [Circuit([mk_layer(l) for l in c]) for c in spec["c"]]
    return [Circuit([mk_layer(l) for l in c], tuple(spec["lines"])) for c in spec["c"]]


def uniq(l):
    out = []
    for x in l:
        if x not in out: out.append(x)
    return out


@st.composite
def dsets(draw):
    ols = draw(outcomes); cs = draw(circs())
    mode = draw(st.sampled_from(["counts", "counts", "series", "noreps"]))
    rows = []
    for _ in cs["c"]:
        if mode == "counts": rows.append([[i, 0, draw(cnt)] for i in draw(st.lists(st.integers(0, len(ols) - 1), max_size=len(ols), unique=True))])
        else:
            r = draw(st.lists(st.tuples(st.integers(0, len(ols) - 1), tim, st.just(1) if mode == "noreps" else cnt), max_size=6))
            if draw(st.booleans()): r = sorted(r, key=lambda e: e[1])
            rows.append([list(e) for e in r])
    return {"circs": cs, "ols": ols, "mode": mode, "rows": rows, "sep": draw(st.integers(0, 3)) == 0, "rep": draw(st.lists(st.integers(0, 4), max_size=3)),
            "aux": [draw(aux) for _ in rows], "comment": draw(comment), "static": draw(st.booleans()), "extra_ol": draw(st.booleans())}


def build(s):
    ols = [tuple(o) for o in s["ols"]]
    cs = mk_circs(s["circs"]); rows = list(s["rows"]); auxs = list(s["aux"])
    if s["sep"]:
        for i in s["rep"]:
            cs.append(cs[i % len(cs)]); rows.append(rows[(i + 1) % len(rows)]); auxs.append({})
    ds = DataSet(outcomeLabels=ols if s["extra_ol"] else None, collisionAction="keepseparate" if s["sep"] else "aggregate",
                 comment=None if s["comment"] is None else "\n".join(s["comment"]))
    seen = []
    for c, r, a in zip(cs, rows, auxs):
        if c in seen and not s["sep"]: continue
        seen.append(c)
        if s["mode"] == "counts": ds.add_count_dict(c, collections.OrderedDict((ols[i], n) for i, t, n in r), aux=a)
        else: ds.add_raw_series_data(c, [ols[i] for i, t, n in r], [t for i, t, n in r], [n for i, t, n in r] if s["mode"] == "series" else None, aux=a)
    if s["static"]: ds.done_adding_data()
    return ds


def exact(rec, a, b, w, ol_order=True, auxok=True):
    ka, kb = list(a.keys()), list(b.keys())
    rec.check(ka == kb, w, "circuits", [k.str for k in ka], [k.str for k in kb])
    rec.check([k.line_labels for k in ka] == [k.line_labels for k in kb] and [tuple(k) for k in ka] == [tuple(k) for k in kb] and [k.str for k in ka] == [k.str for k in kb], w, "circuit line labels, layers or strings")
    if ol_order: rec.check(list(a.get_outcome_labels()) == list(b.get_outcome_labels()), w, "outcome labels", a.get_outcome_labels(), b.get_outcome_labels())
    for k in ka:
        ra, rb = [list(e) for e in a[k]], [list(e) for e in b[k]]
        rec.check(ra == rb, w, "entries of", k.str, ra, rb)
        if auxok: rec.check(dict(a[k].aux) == dict(b[k].aux), w, "auxiliary info of", k.str, a[k].aux, b[k].aux)


def onlycounts(rec, a, b, w, skipzero=False, dropzero=False, ordered=False, auxok=True):
    want = []
    for k in a.keys():
        c = dict(a[k].counts)
        if skipzero and not any(c.values()): continue
        want.append((k, {o: n for o, n in c.items() if n or not dropzero}, dict(a[k].aux)))
    rec.check([x[0] for x in want] == list(b.keys()), w, "circuits", [x[0].str for x in want], [k.str for k in b.keys()])
    for k, c, ax in want:
        rec.check(dict(b[k].counts) == c, w, "counts of", k.str, c, dict(b[k].counts))
        rec.check(b[k].total == sum(c.values()), w, "total")
        if auxok: rec.check(dict(b[k].aux) == ax, w, "auxiliary info of", k.str, ax, b[k].aux)


def cmt(s): return "\n".join(s) if s is not None else ""


@facet(dsets, quick=2600, rule="at least two circuits and two outcome labels with counts")
def roundtrip(s, rec):
    ds = build(s); rec.note(s["mode"], "sep" if s["sep"] else "agg")
    rec.nt(len(ds.keys()) > 1 and len(ds.get_outcome_labels()) > 1)
    if any(s["aux"]): rec.note("aux")
    before = [[list(e) for e in ds[k]] for k in ds.keys()]
    d = rec.scratch(); f = os.path.join(d, "ds.txt"); act = "keepseparate" if s["sep"] else "aggregate"
    timed = s["mode"] == "noreps" or not ds.has_trivial_timedependence() if len(ds.keys()) and all(len(r) for r in before) else s["mode"] != "counts"
    # --- fixed columns
    if ds.get_outcome_labels():
        io.write_dataset(f, ds)
        b = io.load_dataset(f, collisionAction=act, ignoreZeroCountLines=False, verbosity=0)
        onlycounts(rec, ds, b, "fixed columns")
        rec.check(list(b.get_outcome_labels()) == list(ds.get_outcome_labels()), "fixed columns: outcome label order")
        rec.check(b.comment == "\n".join(x.lstrip("#").strip() if x.startswith("#") else x for x in cmt(s["comment"]).split("\n")), "fixed columns: comment", b.comment)
        if not s["sep"]:
            onlycounts(rec, ds, io.load_dataset(f, verbosity=0), "fixed columns, zero lines ignored", skipzero=True)
            onlycounts(rec, ds, io.load_dataset(f, recordZeroCnts=False, ignoreZeroCountLines=False, verbosity=0), "fixed columns, zeros not recorded", dropzero=True)
            order = list(reversed(ds.get_outcome_labels())); sub = list(ds.keys())[::2]
            io.write_dataset(f, ds, circuit_list=sub, outcomeLabelOrder=[o[0] if len(o) == 1 else o for o in order])
            b = io.load_dataset(f, ignoreZeroCountLines=False, verbosity=0)
            rec.check(list(b.keys()) == sub and list(b.get_outcome_labels()) == order, "fixed columns: given circuits / label order")
            for k in sub: rec.check(dict(b[k].counts) == dict(ds[k].counts) and dict(b[k].aux) == dict(ds[k].aux), "fixed columns of given circuits", k.str)
    # --- expanded, no times
    io.write_dataset(f, ds, fixedColumnMode=False, withTimes=False)
    b = io.load_dataset(f, collisionAction=act, ignoreZeroCountLines=False, withTimes=False, verbosity=0)
    onlycounts(rec, ds, b, "expanded")
    # --- times
    io.write_dataset(f, ds, fixedColumnMode=False, withTimes=True)
    for wt in ("auto", True):
        b = io.load_dataset(f, collisionAction=act, ignoreZeroCountLines=False, withTimes=wt, verbosity=0)
        exact(rec, ds, b, "time format withTimes=%s" % wt, ol_order=False)
    b = io.load_dataset(f, collisionAction=act, recordZeroCnts=False, verbosity=0)
    for k in ds.keys():
        rec.check([list(e) for e in b[k]] == [list(e) for e in ds[k] if e[2] != 0], "time format, zeros not recorded")
    if all(len(r) for r in before):
        io.write_dataset(f, ds, fixedColumnMode=False)        # automatic choice of format
        b = io.load_dataset(f, collisionAction=act, ignoreZeroCountLines=False, verbosity=0)
        if ds.has_trivial_timedependence(): onlycounts(rec, ds, b, "automatic format")
        else: exact(rec, ds, b, "automatic format", ol_order=False)
    # --- cache
    if not s["sep"]:
        for i in range(3):
            b = io.load_dataset(f, cache=True, ignoreZeroCountLines=False, withTimes="auto" if all(len(r) for r in before) else True, verbosity=0)
            if i == 0: b0 = b; os.utime(f, (1, 1)); rec.check(os.path.exists(f + ".cache"), "cache file written")
            else: exact(rec, b0, b, "cached load")
    # --- binary
    ds.comment = None if s["comment"] is None else cmt(s["comment"])
    for nm in ("x.ds", "x.gz"):
        p = os.path.join(d, nm); ds2 = ds.copy()
        if not s["static"]: ds2.done_adding_data()
        ds2.save(p)
        for b in (DataSet(fileToLoadFrom=p), io.load_dataset(p, verbosity=0)):
            exact(rec, ds, b, "binary " + nm)
            rec.check(b.collisionAction == ds.collisionAction and b.comment == ds.comment, "binary: collision action or comment")
    buf = _io.BytesIO(); ds2.save(buf); buf.seek(0); b = DataSet(); b.load(buf); exact(rec, ds, b, "file object")
    for p in (0, pickle.HIGHEST_PROTOCOL):
        b = pickle.loads(pickle.dumps(ds, p)); exact(rec, ds, b, "pickle")
        rec.check(b.bStatic == ds.bStatic and b.comment == ds.comment and b.collisionAction == ds.collisionAction, "pickle: attributes")
    if not s["static"]:
        b.add_count_dict(Circuit(("Gnew",)), {"znew": 3}); rec.check(b[Circuit(("Gnew",))]["znew"] == 3, "unpickled data set editable")
    rec.check(before == [[list(e) for e in ds[k]] for k in ds.keys()], "writing changed the data set")


# ------------------------------------------------------------------------------------------ multi data sets
@st.composite
def mdsets(draw):
    names = draw(st.lists(st.one_of(st.sampled_from(["DS0", "DS1", "a"]), st.text("abD_01", min_size=1, max_size=4)), min_size=1, max_size=3, unique=True))
    ols = draw(outcomes); cs = draw(circs(4))
    c0 = st.one_of(st.integers(0, 3), st.integers(0, 1000), st.integers(4, 4000).map(lambda k: k / 4.0))
    return {"names": names, "ols": ols, "circs": cs, "rows": [[[draw(st.one_of(st.none(), c0)) for _ in ols] for _ in cs["c"]] for _ in names],
            "aux": [draw(aux) for _ in cs["c"]], "comment": draw(comment), "order": draw(st.booleans())}


@facet(mdsets, quick=1200, rule="at least two data sets and two circuits")
def multi(s, rec):
    ols = [tuple(o) for o in s["ols"]]
    cs = uniq(mk_circs(s["circs"])); rec.nt(len(s["names"]) > 1 and len(cs) > 1)
    mds = MultiDataSet(comment=None if s["comment"] is None else cmt(s["comment"]))
    for nm, rows in zip(s["names"], s["rows"]):
        d = DataSet(outcomeLabels=ols)
        for c, r, a in zip(cs, rows, s["aux"]): d.add_count_dict(c, {o: n for o, n in zip(ols, r) if n is not None}, aux=a)
        d.done_adding_data(); mds.add_dataset(nm, d)
    dd = rec.scratch(); f = os.path.join(dd, "m.txt")
    order = list(reversed(ols)) if s["order"] else None
    io.write_multidataset(f, mds, outcomeLabelOrder=order)
    live = [c for j, c in enumerate(cs) if any(rows[j][i] for rows in s["rows"] for i in range(len(ols)))]
    b = io.load_multidataset(f, verbosity=0)
    rec.check(list(b.keys()) == s["names"], "data set names", list(b.keys()))
    rec.check(b.comment == "\n".join(x.lstrip("#").strip() if x.startswith("#") else x for x in cmt(s["comment"]).split("\n")), "comment", b.comment)
    for nm in s["names"]:
        rec.check(list(b[nm].keys()) == live, nm, "circuits", [c.str for c in b[nm].keys()], [c.str for c in live])
        rec.check(set(b[nm].get_outcome_labels()) == set(ols), nm, "outcome labels")
        for c in live:
            rec.check(dict(b[nm][c].counts) == dict(mds[nm][c].counts), nm, "counts", c.str, dict(b[nm][c].counts), dict(mds[nm][c].counts))
            rec.check(dict(b[nm][c].aux) == dict(mds[nm][c].aux), nm, "aux", c.str, b[nm][c].aux, mds[nm][c].aux)
    for p in (os.path.join(dd, "m.mds"), os.path.join(dd, "m.gz")):
        mds.save(p)
        for b in (MultiDataSet(fileToLoadFrom=p), io.load_multidataset(p, verbosity=0), pickle.loads(pickle.dumps(mds))):
            rec.check(list(b.keys()) == s["names"] and b.comment == mds.comment, "binary: names or comment")
            for nm in s["names"]: exact(rec, mds[nm], b[nm], "binary " + nm)


# ------------------------------------------------------------------------------------------ column files
@st.composite
def files(draw):
    multi = draw(st.integers(0, 2)) == 0
    dsl = ["DSa", "b2"][:draw(st.integers(1, 2))] if multi else [None]
    cols = []
    for d in dsl:
        kind = draw(st.sampled_from(["count", "count", "freq", "one"]))
        ols = draw(st.lists(el, min_size=1, max_size=3, unique=True))
        if kind == "one": ols = [draw(st.sampled_from(["0", "1"]))]
        k2 = [draw(st.sampled_from(["count", "frequency"])) if kind == "freq" else "count" for _ in ols] if kind != "one" else [draw(st.sampled_from(["count", "frequency"]))]
        cols += [[d, o, k] for o, k in zip(ols, k2)]
        if kind != "count": cols.append([d, None, "total"])
        if draw(st.integers(0, 2)) == 0: cols.append([d, None, "other"])
    cols = list(draw(st.permutations(cols)))
    lines = []
    for _ in range(draw(st.integers(1, 8))):
        vals = []
        z = draw(st.integers(0, 5)) == 0
        tot = draw(st.sampled_from([0, 8, 100, 64]))
        for d, o, k in cols:
            if draw(st.integers(0, 6)) == 0: vals.append("--")
            elif z: vals.append(0)
            elif k == "frequency": vals.append(draw(st.sampled_from([0, 0.25, 0.5, 1.0, 0.125])))
            elif k == "total": vals.append(tot)
            else: vals.append(draw(st.one_of(st.integers(0, 8), st.integers(1, 20).map(lambda x: x / 2.0))))
        if draw(st.integers(0, 12)) == 0: vals[draw(st.integers(0, len(vals) - 1))] = "BAD"
        lines.append({"c": draw(st.integers(0, 6)), "v": vals, "x": draw(st.integers(0, 3)), "aux": draw(st.sampled_from([None, None, None, "'k': 3", "{'a': [1, '#'], 'b': 'x y'}"]))})
    return {"multi": multi, "cols": cols, "lines": lines, "sep": draw(st.booleans()), "zero": draw(st.booleans()), "rec0": draw(st.booleans()),
            "pre": draw(st.lists(st.text("ab 1", max_size=5).map(lambda x: "x" + x), max_size=2)), "fmt": draw(st.sampled_from(["%g", "%.3f"]))}


TXT = [("{}", (), ("*",)), ("Gx", ("Gx",), ("*",)), ("GxGy", ("Gx", "Gy"), ("*",)), ("Gx^3", ("Gx",) * 3, ("*",)), ("(GxGy)^2", ("Gx", "Gy") * 2, ("*",)), ("Gx*Gy", ("Gx", "Gy"), ("*",)),
       ("Gx:0[Gx:0Gy:1]@(0,1)", ("Gx:0", ["Gx:0", "Gy:1"]), (0, 1))]


def LB(x): return Label([LB(y) for y in x]) if isinstance(x, list) else (Label(x) if ":" not in x else Label(x.split(":")[0], tuple(int(k) for k in x.split(":")[1:])))


@facet(files, quick=2600, rule="at least two data lines kept")
def columns(s, rec):
    d = rec.scratch(); f = os.path.join(d, "in.txt")
    def circ(i):
        return TXT[i][0], Circuit([LB(x) for x in TXT[i][1]], TXT[i][2])
    names = [("%s " % a if a else "") + {"count": "%s count" % o, "frequency": "%s frequency" % o, "total": "count total", "other": "xtra stuff"}[k] for a, o, k in s["cols"]]
    L = ["# " + x.strip() for x in s["pre"]] + ["## Columns = " + ", ".join(names)]
    dss = uniq(c[0] for c in s["cols"] if c[2] != "other" or True)
    dss = uniq(c[0] for c in s["cols"] if c[2] in ("count", "frequency"))
    rec.skip(not dss)
    exp = {a: collections.OrderedDict() for a in dss}; auxs = collections.OrderedDict(); raises = False; kept = 0
    total = {a: next((i for i, c in enumerate(s["cols"]) if c[0] == a and c[2] == "total"), None) for a in dss}
    olset = {}
    for a in dss:
        olset[a] = [c[1] for c in s["cols"] if c[0] == a and c[2] in ("count", "frequency")]
        if total[a] is not None:
            if "1" in olset[a] and "0" not in olset[a]: olset[a].append("0")
            elif "0" in olset[a] and "1" not in olset[a]: olset[a].append("1")
    for ln in s["lines"]:
        txt, c = circ(ln["c"]); v = ln["v"]
        if ln["x"] == 0: L.append("  " if ln["v"][0] == 0 else "# just a comment")
        L.append(txt + "  " + "  ".join(x if isinstance(x, str) else s["fmt"] % x for x in v) + ("" if ln["aux"] is None else "   # " + ln["aux"]))
        rows = {}
        for a in dss:
            r = collections.OrderedDict()
            if "BAD" not in v:
                for i, (a2, o, k) in enumerate(s["cols"]):
                    if a2 != a or v[i] == "--" or k not in ("count", "frequency"): continue
                    if k == "count":
                        if s["multi"] and 0 < v[i] < 1: raises = True
                        r[o] = v[i]
                    elif v[total[a]] == "--":
                        rec.skip(s["multi"])
                    else: r[o] = v[i] * v[total[a]]
                if total[a] is not None:
                    both = [c[1] for c in s["cols"] if c[0] == a and c[2] in ("count", "frequency")]
                    for p, q in (("1", "0"), ("0", "1")):
                        if p in both and q not in both:
                            if p not in r: rec.skip()
                            elif v[total[a]] == "--": raises = True          # a total without the count it implies
                            else: r[q] = v[total[a]] - r[p]
                            break
            rows[a] = r
        if any(x < 0 for r in rows.values() for x in r.values()): rec.skip()
        if all(abs(x) < 1e-9 for r in rows.values() for x in r.values()) and (s["multi"] or s["zero"]): continue
        kept += 1
        for a in dss:
            k = c; i = 0
            if s["sep"]:
                while k in exp[a]: i += 1; k = Circuit(tuple(c.layertup) + (Label("#%d" % i),), c.line_labels)
            if k not in exp[a]: exp[a][k] = collections.OrderedDict()
            for o, n in rows[a].items():
                if s["rec0"] or n != 0 or s["multi"] and False: exp[a][k][o] = exp[a][k].get(o, 0) + n
            ax = {} if ln["aux"] is None else (eval(ln["aux"]) if ln["aux"][0] == "{" else eval("{" + ln["aux"] + "}"))
            auxs[k] = ax
    open(f, "w").write("\n".join(L) + "\n")
    rec.note("multi" if s["multi"] else "single"); rec.nt(kept > 1)
    kw = dict(collisionAction="keepseparate" if s["sep"] else "aggregate", recordZeroCnts=s["rec0"], verbosity=0)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if raises:
            try: io.load_multidataset(f, **kw) if s["multi"] else io.load_dataset(f, ignoreZeroCountLines=s["zero"], **kw)
            except Exception: rec.note("rejected"); return
            rec.check(False, "missing total or fraction-like count accepted", open(f).read())
        if s["multi"]: got = io.load_multidataset(f, **kw); rec.check(set(got.keys()) == set(dss), "data sets", list(got.keys()))
        else: got = {None: io.load_dataset(f, ignoreZeroCountLines=s["zero"], **kw)}
    pre = [x.strip() for x in s["pre"]]
    g0 = got if s["multi"] else got[None]
    rec.check([x for x in g0.comment.split("\n") if not x.startswith("#") and x != "just a comment"][:len(pre)] == pre or not pre, "comment", g0.comment, pre)
    for a in dss:
        ds = got[a]
        rec.check(list(ds.keys()) == list(exp[a]), a, "circuits", [k.str for k in ds.keys()], [k.str for k in exp[a]], open(f).read())
        rec.check(set(ds.get_outcome_labels()) == set((o,) for x in dss for o in olset[x]), a, "outcome labels", ds.get_outcome_labels(), olset[a])
        for k, r in exp[a].items():
            nz = lambda d: {o: n for o, n in d.items() if n or not s["multi"]}     # (sets in a MultiDataSet are padded with zero counts)
            rec.check(nz(dict(ds[k].counts)) == nz({(o,): n for o, n in r.items()}), a, "counts of", k.str, dict(ds[k].counts), r, open(f).read())
            if not s["multi"]: rec.check(dict(ds[k].aux) == auxs.get(k, {}), "aux of", k.str, ds[k].aux, auxs.get(k), open(f).read())


# ------------------------------------------------------------------------------------------ circuit lists, time series files
@facet(lambda: st.fixed_dictionaries({"circs": circs(6), "head": st.one_of(st.none(), st.text("ab #1", max_size=5)), "ll": st.booleans()}), quick=1600, rule="at least two circuits")
def circuit_lists(s, rec):
    cs = mk_circs(s["circs"]); rec.nt(len(cs) > 1)
    d = rec.scratch(); f = os.path.join(d, "c.txt")
    io.write_circuit_list(f, cs, s["head"])
    b = io.load_circuit_list(f)
    rec.check(b == cs and [c.line_labels for c in b] == [c.line_labels for c in cs] and [c.str for c in b] == [c.str for c in cs], "circuit list", [c.str for c in cs], [c.str for c in b])
    rec.check(io.load_circuit_list(f, readRawStrings=True) == [c.str for c in cs], "raw strings")
    if s["circs"]["auto"] is False and s["ll"]:
        # line labels given when the text has none
        with open(f, "w") as o: o.write("\n".join(str(Circuit(tuple(c)).str).split("@")[0] for c in cs) + "\n")
        b = io.load_circuit_list(f, line_labels=tuple(s["circs"]["lines"]))
        rec.check([tuple(c) for c in b] == [tuple(c) for c in cs] and all(c.line_labels == tuple(s["circs"]["lines"]) for c in b), "given line labels")
    with open(f, "w") as o: o.write("# c\n" + "".join("n%d  %s\n" % (i, c.str) for i, c in enumerate(cs)))
    b = io.load_circuit_dict(f)
    rec.check(list(b) == ["n%d" % i for i in range(len(cs))] and list(b.values()) == cs and [c.line_labels for c in b.values()] == [c.line_labels for c in cs], "circuit dictionary")
    # templates
    us = uniq(cs); io.write_empty_dataset(f, us, "## Columns = 0 count, 1 count, xx count")
    b = io.load_dataset(f, ignoreZeroCountLines=False, verbosity=0)
    rec.check(list(b.keys()) == us and all(dict(b[c].counts) == {("0",): 0, ("1",): 0, ("xx",): 0} for c in us), "empty data set template")


@facet(lambda: st.fixed_dictionaries({"ab": st.permutations(["0", "1", "x"]), "o": st.lists(el, min_size=3, max_size=3, unique=True), "rows": st.lists(st.tuples(st.integers(0, 6), st.text("012", min_size=1, max_size=12)), min_size=1, max_size=6, unique_by=lambda x: [0, 1, 2, 3, 4, 2, 6][x[0]]), "rec0": st.booleans()}),
       quick=500, rule="at least two rows")
def tdfile(s, rec):
    d = rec.scratch(); f = os.path.join(d, "t.txt")
    rec.nt(len(s["rows"]) > 1)
    L = ["# hello"] + ["## %s = %s" % (a, o) for a, o in zip(s["ab"], s["o"])] + [""]
    for i, t in s["rows"]: L += ["# c", TXT[i][0] + "   " + "".join(s["ab"][int(k)] for k in t)]
    open(f, "w").write("\n".join(L) + "\n")
    ds = io.load_tddataset(f, recordZeroCnts=s["rec0"])
    want = [Circuit([LB(x) for x in TXT[i][1]], TXT[i][2]) for i, _ in s["rows"]]
    rec.check(list(ds.keys()) == want, "circuits")
    for c, (_, t) in zip(want, s["rows"]):
        rec.check([list(e) for e in ds[c]] == [[(s["o"][int(k)],), j, 1.0] for j, k in enumerate(t)], "entries", [list(e) for e in ds[c]], t)
    rec.check(set(ds.get_outcome_labels()) == set((o,) for o in s["o"]), "outcome labels")


@facet(st.fixed_dictionaries({"circs": st.lists(st.lists(st.tuples(st.lists(st.integers(0, 5), min_size=1, max_size=9), st.integers(1, 5)), min_size=1, max_size=4), min_size=1, max_size=4),
                              "alpha": st.integers(0, 2), "seed": seeds, "how": st.sampled_from(["pickle", "save", "save.gz", "text", "compressed", "multi"])}), quick=2500,
       rule="a circuit of at least 20 layers")
def long_circuits(case, rec):
    """Circuits made of repeated blocks (as in long-sequence experiments), which binary formats compress"""
    from pygsti.objects.circuit import CompressedCircuit
    L = (0, 1)
    A = [[Label("G" + x) for x in "abcdef"], [Label("G" + x, y) for x in "ab" for y in (0, 1)] + [Label("Gc", (0, 1)), Label(())], [Label((("Gx", 0), ("Gy", 1))), Label("Gx", 0), Label((("Gx", 0), ("Gx", 1))), Label(()), Label("Gx", 1), Label("Gi", 0)]][case["alpha"]]
    line = ("*",) if case["alpha"] == 0 else L
    cs = list(dict.fromkeys(Circuit([A[i] for b, n in spec for i in b * n], line) for spec in case["circs"]))
    rec.nt(any(len(c) >= 20 for c in cs)); rec.note(case["how"], "longest %d0s" % (max(map(len, cs)) // 10))
    if case["how"] == "compressed":
        for c in cs:
            cc = CompressedCircuit(c)
            c2 = cc.expand()
            rec.check(c2 == c and tuple(c2) == tuple(c) and c2.line_labels == c.line_labels and c2.str == c.str, "compressed circuit", c.str, c2.str)
            rec.check(CompressedCircuit.expand_op_label_tuple(CompressedCircuit.compress_op_label_tuple(c.layertup)) == c.layertup, "compressed labels")
        return
    r = rng(case["seed"]); ds = DataSet(outcomeLabels=["0", "1"])
    for c in cs: ds.add_count_dict(c, {"0": int(r.randint(1, 50)), "1": int(r.randint(1, 50))})
    ds.done_adding_data()
    d = rec.scratch()
    if case["how"] == "pickle": d2 = pickle.loads(pickle.dumps(ds))
    elif case["how"].startswith("save"):
        f = d + "/x" + (".gz" if case["how"].endswith("gz") else ""); ds.save(f); d2 = DataSet(fileToLoadFrom=f)
    elif case["how"] == "multi":
        m = pygsti.objects.MultiDataSet(outcomeLabels=["0", "1"]); m.add_dataset("A", ds); d2 = pickle.loads(pickle.dumps(m))["A"]
    else: pygsti.io.write_dataset(d + "/x", ds); d2 = pygsti.io.load_dataset(d + "/x", verbosity=0)
    rec.check(list(d2.keys()) == cs and [tuple(c) for c in d2.keys()] == [tuple(c) for c in cs] and [c.line_labels for c in d2.keys()] == [c.line_labels for c in cs], case["how"], "circuits", [c.str for c in d2.keys()])
    for c in cs: rec.check(dict(d2[c].counts) == dict(ds[c].counts), case["how"], "counts of", c.str)
