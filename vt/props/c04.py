"""C04: a data set reports exactly the counts put into it."""
TECH = "Hypothesis stateful/model-based testing: generated histories of data-set operations on several related data sets, every one compared with a dict-of-lists reference model after every step"
NOTE = "Generated-input search over histories (<= 14 operations, <= 4 live data sets, <= 6 circuits, counts exact in float32) against the reference model in vt/props/c04.py."
import copy, collections
import numpy as np
from hypothesis import strategies as st
from vt import facet
from vt.gen import *
from pygsti.objects import Circuit, Label, DataSet, MultiDataSet
from pygsti.construction import datasetconstruction as dc

CIRCS = [((), (0, 1)), (("Gx:0",), (0, 1)), (("Gx:0", "Gy:1"), (0, 1)), ((["Gx:0", "Gy:1"],), (0, 1)), (("Gx:0", "Gx:0"), (0, 1)),
         (("Gi",), (0, 1)), (("Gcnot:0:1", "Gy:1"), (0, 1)), (("Gy:1",), (0, 1))]
OLS = [("0",), ("1",), ("00",), ("11",), ("p1", "0"), ("p1", "1")]


def mkL(x): return Label([mkL(y) for y in x]) if isinstance(x, list) else Label(x.split(":")[0], tuple(int(k) for k in x.split(":")[1:]) or None)


def C(i):
    l, lines = CIRCS[i]
    return Circuit([mkL(x) for x in l], lines)


def tag(c, i): return Circuit(tuple(c.layertup) + (Label("#%d" % i),), c.line_labels) if i else c


def U(o): return o[0] if len(o) == 1 else o      # strings are accepted for 1-tuples


class M:
    """reference: circuit -> [[outcome, time, count], ...]"""

    def __init__(self, act="aggregate"):
        self.rows = collections.OrderedDict(); self.ols = []; self.reps = False; self.static = False; self.act = act
        self.aux = {}; self.olany = False

    def copy(self): return copy.deepcopy(self)

    def ol(self, o):
        if o not in self.ols: self.ols.append(o)

    def add(self, c, entries, overwrite, hasreps, zero=True):
        if self.act == "keepseparate":
            i = 0
            while tag(c, i) in self.rows: i += 1
            c = tag(c, i)
        for e in entries: self.ol(e[0])
        if hasreps: self.reps = True
        entries = [list(e) for e in entries if zero or e[2] != 0]
        if c in self.rows and not overwrite: self.rows[c] = self.rows[c] + entries
        else: self.rows[c] = entries
        return c

    def add_counts(self, c, cnts, zero=True):
        if self.act == "aggregate" and c in self.rows:
            r = self.rows[c]; t = int(max(e[1] for e in r)) + 1 if r else 0
            return self.add(c, [(o, t, n) for o, n in cnts], False, True, zero)
        return self.add(c, [(o, 0, n) for o, n in cnts], True, True, zero)


def counts(row, reps, t=None):
    d = collections.OrderedDict()
    for o, tt, n in row:
        if t is None or tt == t: d[o] = d.get(o, 0) + n
    return d


def steps(row):
    out = []
    for o, t, n in row:
        if not out or out[-1][0] != t: out.append((t, collections.OrderedDict()))
        out[-1][1][o] = out[-1][1].get(o, 0) + n
    return out


def agree(rec, ds, m, what):
    ck = rec.check
    keys = list(ds.keys())
    ck(keys == list(m.rows), what, "keys", [k.str for k in keys], [k.str for k in m.rows])
    ck(list(ds) == keys and len(ds) == len(m.rows) and [k for k, _ in ds.items()] == keys, what, "iteration order")
    ck(set(ds.get_outcome_labels()) == set(m.ols) and len(ds.get_outcome_labels()) == len(m.ols), what, "outcome labels", ds.get_outcome_labels(), m.ols)
    vals = list(ds.values()); its = [v for _, v in ds.items()]
    okdof = bool(m.rows); dof = {(a, b): 0 for a in (0, 1) for b in (0, 1)}
    for i, (c, row) in enumerate(m.rows.items()):
        w = what + " row " + c.str
        ck(c in ds and tuple(c.layertup) in ds or c.line_labels != ("*",), w, "membership")
        for r in (ds[c], vals[i], its[i]) if i == 0 else (ds[c],):
            ck([list(x) for x in r] == row, w, "entries", [list(x) for x in r], row)
        ck(len(r) == len(row) and list(r.outcomes) == [e[0] for e in row], w, "outcomes")
        for j in range(len(row)): ck(list(r[j]) == row[j], w, "raw item", j)
        cn = counts(row, m.reps)
        ck(dict(r.counts) == dict(cn), w, "counts", dict(r.counts), dict(cn))
        ck(r.as_dict() == dict(cn), w, "as_dict")
        ck(dict(r.allcounts) == {o: cn.get(o, 0) for o in m.ols}, w, "allcounts", dict(r.allcounts), cn)
        tot = sum(cn.values())
        ck(r.total == tot, w, "total", r.total, tot)
        for o in m.ols:
            ck(r[o] == cn.get(o, 0) and r[U(o)] == cn.get(o, 0), w, "row item", o, r[o])
            ck((o in r) == (o in cn), w, "outcome membership", o)
            if tot: ck(r.fraction(o) == cn.get(o, 0) / tot, w, "fraction", o)
        if tot: ck(dict(r.fractions) == {o: x / tot for o, x in cn.items()}, w, "fractions", r.fractions)
        try: r["nosuch"]
        except KeyError: pass
        else: ck(False, w, "unknown outcome accepted")
        ts = [e[1] for e in row]
        for t in set(ts):
            ct = counts(row, m.reps, t)
            ck(dict(r.counts_at_time(t)) == dict(ct) and dict(r[float(t) if t else 0.0]) == dict(ct), w, "counts at time", t)
        if all(e[2] == int(e[2]) for e in row):
            ex = [e for e in row for _ in range(int(e[2]))]
            ck(list(r.get_expanded_ol()) == [e[0] for e in ex] and list(r.get_expanded_times()) == [e[1] for e in ex], w, "expanded")
            ck([ds.ol[x] for x in r.get_expanded_oli()] == [e[0] for e in ex], w, "expanded oli")
        if ts == sorted(ts):
            S = steps(row)
            ck(list(r.get_times()) == [s[0] for s in S] and r.get_number_of_times() == len(S), w, "times")
            a, b = r.get_timeseries()
            ck(list(a) == [s[0] for s in S] and [dict(x) for x in b] == [dict(s[1]) for s in S], w, "timeseries dicts", b, S)
            a, b = r.get_timeseries_for_outcomes()
            ck(list(a) == [s[0] for s in S] and {o: list(x) for o, x in b.items()} == {o: [s[1].get(o, 0) for s in S] for o in m.ols}, w, "timeseries by outcome", b, S)
            a, b = r.timeseries("all")
            ck(list(a) == [s[0] for s in S] and list(b) == [sum(s[1].values()) for s in S], w, "timeseries(all)", b)
            T = sorted(set(ts) | {0.5, 100.0})[1:]
            for o in m.ols[:3]:
                a, b = r.timeseries(U(o))
                SS = [s for s in S if o in s[1]]
                ck(list(a) == [s[0] for s in SS] and list(b) == [s[1][o] for s in SS], w, "timeseries(outcome)", o, a, b)
                a, b = r.timeseries(o, T)
                ck(list(a) == T and list(b) == [dict(S).get(t, {}).get(o, 0) for t in T], w, "timeseries(outcome, timestamps)", o, T, a, b)
            a, b = r.timeseries("all", T)
            ck(list(a) == T and list(b) == [sum(dict(S).get(t, {}).values()) for t in T], w, "timeseries(all, timestamps)", T, a, b)
            if m.reps and S:
                a, b = r.get_reps_timeseries()
                ck(list(a) == [s[0] for s in S] and list(b) == [sum(s[1].values()) for s in S], w, "reps timeseries")
                ck(bool(r.has_constant_totalcounts()) == (len(set(b)) == 1), w, "constant totals")
            if len(S) > 1: ck(abs(r.get_meantimestep() - (S[-1][0] - S[0][0]) / (len(S) - 1)) < 1e-9, w, "mean time step")
            for ag in (0, 1):
                for al in (0, 1):
                    for g in ([row] if ag else [[e for e in row if e[1] == s[0]] for s in S]):
                        dof[ag, al] += (len(m.ols) if al else len(set(e[0] for e in g))) - 1
        if not row or ts != sorted(ts): okdof = False
        ck(dict(r.aux) == m.aux.get(c, {}), w, "auxiliary info", dict(r.aux), m.aux.get(c, {}))
    if m.rows:
        for (ag, al), v in dof.items() if okdof else ():
            g = ds.get_degrees_of_freedom(None, "all_outcomes-1" if al else "present_outcomes-1", bool(ag))
            ck(g == v, what, "degrees of freedom", ag, al, g, v)
        ck(bool(ds.has_trivial_timedependence()) == all(e[1] == 0 for r in m.rows.values() for e in r), what, "trivial time dependence")
        ck(bool(ds.has_constant_totalcounts()) == (len(set(sum(e[2] for e in r) for r in m.rows.values())) == 1), what, "constant total counts")
    for c in [C(i) for i in range(len(CIRCS))]:
        if c not in m.rows:
            ck(c not in ds, what, "phantom circuit")
            try: ds[c]
            except KeyError: pass
            else: ck(False, what, "row of a missing circuit")


def frozen(rec, ds, m):
    """a static data set refuses every modification"""
    for f in [lambda: ds.add_count_dict(C(0), {"0": 1}), lambda: ds.__setitem__(C(1), {"0": 1}), lambda: ds.add_raw_series_data(C(1), ["0"], [1]),
              lambda: ds.process_circuits(lambda c: c), lambda: ds.build_repetition_counts() if not m.reps else ds.add_count_dict(C(0), {}),
              lambda: ds.add_series_data(C(0), [{"0": 1}], [2])] + \
            [g for c, r in m.rows.items() for g in (lambda c=c: ds.__delitem__(c), lambda c=c: ds.remove([c]), lambda c=c: ds[c].scale(2))] + \
            [g for c, r in m.rows.items() if r for g in (lambda c=c, r=r: ds[c].__setitem__(0, (r[0][0], 9, 1)), lambda c=c, r=r: ds[c].__setitem__(r[0][0], 77))]:
        try: f()
        except (ValueError, AssertionError): continue
        rec.check(False, "static data set accepted a modification")


CNT = st.one_of(st.integers(0, 60), st.integers(0, 60), st.integers(0, 40).map(lambda k: k / 4.0))
ENT = st.tuples(st.integers(0, 5), st.sampled_from([0, 0, 1, 2, 2.5, 7]), CNT)
KINDS = ["counts", "counts", "counts", "raw", "raw", "raw1", "series", "setd", "sets", "rowset", "rowraw", "del", "remove", "proc", "rename",
         "build", "scale", "addds", "copy", "copyns", "trunc", "slice", "merge", "fmerge", "static", "aux", "occ", "mdagg", "new"]
OP = st.tuples(st.sampled_from(KINDS), st.integers(0, 3), st.integers(0, 3), st.integers(0, 7), st.integers(0, 7), st.lists(ENT, min_size=1, max_size=4),
               st.integers(0, 7))


@st.composite
def hist(draw):
    return {"ops": draw(st.lists(OP, min_size=2, max_size=14)), "act": draw(st.sampled_from(["aggregate", "overwrite", "keepseparate", "aggregate"])),
            "pre": draw(st.lists(st.integers(0, 5), max_size=2, unique=True)), "sort": draw(st.integers(0, 4)) > 0}


@facet(hist, quick=2400, rule="at least five operations took effect and two data sets were live")
def history(case, rec):
    m = M(case["act"]); m.ols = [OLS[i] for i in case["pre"]]
    ds = DataSet(outcomeLabels=[U(o) for o in m.ols], collisionAction=case["act"])
    S = [(ds, m)]; eff = 0
    for k, a, b, i, j, ents, f in case["ops"]:
        a %= len(S); ds, m = S[a]; c, c2 = C(i), C(j)
        od, om = S[b % len(S)]
        ents = [(OLS[o], t, n) for o, t, n in ents]
        if case["sort"]: ents.sort(key=lambda e: e[1])
        mut = k in ("counts", "raw", "raw1", "series", "setd", "sets", "rowset", "rowraw", "del", "remove", "proc", "build", "scale", "addds", "occ")
        if m.static and mut: frozen(rec, ds, m); continue
        zero = not f & 1; ow = bool(f & 2)
        cd = collections.OrderedDict((o, n) for o, t, n in ents)
        if k in ("counts", "setd", "occ"):
            d = {U(o): n for o, n in cd.items()}
            if f & 4: d = collections.OrderedDict(d); pairs = list(cd.items())
            else:
                if not all(isinstance(x, str) for x in d) : d = {o: n for o, n in cd.items()}
                pairs = [(o if isinstance(o, tuple) else (o,), d[o]) for o in sorted(d)]
            if k == "counts":
                ds.add_count_dict(c, d, recordZeroCnts=zero, aux={"x": i} if ow else None)
                cc = m.add_counts(c, pairs, zero)
                if ow: m.aux[cc] = {"x": i}
            elif k == "setd":
                ds[c] = d; act, m.act = m.act, "overwrite"; m.add_counts(c, pairs); m.act = act
            else:
                ds.set_row(c, d, occurrence=1 + j % 2); m.add_counts(tag(c, 1 + j % 2), pairs)
                rec.check([tuple(x) for x in ds.get_row(c, 1 + j % 2)] != [] or not pairs, "get_row(occurrence)")
        elif k == "raw":
            ds.add_raw_series_data(c, [U(e[0]) for e in ents], [e[1] for e in ents], [e[2] for e in ents], ow, zero, {"y": j} if f & 4 else None)
            cc = m.add(c, ents, ow, True, zero)
            if f & 4: m.aux[cc] = {"y": j}
        elif k == "raw1":
            ds.add_raw_series_data(c, [e[0] for e in ents], [e[1] for e in ents], None, ow, zero); m.add(c, [(o, t, 1) for o, t, n in ents], ow, False)
        elif k == "series":
            ts = []; dl = []
            for o, t, n in ents:
                if not ts or ts[-1] != t: ts.append(t); dl.append(collections.OrderedDict())
                dl[-1][o] = n
            ds.add_series_data(c, dl, ts, ow, zero); m.add(c, [(o, t, n) for t, d in zip(ts, dl) for o, n in d.items()], ow, True, zero)
        elif k == "sets":
            ds[c] = ([U(e[0]) for e in ents], [e[1] for e in ents], [e[2] for e in ents]); act, m.act = m.act, "overwrite"; m.add(c, ents, True, True); m.act = act
        elif k in ("rowset", "rowraw"):
            if not m.rows: continue
            c = list(m.rows)[i % len(m.rows)]; r = m.rows[c]
            if not r: continue
            if k == "rowraw":
                o, t, n = ents[0]; o = r[j % len(r)][0]; n = n if m.reps else 1
                ds[c][j % len(r)] = (U(o), t, n); r[j % len(r)][:] = [o, t, n]
            else:
                if not m.reps or len(set(e[1] for e in r)) > 1: continue
                o = r[j % len(r)][0]; ds[c][U(o)] = ents[0][2]; next(e for e in r if e[0] == o)[2] = ents[0][2]
        elif k in ("del", "remove"):
            if not m.rows: continue
            c = list(m.rows)[i % len(m.rows)]
            if k == "del": del ds[c]; del m.rows[c]
            else:
                L = list(dict.fromkeys([c, list(m.rows)[j % len(m.rows)]]))
                if f & 1: ds.remove(L + [Circuit(["Gnone"])], missingAction="ignore")
                else: ds.remove(L)
                for x in L: del m.rows[x]; m.aux.pop(x, None)
            if c in m.aux: m.aux.pop(c); ds.auxInfo.pop(c, None)
        elif k == "proc":
            def fn(x):
                if f & 4 and len(x) == 0: return None
                return Circuit(x.layertup[:-1] if len(x) > 1 else x.layertup, x.line_labels)
            nw = collections.OrderedDict(); naux = {}
            for x, r in m.rows.items():
                y = fn(x)
                if y is None: continue
                if y in nw and f & 1: nw[y] = nw[y] + r
                else: nw[y] = r
            if m.aux: ds.auxInfo.clear(); m.aux = {}
            ds.process_circuits(fn, aggregate=bool(f & 1)); m.rows = nw
        elif k == "rename":
            if m.static and not f & 4: continue
            nm = {o: ("n" + o[0],) + o[1:] for o in m.ols if (f >> OLS.index(o) % 3) & 1} if all(o in OLS for o in m.ols) else {}
            ds.rename_outcome_labels({U(o): U(x) for o, x in nm.items()})
            m.ols = [nm.get(o, o) for o in m.ols]
            for r in m.rows.values():
                for e in r: e[0] = nm.get(e[0], e[0])
        elif k == "build": ds.build_repetition_counts(); m.reps = True
        elif k == "scale":
            if not m.rows or not m.reps: continue
            c = list(m.rows)[i % len(m.rows)]; ds[c].scale([2, 0.5, 1, 4][j % 4])
            for e in m.rows[c]: e[2] *= [2, 0.5, 1, 4][j % 4]
        elif k == "addds":
            if od is ds: continue
            ds.add_counts_from_dataset(od)
            if om.reps and om.rows: m.reps = True
            for x, r in om.rows.items(): m.add(x, r, False, om.reps)
        elif k in ("copy", "copyns"):
            n = ds.copy() if k == "copy" else ds.copy_nonstatic()
            if n is ds: continue
            nm = m.copy(); nm.static = False; put(S, (n, nm), f)
        elif k == "trunc":
            L = list(dict.fromkeys([list(m.rows)[x % len(m.rows)] for x in (i, j, f)])) if m.rows else []
            missing = C(i) not in m.rows
            if missing:
                try: ds.truncate(L + [C(i)])
                except KeyError: pass
                else: rec.check(False, "truncate to a missing circuit accepted")
            n = ds.truncate(L + ([C(i)] if missing else []), missingAction="ignore" if missing or f & 1 else "raise")
            nm = M(); nm.static = m.static; nm.rows = collections.OrderedDict((x, copy.deepcopy(m.rows[x])) for x in L)
            present = set(e[0] for r in nm.rows.values() for e in r)
            nm.ols = [o for o in m.ols if o in present]; nm.reps = m.reps and (m.static or bool(L))
            rec.check(bool(n.bStatic) == m.static, "truncated data set static")
            put(S, (n, nm), f)
        elif k == "slice":
            lo, hi = sorted((ents[0][1], ents[-1][1])); hi += f & 1
            at = None if not f & 2 else 3
            n = ds.time_slice(lo, hi, aggregateToTime=at); nm = M(); nm.static = True; nm.ols = list(m.ols); nm.reps = bool(m.rows)
            for x, r in m.rows.items():
                rr = [list(e) for e in r if lo <= e[1] < hi]
                if at is not None:
                    d = counts(rr, True); rr = [[o, at, d[o]] for o in n.get_outcome_labels() if d.get(o, 0) > 0]
                nm.rows[x] = rr
            put(S, (n, nm), f)
        elif k in ("merge", "fmerge"):
            if not m.rows or any(not r for r in m.rows.values()): continue
            if k == "fmerge" and any([e[1] for e in r] != sorted(e[1] for e in r) for r in m.rows.values()): continue
            ml = {}
            for x, o in enumerate(m.ols): ml.setdefault(("A", "B", "C")[(x + (i if f & 2 else 0)) % (1 + j % 3)], []).append(U(o))
            back = {(o if isinstance(o, tuple) else (o,)): (g,) for g, L in ml.items() for o in L}
            n = ds.merge_outcomes(ml, recordZeroCnts=zero) if k == "merge" else dc.merge_outcomes(ds, ml, recordZeroCnts=zero)
            if len(ml) > 1:
                bad = dict(ml); bad.pop(max(ml))
                try: ds.merge_outcomes(bad)
                except ValueError: pass
                else: rec.check(False, "incomplete merge accepted")
            # content: per circuit and time step the merged counts
            rec.check(list(n.keys()) == list(m.rows) and n.bStatic, k, "keys of merged data set")
            nm = M(); nm.static = True; nm.reps = True; nm.ols = list(n.get_outcome_labels())
            rec.check(set(nm.ols) <= set((g,) for g in ml), k, "labels", nm.ols)
            for x, r in m.rows.items():
                want = [(t, {}) for t, d in steps(r)]
                for (t, d), (_, w) in zip(steps(r), want):
                    for o, v in d.items(): w[back[o]] = w.get(back[o], 0) + v
                got = [list(e) for e in n[x]]
                gs = steps(got)
                nz = lambda S_: [(t, {o: v for o, v in d.items() if v}) for t, d in S_ if any(d.values())]
                rec.check(nz(gs) == nz(want), k, "merged counts", x.str, gs, want)
                if zero: rec.check(all(len(d) == len(ml) for t, d in gs) and len(gs) == len(want), k, "zero counts recorded", gs)
                nm.rows[x] = got
            if k == "fmerge": nm.aux = {x: dict(v) for x, v in m.aux.items() if x in m.rows}
            put(S, (n, nm), f)
        elif k == "static":
            if f & 1 and not m.static: ds = ds.copy(); m = m.copy(); put(S, (ds, m), f)
            ds.done_adding_data(); m.static = True; ds.done_adding_data()
        elif k == "aux":
            if not m.rows: continue
            c = list(m.rows)[i % len(m.rows)]; ds.add_auxiliary_info(c, {"a": j, "b": [f]}); m.aux[c] = {"a": j, "b": [f]}
        elif k == "mdagg":
            if not (m.static and om.static and om is not m) or set(m.rows) != set(om.rows) or not m.rows or any(not r for x in (m, om) for r in x.rows.values()): continue
            md = MultiDataSet(); md.add_dataset("a", ds); md.add_dataset("b", od); rec.note("mdagg")
            for nm_, mm in (("a", m), ("b", om)):
                for x, r in mm.rows.items(): rec.check({o: v for o, v in md[nm_][x].counts.items() if v} == {o: v for o, v in counts(r, 1).items() if v}, "multi data set row", x.str)
            continue
        elif k == "new":
            if len(S) > 3: continue
            S.append((DataSet(collisionAction="keepseparate" if f & 1 else "aggregate"), M("keepseparate" if f & 1 else "aggregate")))
        eff += 1; rec.note(k)
        for q, (d_, m_) in enumerate(S): agree(rec, d_, m_, "%s: data set %d" % (k, q))
    rec.nt(eff >= 5 and len(S) > 1)
    for ds, m in S:
        if m.static: frozen(rec, ds, m); agree(rec, ds, m, "after refused modifications")
        else: ds.done_adding_data(); m.static = True; agree(rec, ds, m, "finally static")


def put(S, x, f):
    if len(S) < 4: S.append(x)
    else: S[f % 4] = x


# ---------------------------------------------------------------------------- several data sets
@st.composite
def multi(draw):
    n = draw(st.integers(1, 4))
    circs = draw(st.lists(st.integers(0, 7), min_size=1, max_size=5, unique=True))
    sets = []
    for _ in range(n):
        rows = [[c, draw(st.lists(ENT, min_size=1, max_size=4))] for c in (draw(st.permutations(circs)) if draw(st.booleans()) else circs)]
        sets.append({"rows": rows, "reps": draw(st.booleans()), "aux": draw(st.lists(st.integers(0, 7), max_size=2)), "like": draw(st.integers(0, 2)) == 0})
    return {"sets": sets, "agg": draw(st.lists(st.integers(0, 3), min_size=1, max_size=4, unique=True)), "copy": draw(st.booleans()), "extra": draw(st.booleans())}


@facet(multi, quick=2500, rule="at least two data sets with different orders, lengths or outcome labels")
def multidataset(case, rec):
    md = MultiDataSet(); ms = []; live = []; first = None; shapes = set(); aux = {}
    for q, s in enumerate(case["sets"]):
        m = M(); ds = DataSet()
        for c, ents in s["rows"]:
            ents = sorted([(OLS[o], t, n if s["reps"] else 1) for o, t, n in ents], key=lambda e: e[1])
            if s["like"] and first is not None: ents = [(e[0], e[1], e[2] if s["reps"] else 1) for e in first[C(c)]]
            ds.add_raw_series_data(C(c), [e[0] for e in ents], [e[1] for e in ents], [e[2] for e in ents] if s["reps"] else None)
            m.add(C(c), ents, True, s["reps"])
        if first is None: first = m.rows
        for x in s["aux"]:
            if C(x) in m.rows: ds.add_auxiliary_info(C(x), {"k%d" % q: x}); m.aux[C(x)] = {"k%d" % q: x}; aux.setdefault(C(x), {})["k%d" % q] = x
        ds.done_adding_data(); m.static = True
        shapes.add((tuple(c.str for c in m.rows), tuple(len(r) for r in m.rows.values()), tuple(m.ols)))
        name = "ds%d" % q
        if q % 2: md[name] = ds
        else: md.add_dataset(name, ds)
        ms.append((name, ds, m)); live.append((name, md[name]))
        # every previously added or retrieved data set is unaffected
        for nm, d, mm in ms: agree(rec, d, mm, "source " + nm)
        check_md(rec, md, ms, aux)
    rec.nt(len(shapes) > 1)
    ds = DataSet(); ds.add_count_dict(C(0), {"0": 1}); 
    for bad in (ds, None):
        if bad is None: ds = DataSet(); ds.add_count_dict(Circuit(["Gother"]), {"0": 1}); ds.done_adding_data(); bad = ds
        try: md.add_dataset("bad", bad)
        except ValueError: continue
        rec.check(False, "unsuitable data set accepted")
    names = [ms[i % len(ms)][0] for i in case["agg"]]; names = list(dict.fromkeys(names))
    if all(r for _, _, m in ms for r in m.rows.values()):
        ag = md.get_datasets_aggregate(*names)
        for c in ms[0][2].rows:
            want = {}
            for nm, d, m in ms:
                if nm in names:
                    for o, t, n in m.rows[c]: want[o, t] = want.get((o, t), 0) + n
            got = {}
            for o, t, n in ag[c]: got[o, t] = got.get((o, t), 0) + n
            rec.check({k: v for k, v in got.items() if v} == {k: v for k, v in want.items() if v}, "aggregate", names, c.str, got, want)
        rec.check(ag.bStatic and set(ag.keys()) == set(ms[0][2].rows), "aggregate keys")
    cp = md.copy(); check_md(rec, cp, ms, aux)
    if case["extra"]:
        m = M(); ds = DataSet()
        for c in ms[0][2].rows: ds.add_count_dict(c, {"zz": 3, "0": 2}); m.add_counts(c, [(("0",), 2), (("zz",), 3)])
        ds.done_adding_data(); m.static = True
        cp.add_dataset("x", ds); cp.add_auxiliary_info(list(m.rows)[0], {"n": 1})
        check_md(rec, md, ms, aux)
        a2 = dict(aux); a2[list(m.rows)[0]] = {"n": 1}
        check_md(rec, cp, ms + [("x", ds, m)], a2)


def check_md(rec, md, ms, aux):
    rec.check(list(md.keys()) == [n for n, _, _ in ms] and len(md) == len(ms) and list(md) == list(md.keys()), "names")
    ols = set(o for _, _, m in ms for o in m.ols)
    rec.check(set(md.get_outcome_labels()) == ols, "labels", md.get_outcome_labels(), ols)
    it = dict(md.items()); vals = list(md.values())
    for q, (n, ds, m) in enumerate(ms):
        rec.check(n in md, "membership")
        for d in (md[n], it[n], vals[q]):
            rec.check(set(d.keys()) == set(m.rows) and d.bStatic, "keys of", n)
            for c, r in m.rows.items():
                nz = lambda x: [tuple(e) for e in x if e[2]]
                rec.check(nz(d[c]) == nz(r), "rows of", n, c.str, list(d[c]), r)
                rec.check(d[c].total == sum(e[2] for e in r), "total")
                rec.check(dict(d[c].aux) == aux.get(c, {}), "aux", dict(d[c].aux), aux.get(c))


# ---------------------------------------------------------------------------- marginals over qubits
@st.composite
def marg(draw):
    n = draw(st.integers(2, 4))
    lines = draw(st.sampled_from([list(range(n)), ["Q%d" % i for i in range(n)]]))
    keep = list(draw(st.permutations(range(n))))[:draw(st.integers(1, n))]
    circs = draw(st.lists(st.lists(layer_of(lines, args=True, time=False, names={1: ["Gx", "Gy"], 2: ["Gcnot"]}), max_size=3), min_size=1, max_size=4))
    rows = [draw(st.lists(st.tuples(st.integers(0, 2**n - 1), st.sampled_from([0, 0, 1, 2]), CNT), min_size=1, max_size=5)) for _ in circs]
    return {"n": n, "lines": lines, "keep": keep, "circs": circs, "rows": rows, "new": draw(st.integers(0, 2)), "zero": draw(st.booleans()), "filt": draw(st.integers(0, 3)) > 0}


@facet(marg, quick=1500, rule="some but not all qubits kept and a multi-qubit gate present")
def marginal(case, rec):
    n, lines, keep = case["n"], case["lines"], case["keep"]
    ds = DataSet(); model = []
    for lay, ents in zip(case["circs"], case["rows"]):
        c = Circuit([mk_layer(l) for l in lay], tuple(lines))
        ents = sorted([(format(o, "0%db" % n), t, k) for o, t, k in ents], key=lambda e: e[1])
        if c in ds: continue
        ds.add_raw_series_data(c, [e[0] for e in ents], [e[1] for e in ents], [e[2] for e in ents]); model.append((c, lay, ents))
    kl = [lines[i] for i in keep]
    rec.nt(len(keep) < n and any(len(s["s"]) > 1 for l in case["circs"] for lay in l for s in lay)); rec.note("new%d" % case["new"], "filt%d" % case["filt"])
    newl = {0: None, 1: [10 + i for i in range(len(kl))], 2: kl[::-1]}[case["new"]]
    kw = dict(sindices_to_keep=None if lines[0] == 0 and case["zero"] else keep, recordZeroCnts=case["zero"])
    before = {c: [list(e) for e in ds[c]] for c in ds}
    out = dc.filter_dataset(ds, kl, new_sectors=newl, filtercircuits=case["filt"], **kw)
    rec.check({c: [list(e) for e in ds[c]] for c in ds} == before, "source altered")
    mp = dict(zip(kl, newl or kl))
    want = collections.OrderedDict()
    for c, lay, ents in model:
        if case["filt"]:
            ls = []; bad = False
            for l in lay:
                L = []
                for s in l:
                    k = set(s["s"]) & set(kl)
                    if k == set(s["s"]): L.append(dict(s, s=[mp[x] for x in s["s"]]))
                    elif k: bad = True
                ls.append(L)
            if bad: continue
            c = Circuit([mk_layer(l) for l in ls], tuple(newl or kl))
        w = want.setdefault(c, {})
        for o, t, k in ents:
            o = "".join(o[i] for i in keep); w[(o,), t] = w.get(((o,), t), 0) + k
    rec.check(set(out.keys()) == set(want), "circuits", [c.str for c in out], [c.str for c in want])
    for c, w in want.items():
        g = {}
        for o, t, k in out[c]: g[o, t] = g.get((o, t), 0) + k
        rec.check({k: v for k, v in g.items() if v} == {k: v for k, v in w.items() if v}, "marginal counts", c.str, g, w)
    md = dc.create_qubit_merge_dict(n, keep)
    rec.check(sorted(x for v in md.values() for x in v) == [format(i, "0%db" % n) for i in range(2**n)] and all("".join(x[i] for i in keep) == k for k, v in md.items() for x in v), "create_qubit_merge_dict")
    # equal numbers of time steps
    tr = dc.trim_to_constant_numtimesteps(ds)
    k = min(len(steps(e)) for _, _, e in model)
    for c, lay, ents in model:
        S = steps(ents)[:k]; a, b = tr[c].get_timeseries()
        rec.check(list(a) == [s[0] for s in S] and [{o[0]: v for o, v in x.items()} for x in b] == [dict(s[1]) for s in S], "trim_to_constant_numtimesteps", c.str)
