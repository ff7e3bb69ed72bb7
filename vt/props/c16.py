"""C16: simulated data follow the model and the seed."""
TECH = "Hypothesis: generated models, circuit lists, sample numbers, sampling modes, seeds, time stamps and aliases; simulated counts compared with an independent dense simulation (exact for the modes without sampling error, support, totals and concentration bounds otherwise), seeds compared metamorphically, merged and filtered data with a dictionary reference"
NOTE = "Generated-input search: explicit models on 1-2 qubits, <= 6 circuits, <= 10^6 samples; frequencies are judged by a bound that correct sampling exceeds with probability < 1e-9 (seeds are recorded)."
import itertools, warnings
import numpy as np
from hypothesis import strategies as st
from vt import facet, models as M
from vt.gen import *
from vt.mstrat import *
import pygsti
import pygsti.objects as po, pygsti.construction as pc
from pygsti.objects import Circuit, Label
warnings.simplefilter("ignore")

PHYS = ["static", "tp", "full", "depol", "stoch", "composed", "embedded", "lind:CPTP", "lind:H+S", "lind:GLND", "exp"]
key = lambda c: str((c[1], [y for l in c[2] for y in flat(l)], c[3]))
oc = lambda o: o if len(o) > 1 else o[0]


@st.composite
def cases(draw):
    s = draw(explicit_specs(kinds=PHYS)); cs = ecircs(draw, 1, 6)
    return {"m": s, "c": cs, "dup": draw(st.booleans()), "mode": draw(st.sampled_from(["multinomial", "multinomial", "binomial", "none", "clip", "round"])),
            "N": draw(st.one_of(st.sampled_from([0, 1, 7, 100, 1000, 10**5, 10**6]), st.lists(st.sampled_from([1, 3, 50, 500, 10**4]), min_size=12, max_size=12))),
            "seed": draw(seeds), "times": draw(st.sampled_from([None, None, None, [0.0], [0.0, 1.5, 2.0]])), "zero": draw(st.booleans()), "alias": draw(st.sampled_from([None, None, [0, 0]])),
            "col": draw(st.sampled_from(["aggregate", "keepseparate"])), "sim": draw(st.sampled_from(["matrix", "map"])), "arr": draw(st.booleans())}


def table(ds, c, occ=0):
    return {k: float(v) for k, v in ds.get_row(c, occ).counts.items()}


def rows(ds):
    out = []
    for c in ds.keys():
        r = ds[c]; t, s = r.get_timeseries(); out.append((c.str, [float(x) for x in t], [{k: float(v) for k, v in x.items()} for x in s]))
    return sorted(out, key=str)


def ok_freq(n, N, p): return abs(n - N * p) <= 7 * np.sqrt(max(N * p * (1 - p), 0)) + 12


@facet(lambda: cases(), quick=240, rule="a circuit has two outcomes that are neither impossible nor certain", case_s=60)
def generate(case, rec):
    spec = case["m"]; m = M.explicit(spec); m.set_simtype("map" if case["times"] else case["sim"]); mode, times = case["mode"], case["times"]
    labs = list(m.operations.keys()); cs, seen = [], set()
    for c in case["c"]:
        if case["alias"]: c = dict(c, l=[x for x in c["l"] if not isinstance(x, list)])
        t = make_circuit(spec, m, c)
        if t[0] in seen: continue
        seen.add(t[0]); cs.append(t)
    al = None; new = Label("Galias"); circs = [t[0] for t in cs]
    if case["alias"]:        # some operation is called Galias in the circuits asked for
        src = labs[0]; sub = [labs[i % len(labs)] for i in case["alias"]]; al = {"Galias": tuple(sub)}
        cs2 = []
        for c, pl, lay, vl in cs:
            cs2.append((Circuit([new if l == src else l for l in c], tuple(spec["lines"])), pl, [y for l in lay for y in (sub if l == src else [l])], vl))
        cs = cs2; circs = [t[0] for t in cs]
    P = [dense_probs(m, *t[1:]) for t in cs]
    if mode == "binomial": rec.skip(any(len(p) != 2 for p in P))
    N = case["N"]; idx = list(range(len(circs)))
    if case["dup"]: idx = idx + idx[:2]
    Ns = [N[j] for j in range(len(idx))] if isinstance(N, list) else [N] * len(idx)
    if isinstance(N, int) and N == 0: rec.skip(mode in ("multinomial", "binomial") and False)
    Narg = (np.array(Ns) if case["arr"] else list(Ns)) if isinstance(N, list) else N
    rec.note(mode, "times" if times else "", "alias" if al else "", case["col"] if case["dup"] else "")
    if times and case["dup"]: rec.skip(True)
    kw = dict(aliasDict=al, collisionAction=case["col"], recordZeroCnts=case["zero"], times=times)
    ask = [circs[i] for i in idx]; np.random.seed(case["seed"] % 1000)
    ds = pc.generate_fake_data(m, ask, Narg, mode, seed=case["seed"], **kw)
    rec.check(sorted({c.str for c in ds.keys(stripOccurrenceTags=True)}) == sorted({c.str for c in ask}), "circuits", [c.str for c in ds.keys()], [c.str for c in ask])
    T = len(times) if times else 1; flatdraws = []
    for i in range(len(circs)):
        js = [j for j in range(len(idx)) if idx[j] == i]; p = P[i]
        q = {o: min(max(v, 0.0), 1.0) for o, v in p.items()}; s = sum(q.values())
        if abs(s - 1) > 1e-10 and mode in ("multinomial", "binomial"): q = {o: v / s for o, v in q.items()}
        rec.nt(sum(0.01 < v < 0.99 for v in q.values()) > 1)
        groups = [js] if case["col"] == "aggregate" or len(js) == 1 else [[j] for j in js]
        cc = circs[i]
        for g, grp in enumerate(groups):
            row = ds.get_row(cc, g) if len(groups) > 1 else ds[cc]
            tt, ser = row.get_timeseries()
            if times: rec.check(list(map(float, tt)) == times or all(n == 0 for n in Ns) or (mode in ("round", "clip", "none") and not case["zero"]), "time stamps", list(tt), times)
            cnt = {k: float(v) for k, v in row.counts.items()}; tot = sum(Ns[j] for j in grp)
            rec.check(set(cnt) <= set(p), "outcomes", sorted(cnt), sorted(p))
            if not case["zero"]: rec.check(all(v != 0 for v in cnt.values()), "zero counts recorded", cnt)
            elif tot > 0: rec.check(set(cnt) == set(p), "zero counts not recorded", sorted(cnt), sorted(p))
            per = [{k: float(v) for k, v in x.items()} for x in ser] if times else [cnt]
            if times and len(per) < T: per = []
            for c in per:
                if mode in ("multinomial", "binomial"):
                    rec.check(abs(sum(c.values()) - tot) < 1e-9, "total", sum(c.values()), "asked for", tot)
                    for o in p:
                        n = c.get(o, 0.0)
                        rec.check(n == int(n) and n >= 0, "count", n)
                        if q[o] <= 1e-13: rec.check(n == 0, "impossible outcome seen", o, n)
                        rec.check(ok_freq(n, tot, q[o]), "frequency", n, "of", tot, "for probability", q[o])
                        if len(grp) == 1 and tot * q[o] * (1 - q[o]) > 50: flatdraws.append((n - tot * q[o]) / np.sqrt(tot * q[o] * (1 - q[o])))
                else:
                    for o in p:
                        w = p[o] if mode == "none" else min(max(p[o], 0.0), 1.0); n = c.get(o, 0.0)
                        if mode == "round": rec.check(n == int(n) and abs(n - sum(Ns[j] * w for j in grp)) <= 0.5 * len(grp) + 1e-5, "rounded count", n, tot * w)
                        else: rec.check(abs(n - tot * w) <= 1e-6 * (1 + tot * max(1, abs(w))), "expected count", o, n, "N*p", tot * w)
    # pooled: standardised counts of correct sampling have unit variance
    if len(flatdraws) >= 6: rec.check(np.mean(np.square(flatdraws)) < 12, "spread of the sampled counts", flatdraws[:10])
    # seeds
    np.random.seed(5); again = pc.generate_fake_data(m, ask, Narg, mode, seed=case["seed"], **kw)
    rec.check(rows(again) == rows(ds), "same seed, other data")
    rs = pc.generate_fake_data(m, ask, Narg, mode, randState=np.random.RandomState(case["seed"]), **kw)
    rec.check(rows(rs) == rows(ds), "random state with that seed, other data")
    if mode in ("multinomial", "binomial") and len(flatdraws) >= 2:
        z = rows(ds); r = np.random.RandomState(case["seed"])
        a = [rows(pc.generate_fake_data(m, ask, Narg, mode, seed=case["seed"] + 1 + k, **kw)) for k in range(6)]
        rec.check(any(x != z for x in a), "every seed gives the same data")
        b = [rows(pc.generate_fake_data(m, ask, Narg, mode, randState=r, **kw)) for k in range(7)]
        rec.check(b[0] == z and any(x != z for x in b), "a random state in use gives the same data again")
        c = [rows(pc.generate_fake_data(m, ask, Narg, mode, **kw)) for k in range(6)]
        rec.check(any(x != c[0] for x in c), "data without a seed are always the same")
    elif mode in ("none", "clip", "round"):
        rec.check(rows(pc.generate_fake_data(m, ask, Narg, mode, seed=case["seed"] + 1, **kw)) == rows(ds), "data without sampling error depend on the seed")
    rec.check(all(np.allclose(list(dense_probs(m, *t[1:]).values()), list(p.values())) for t, p in zip(cs, P)), "the model was changed")


# ---------------------------------------------------------------------------------- other copies of a circuit are independent
@facet(st.fixed_dictionaries({"m": explicit_specs(kinds=PHYS, nq=1, nops=1, one=True, inst=False), "k": st.integers(3, 8), "seed": seeds}), quick=60, rule="always", case_s=30)
def repeats(case, rec):
    m = M.explicit(case["m"]); l = list(m.operations.keys())[0]; lines = tuple(case["m"]["lines"]); c = Circuit([l], lines); rec.nt()
    p = dense_probs(m, list(m.preps.keys())[0], [l], list(m.povms.keys())[0]); q = [min(max(v, 0), 1) for v in p.values()]; N = 4000
    ds = pc.generate_fake_data(m, [c] * case["k"], N, seed=case["seed"], collisionAction="keepseparate")
    rec.check(len(ds) == case["k"], "number of rows", len(ds)); t = [tuple(sorted(ds.get_row(c, i).counts.items())) for i in range(case["k"])]
    if max(x * (1 - x) for x in q) > 0.05 and case["k"] >= 6: rec.check(len(set(t)) > 1, "all copies of a circuit have the same counts", t)
    d1 = pc.generate_fake_data(m, [c] * case["k"], N, seed=case["seed"]); rec.check(sum(d1[c].counts.values()) == N * case["k"], "aggregated total", d1[c].counts)
    for o in d1[c].counts: rec.check(d1[c].counts[o] == sum(dict(x).get(o, 0) for x in t), "aggregated counts are not the sum of the separate ones")


# ---------------------------------------------------------------------------------- data simulated from data
dcount = st.sampled_from([0, 1, 2, 5, 33, 1000])


@facet(st.fixed_dictionaries({"rows": st.lists(st.lists(dcount, min_size=4, max_size=4), min_size=1, max_size=5), "k": st.integers(2, 4), "N": st.sampled_from([None, None, 10, 10**4, [3, 50, 7, 900, 20]]), "mode": st.sampled_from(["multinomial", "binomial", "none", "round"]), "seed": seeds, "zero": st.booleans()}), quick=200, rule="two circuits")
def from_data(case, rec):
    src = po.DataSet(); circs = []; outs = ["00", "01", "10", "11"][:case["k"]]
    if case["mode"] == "binomial": outs = ["0", "1"]
    for i, r in enumerate(case["rows"]):
        r = r[:len(outs)]
        if sum(r) == 0: r = [4] + r[1:]
        c = Circuit([Label("Gx")] * i, (0,)); src.add_count_dict(c, dict(zip(outs, r))); circs.append((c, dict(zip([(o,) for o in outs], r))))
    src.done_adding_data(); rec.nt(len(circs) > 1); rec.note(case["mode"])
    N = case["N"]; ds = pc.generate_fake_data(src, [c for c, _ in circs], N, case["mode"], seed=case["seed"], recordZeroCnts=case["zero"])
    rec.check(list(ds.keys()) == [c for c, _ in circs] and src.get_outcome_labels() == ds.get_outcome_labels(), "circuits or outcome labels")
    for i, (c, k) in enumerate(circs):
        tot = sum(k.values()); n = tot if N is None else (N[i] if isinstance(N, list) else N); got = {o: float(v) for o, v in ds[c].counts.items()}
        if case["mode"] in ("multinomial", "binomial"): rec.check(sum(got.values()) == n, "total", got, n)
        for o, v in k.items():
            g = got.get(o, 0.0); w = n * v / tot
            if case["mode"] == "none": rec.check(abs(g - w) < 1e-6 * (1 + n), "count", g, w)
            elif case["mode"] == "round": rec.check(g == int(g) and abs(g - w) <= 0.5 + 1e-9, "count", g, w)
            else: rec.check(ok_freq(g, n, v / tot) and (v > 0 or g == 0) and g == int(g), "count", o, g, "from", k, n)
    again = pc.generate_fake_data(src, [c for c, _ in circs], N, case["mode"], seed=case["seed"], recordZeroCnts=case["zero"]); rec.check(rows(again) == rows(ds), "same seed, other data")


# ---------------------------------------------------------------------------------- merging and filtering
@st.composite
def mcases(draw):
    n = draw(st.integers(1, 4)); k = draw(st.integers(1, 5)); T = draw(st.sampled_from([0, 0, 2, 3])); lines = draw(st.sampled_from([[0, 1, 2, 3], ["Q0", "Q1", "Q2", "Q3"], [5, 3, 1, 0]]))[:n]
    rows_ = []
    for _ in range(k):
        lay = draw(st.lists(layer_of(lines, args=False, time=False, max_lines=2), max_size=4))
        ts = [draw(st.dictionaries(st.integers(0, 2**n - 1), st.sampled_from([0, 1, 4, 50]), min_size=1, max_size=2**n).map(lambda d: [[a, b] for a, b in d.items()])) for _ in range(max(T, 1) if draw(st.booleans()) else 1)]
        rows_.append([lay, ts])
    return {"n": n, "lines": lines, "T": T, "rows": rows_, "keep": draw(subsets(list(range(n)), 1, n)), "zero": draw(st.booleans()), "new": draw(st.booleans()), "seed": draw(seeds)}


def canon(d): return sorted((str(c), [float(x) for x in t], [sorted((k, float(v)) for k, v in s.items() if v) for s in ser]) for c, t, ser in d)


@facet(lambda: mcases(), quick=220, rule="two outcomes are merged")
def merging(case, rec):
    n, lines, keep = case["n"], tuple(case["lines"]), case["keep"]; ds = po.DataSet(); ref = []; seen = set()
    for lay, ts in case["rows"]:
        c = Circuit([mk_layer(l) for l in lay], lines)
        if c in seen: continue
        seen.add(c); ser = [{(format(a, "0%db" % n),): float(b) for a, b in t} for t in ts]
        tm = [0.0] if not case["T"] else [1.0 + 0.5 * i for i in range(len(ser))]
        for x in ser:
            if not any(x.values()): x[next(iter(x))] = 3.0
        if not case["T"]: ser = ser[:1]; ds.add_count_dict(c, {o[0]: v for o, v in ser[0].items()})
        else: ds.add_series_data(c, [{o[0]: v for o, v in s.items()} for s in ser], tm)
        ref.append((c, tm, ser))
    ds.done_adding_data(); before = rows(ds); rec.nt(len(keep) < n); rec.note("times" if case["T"] else "")
    red = lambda o: ("".join(o[0][i] for i in keep),)
    def merged(s):
        out = {}
        for o, v in s.items(): out[red(o)] = out.get(red(o), 0.0) + v
        return out
    md = pc.create_qubit_merge_dict(n, keep); full = {}
    for b in itertools.product("01", repeat=n): full.setdefault("".join(b[i] for i in keep), []).append("".join(b))
    rec.check({k: sorted(v) for k, v in md.items()} == {k: sorted(v) for k, v in full.items()}, "create_qubit_merge_dict", md)
    want = [(c, t, [merged(s) for s in ser]) for c, t, ser in ref]
    nz = lambda w: [(c, [a for a, s in zip(t, ser) if any(s.values())], [s for s in ser if any(s.values())]) for c, t, ser in w]
    def have(d):
        out = []
        for c in d.keys():
            t, s = d[c].get_timeseries(); out.append((c, list(t), s))
        return canon(nz(out))
    rec.check(have(ds) == canon(nz(ref)), "data set before merging")
    f = pc.merge_outcomes(ds, md, recordZeroCnts=case["zero"]); rec.check(have(f) == canon(nz(want)), "merge_outcomes", have(f), canon(nz(want)))
    if not case["zero"]: rec.check(all(v > 0 for c in f.keys() for v in f[c].counts.values()), "zero counts recorded")
    g = ds.merge_outcomes(md, recordZeroCnts=case["zero"]); rec.check(have(g) == canon(nz(want)), "DataSet.merge_outcomes", have(g), canon(nz(want)))
    lacking = {k: v[:-1] for k, v in md.items()}; ol = {o[0] for o in ds.get_outcome_labels()}
    if not ol <= {x for v in lacking.values() for x in v}:
        for nm, fn in (("function", lambda: pc.merge_outcomes(ds, lacking)), ("method", lambda: ds.merge_outcomes(lacking))):
            try: fn(); rec.check(False, nm, "outcomes without a directive were accepted")
            except ValueError: pass
    # filtering to some lines
    sect = [lines[i] for i in keep]; newl = ["n%d" % i for i in range(len(keep))] if case["new"] else None
    h = pc.filter_dataset(ds, sect, sindices_to_keep=keep, filtercircuits=False, recordZeroCnts=case["zero"]); rec.check(have(h) == canon(nz(want)), "filter_dataset without circuits")
    h = pc.filter_dataset(ds, sect, sindices_to_keep=keep, new_sectors=newl, recordZeroCnts=case["zero"])
    ren = dict(zip(sect, newl)) if newl else {q: q for q in sect}; agg = {}
    for c, t, ser in want:
        k = []
        for L in c:
            cps = [x for x in (L.components if not L.issimple() else (L,))]
            kept = [Label(x.name, None if x.sslbls is None else tuple(ren[q] for q in x.sslbls)) for x in cps if x.sslbls is None or all(q in ren for q in x.sslbls)]
            k.append(tuple(kept))
        part = any(x.sslbls is not None and 0 < len(set(x.sslbls) & set(ren)) < len(x.sslbls) for L in c for x in (L.components if not L.issimple() else (L,)))
        if part: continue     # (documented: cannot be expressed on the kept lines, dropped)
        kk = str([sorted(map(str, x)) for x in k]); d = agg.setdefault(kk, {})
        for s in ser:
            for o, v in s.items(): d[o] = d.get(o, 0.0) + v
    got = {}
    for c in h.keys():
        kk = str([sorted(map(str, (L.components if not L.issimple() else (L,)))) for L in c]); d = got.setdefault(kk, {})
        for o, v in h[c].counts.items(): d[o] = d.get(o, 0.0) + v
        rec.check(tuple(c.line_labels) == tuple(newl or sect) or c.line_labels == "auto" or set(c.line_labels) <= set(newl or sect) | {"*"}, "line labels", c.line_labels)
    strip = lambda d: sorted((k, sorted((o, v) for o, v in x.items() if v)) for k, x in d.items())
    rec.check(strip(got) == strip(agg), "filter_dataset", strip(got), strip(agg))
    if case["T"]:
        tr = pc.trim_to_constant_numtimesteps(ds); k = min(len(s) for _, _, s in ref)
        if all(any(x.values()) for _, _, s in ref for x in s) : rec.check(have(tr) == canon([(c, t[:k], s[:k]) for c, t, s in ref]), "trim_to_constant_numtimesteps", have(tr))
    rec.check(rows(ds) == before, "the data set was changed")
