"""C18: constructed experiment lists contain exactly the specified circuits."""
TECH = "Hypothesis: generated fiducials, germs, length lists, truncation schemes, pair selections, aliases, rules and data filters; lists and structures compared with reference constructions on plain tuples of labels (set equality, no repeats, nesting), enumerations with brute force"
NOTE = "Generated-input search: <= 3+3 fiducials, <= 3 germs of length <= 3, lengths <= 9; random pair subsets are checked for size, membership and seed reproducibility."
import itertools, warnings
import numpy as np
from hypothesis import strategies as st
from vt import facet
from vt.gen import *
import pygsti
import pygsti.objects as po, pygsti.construction as pc
from pygsti.construction import circuitconstruction as gsc, stdlists as sl
from pygsti.objects import Circuit, Label, LsGermsStructure, LsGermsSerialStructure
warnings.simplefilter("ignore")

ALPH = {"bare": (["Gx", "Gy", "Gi"], ("*",)), "one": ([("Gx", 0), ("Gy", 0), ("Gi", 0)], (0,)),
        "two": ([("Gx", 0), ("Gy", 1), [("Gx", 0), ("Gy", 1)], ("Gcnot", 0, 1)], (0, 1))}


def lab(a, i):
    x = ALPH[a][0]; y = x[i % len(x)]
    return Label(y)


def tup(a, w): return tuple(lab(a, i) for i in w)
def mk(a, w): return Circuit(tup(a, w), ALPH[a][1])
def T(c): return tuple(Label(l) if not isinstance(l, Label) else l for l in c)
def uniq(xs):
    out = []
    for x in xs:
        if x not in out: out.append(x)
    return out


words = lambda lo, hi, n: st.lists(st.lists(st.integers(0, 3), min_size=0, max_size=2), min_size=lo, max_size=hi, unique_by=tuple)


@st.composite
def specs(draw):
    a = draw(st.sampled_from(list(ALPH))); nl = len(ALPH[a][0]); w = lambda m, x: st.lists(st.integers(0, nl - 1), min_size=m, max_size=x)
    prep = draw(st.lists(w(0, 2), min_size=1, max_size=3, unique_by=tuple)); eff = draw(st.lists(w(0, 2), min_size=1, max_size=3, unique_by=tuple))
    germs = draw(st.lists(w(1, 3), min_size=1, max_size=3, unique_by=tuple)); Ls = sorted(draw(st.sets(st.integers(1, 9), min_size=1, max_size=4)))
    pairs = list(itertools.product(range(len(prep)), range(len(eff)))); sub = st.lists(st.sampled_from(pairs), min_size=0, max_size=len(pairs), unique=True)
    fp = draw(st.sampled_from([None, "list", "dict"]))
    if fp == "list": fp = {"list": [list(x) for x in draw(sub)]}
    elif fp == "dict": fp = {"dict": [[list(x) for x in draw(sub)] for _ in germs]}
    return {"a": a, "prep": prep, "eff": eff, "germs": germs, "Ls": Ls, "zero": draw(st.sampled_from([False, False, True])), "fp": fp, "ops": draw(st.lists(st.integers(0, nl - 1), min_size=1, max_size=nl, unique=True)),
            "tr": draw(st.sampled_from(["whole germ powers", "truncated germ powers", "length as exponent"])), "nest": draw(st.booleans()), "kf": draw(st.sampled_from([1, 1, 1.0, 0.5, 0.2, 0.8])),
            "seed": draw(seeds), "lgst": draw(st.booleans()), "lim": draw(st.sampled_from([None, None, 1, 2, 4])), "limg": draw(st.integers(0, 2))}


def power(tr, g, L):
    if tr == "length as exponent": return g * L
    if tr == "whole germ powers": return g * (L // len(g))
    return (g * (L // len(g) + 1))[:L]


class Ref:
    def __init__(s, c):
        a = c["a"]; s.a = a; s.P = [tup(a, w) for w in c["prep"]]; s.E = [tup(a, w) for w in c["eff"]]; s.G = [tup(a, w) for w in c["germs"]]
        s.all = list(itertools.product(range(len(s.P)), range(len(s.E)))); s.ops = [(lab(a, i),) for i in c["ops"]]
        s.lgst = set(s.P) | set(s.E) | {p + g + e for p in s.P for e in s.E for g in [()] + s.ops}
        s.Ls = ([0] if c["zero"] else []) + c["Ls"]; s.c = c; s.lim = {s.G[c["limg"] % len(s.G)]: c["lim"]} if c["lim"] else {}
        s.fixed = {g: (s.all if c["fp"] is None else [tuple(x) for x in (c["fp"]["list"] if "list" in c["fp"] else c["fp"]["dict"][k])]) for k, g in enumerate(s.G)}

    def args(s):
        c = s.c; a = s.a; m = lambda ws: [mk(a, w) for w in ws]; fp = None; germs = m(c["germs"])
        if c["fp"]: fp = [tuple(x) for x in c["fp"]["list"]] if "list" in c["fp"] else {g: [tuple(x) for x in v] for g, v in zip(germs, c["fp"]["dict"])}
        lim = {germs[c["limg"] % len(germs)]: c["lim"]} if c["lim"] else None
        return (([x[0] for x in s.ops], m(c["prep"]), m(c["eff"]), germs, list(s.Ls)), dict(fidPairs=fp, truncScheme=c["tr"], nest=c["nest"], keepFraction=c["kf"], keepSeed=c["seed"], includeLGST=c["lgst"], germLengthLimits=lim))

    def cells(s, L): return [(g, power(s.c["tr"], g, L)) for g in s.G if not (g in s.lim and L > s.lim[g])]
    def strs(s, base, pairs): return {s.P[i] + base + s.E[j] for i, j in pairs}


def norep(rec, lst, what):
    rec.check(len(lst) == len(set(lst)), what + ": a circuit is repeated", len(lst), len(set(lst)))
    return {T(x) for x in lst}


@facet(lambda: specs(), quick=260, rule="more than one length and a germ-power longer than one layer", case_s=30)
def lsgst(case, rec):
    r = Ref(case); args, kw = r.args(); nest, kf, lgst = case["nest"], case["kf"], case["lgst"]
    rec.nt(len(r.Ls) > 1 and r.Ls[-1] > 1); rec.note(case["tr"], "nest" if nest else "flat", "kf" if kf < 1 else "", "fp" if case["fp"] else "")
    lists = sl.make_lsgst_lists(*args, **kw); structs = sl.make_lsgst_structs(*args, **kw)
    rec.check(len(lists) == len(r.Ls) == len(structs), "one list per length", [len(lists), len(structs)], len(r.Ls))
    run = set(r.lgst) if lgst else set(); srun = set(); first = {}; npk = int(round(float(kf) * len(r.all)))
    for k, L in enumerate(r.Ls):
        got, S = norep(rec, lists[k], "list"), structs[k]; sgot = norep(rec, S.allstrs, "structure")
        rec.check(S.allstrs_set == set(S.allstrs), "allstrs_set")
        if not nest: first = {}
        extra = set(r.lgst) if (lgst and (k == 0)) or L == 0 else set(); new = set(r.lgst) if L == 0 else set(); el = {}
        if lgst and k == 0 and L > 0: el[()] = ((), r.all); first.setdefault((), (L, ()))
        if L > 0:
            for g, base in r.cells(L):
                pl = S.get_plaquette(L, mk0(case, g), False); fx = r.fixed[g]; ps = [(e[1], e[0]) for e in pl.elements]
                if kf < 1:
                    want = min(max(npk, len(fx)), len(r.all)) if case["fp"] else npk
                    rec.check(len(set(ps)) == len(ps) == want and set(ps) <= set(r.all) and (not case["fp"] or set(fx) <= set(ps)), "random pair selection", ps, [want, fx])
                else:
                    rec.check(sorted(ps) == sorted(fx), "pairs", ps, fx)
                el[g] = (base, ps); first.setdefault(base, (L, g)); new |= r.strs(base, ps)
        for g, (base, ps) in el.items():
            G = mk0(case, g); pl = S.get_plaquette(L, G, False)
            rec.check(T(pl.base) == base and pl.rows == len(r.E) and pl.cols == len(r.P), "plaquette base", str(pl.base), str(base))
            rec.check({(i, j): T(x) for i, j, x in pl} == {(j, i): r.P[i] + base + r.E[j] for i, j in ps} and len(pl) == len(ps), "plaquette elements", [(i, j, x.str) for i, j, x in pl], [str(base), ps])
            rec.check([(T(p), T(e)) for p, e in pl.fidpairs] == [(r.P[i], r.E[j]) for i, j in ps], "plaquette fiducial pairs")
            only = S.get_plaquette(L, G)
            rec.check(len(only) == (len(ps) if first[base] == (L, g) else 0), "only the first plaquette with a base string is filled", [L, str(g), len(only)], str(first[base]))
        run = run | new; srun = (srun | extra | new) if nest else (extra | new)
        exp = run if nest else new
        rec.check(got == exp, "make_lsgst_lists", sorted(map(str, got ^ exp))[:6], [L, case["tr"]])
        rec.check(sgot == (srun | (r.strs((), r.all) if extra else set())), "make_lsgst_structs", sorted(map(str, sgot ^ srun))[:6], [L, case["tr"]])
        if nest and k: rec.check({T(x) for x in lists[k - 1]} <= got and {T(x) for x in structs[k - 1].allstrs} <= sgot, "nested lists grow")
        rec.check(list(S.Ls) == (r.Ls[:k + 1] if nest else [L]), "structure lengths", S.Ls)
    if nest and not case["lim"]:
        kw2 = {x: kw[x] for x in ("fidPairs", "truncScheme", "keepFraction", "keepSeed", "includeLGST")}
        rec.check(sl.make_lsgst_experiment_list(*args, **kw2) == lists[-1], "make_lsgst_experiment_list")
    rec.check(sl.make_lsgst_lists(*args, **kw) == lists, "same seed, same lists")
    gg = [mk(case["a"], w) for w in case["germs"]]; es = sl.make_elgst_lists(args[0], gg, r.Ls, case["tr"], nest, lgst); run = set(r.ops) if lgst else set()
    for k, L in enumerate(r.Ls):
        new = set(r.ops) if L == 0 else {power(case["tr"], g, L) for g in r.G}
        run = run | new if nest else new
        g = norep(rec, es[k], "eLGST list"); rec.check(g == run, "make_elgst_lists", sorted(map(str, g ^ run))[:6], [L, nest, lgst])
    if nest: rec.check(sl.make_elgst_experiment_list(args[0], gg, r.Ls, case["tr"], lgst) == es[-1], "make_elgst_experiment_list")


def mk0(case, g): return Circuit(g, ALPH[case["a"]][1])


@st.composite
def opcases(draw):
    c = draw(specs()); c["nest"] = True; c["kf"] = draw(st.sampled_from([1, 0.6]))
    return dict(c, keepL=draw(st.lists(st.booleans(), min_size=5, max_size=5)), keepG=draw(st.lists(st.booleans(), min_size=3, max_size=3)), keepP=draw(st.lists(st.booleans(), min_size=3, max_size=3)), keepE=draw(st.lists(st.booleans(), min_size=3, max_size=3)),
                what=sorted(draw(st.sets(st.sampled_from(["L", "G", "P", "E", "S"])))), drop=draw(st.lists(st.integers(0, 400), max_size=6)), al=draw(st.sampled_from([None, [1], [1, 1], [2, 1]])), rules=draw(st.booleans()), serial=draw(st.booleans()))


def table(S):
    "plaquette table {(L, germ): {(row, col): circuit}} of a structure"
    return {(L, T(g)): {(i, j): T(x) for i, j, x in S.get_plaquette(L, g, False)} for L in S.Ls for g in S.germs}


@facet(lambda: opcases(), quick=220, rule="the structure has several plaquettes and the operation removes some circuits", case_s=30)
def structures(case, rec):
    r = Ref(case); args, kw = r.args(); a = case["a"]; S = sl.make_lsgst_structs(*args, **kw)[-1]; before = list(S.allstrs); tab = table(S)
    # truncation keeps exactly the selected part
    sel = lambda xs, keep: [x for x, k in zip(xs, keep) if k]
    kwt = {}
    if "L" in case["what"]: kwt["Ls"] = sel(S.Ls, case["keepL"])
    if "G" in case["what"]: kwt["germs"] = sel(S.germs, case["keepG"])
    if "P" in case["what"]: kwt["prepStrs"] = sel(S.prepStrs, case["keepP"])
    if "E" in case["what"]: kwt["effectStrs"] = sel(S.effectStrs, case["keepE"])
    if "S" in case["what"]: kwt["seqs"] = [x for k, x in enumerate(before) if k not in case["drop"]]
    t = S.truncate(**kwt); P2, E2 = [T(x) for x in t.prepStrs], [T(x) for x in t.effectStrs]; want = {}
    for (L, g), els in tab.items():
        if L in t.Ls and g in [T(x) for x in t.germs]:
            d = want[(L, g)] = {}
            for (j, i), c in els.items():
                if r.P[i] in P2 and r.E[j] in E2 and ("seqs" not in kwt or c in [T(x) for x in kwt["seqs"]]): d[(E2.index(r.E[j]), P2.index(r.P[i]))] = c
    rec.nt(len(tab) > 1 and sum(map(len, want.values())) < sum(map(len, tab.values()))); rec.note(*sorted(case["what"]))
    rec.check(table(t) == want, "truncate keeps exactly the selected circuits", [str(k) for k in want if table(t).get(k) != want[k]][:4], list(kwt))
    rec.check(norep(rec, t.allstrs, "truncated") == {c for d in want.values() for c in d.values()} | {T(x) for x in S.unindexed}, "circuits of a truncated structure")
    rec.check(S.allstrs == before and table(S) == tab, "truncate changes the original")
    cp = S.copy(); rec.check(table(cp) == tab and cp.allstrs == before and cp.Ls == S.Ls, "copy")
    cp.add_unindexed([Circuit(("Gnew",), ALPH[a][1])]); cp.Ls.append(77); rec.check(S.allstrs == before and 77 not in S.Ls, "copy shares its lists")
    # relabelling every circuit
    old, new = lab(a, 0), Label("Gnew", old_sslbls(a)); f = lambda c: Circuit([new if l == old else l for l in c], ALPH[a][1]); F = lambda c: tuple(new if l == old else l for l in c)
    p = S.process_circuits(f)
    rec.check(table(p) == {(L, F(g)): {k: F(c) for k, c in d.items()} for (L, g), d in tab.items()}, "process_circuits: plaquettes", [str(k) for k in table(p)][:4])
    rec.check([T(x) for x in p.allstrs] == [F(T(x)) for x in before], "process_circuits: circuits")
    rec.check({k: len(p.get_plaquette(k[0], mk0(case, F(k[1])))) for k in tab} == {k: len(S.get_plaquette(k[0], mk0(case, k[1]))) for k in tab}, "process_circuits: filled plaquettes")
    # aliases are expanded in circuits and fiducials
    if case["al"]:
        al = {old: mk(a, case["al"])}; X = lambda c: tuple(y for l in c for y in (al[old] if l == old else (l,)))
        for (L, g), d in list(tab.items())[:3]:
            pl = po.circuitstructure.CircuitPlaquette(mk0(case, ()), len(r.E), len(r.P), S.get_plaquette(L, mk0(case, g), False).elements, al, S.get_plaquette(L, mk0(case, g), False).fidpairs); e = pl.expand_aliases()
            rec.check({(i, j): T(x) for i, j, x in e} == {k: X(c) for k, c in d.items()}, "expand_aliases: elements")
            rec.check([(T(x), T(y)) for x, y in e.fidpairs] == [(X(T(x)), X(T(y))) for x, y in pl.fidpairs], "expand_aliases: fiducial pairs", e.fidpairs, pl.fidpairs)
            some = [Circuit(X(c), ALPH[a][1]) for n, c in enumerate(d.values()) if n % 2]
            if some:
                e = pl.expand_aliases(some); rec.check({T(x) for _, _, x in e} == {T(x) for x in some} and len(e) == len(e.fidpairs), "expand_aliases: filter")
    # circuits missing from a data set
    ds = po.DataSet(outcomeLabels=["0", "1"]); al2 = None
    if case["al"] and old not in [y for y in (lab(a, i) for i in case["al"])]: al2 = {old: mk(a, case["al"])}
    X = lambda c: tuple(y for l in c for y in (al2[old] if al2 and l == old else (l,)))
    full = [T(x) for x in before]
    have = {X(c) for k, c in enumerate(full) if k not in case["drop"]}
    for c in have: ds.add_count_dict(Circuit(c, ALPH[a][1]), {"0": 1, "1": 2})
    if have:
        kd = dict(kw, opLabelAliases=al2, dscheck=ds); miss = [c for c in full if X(c) not in have]
        D = sl.make_lsgst_structs(*args, actionIfMissing="drop", **kd)[-1]
        rec.check(norep(rec, D.allstrs, "with a data set") == set(full) - set(miss), "circuits missing from the data are dropped", sorted(map(str, {T(x) for x in D.allstrs} ^ (set(full) - set(miss))))[:5])
        rec.check(table(D) == {k: {x: c for x, c in d.items() if c not in miss} for k, d in tab.items()}, "plaquettes after dropping")
        try: sl.make_lsgst_structs(*args, actionIfMissing="raise", **kd); raised = False
        except ValueError: raised = True
        rec.check(raised == bool(miss), "missing circuits raise", raised, len(miss))
    # replacement rules act on the circuits of the structure
    if case["rules"]:
        rules = [((old,), (new, new))]; R = sl.make_lsgst_structs(*args, sequenceRules=rules, **dict(kw, includeLGST=False))[-1]; B = sl.make_lsgst_structs(*args, **dict(kw, includeLGST=False))[-1]
        if not r.Ls[0] == 0:
            Y = lambda c: tuple(y for l in c for y in ((new, new) if l == old else (l,)))
            rec.check(norep(rec, R.allstrs, "with rules") == {Y(T(x)) for x in B.allstrs}, "sequence rules", [x.str for x in R.allstrs][:5])
    # the serial structure holds the same circuits
    if case["serial"]:
        n = len(r.all); ss = LsGermsSerialStructure(S.Ls, S.germs, len(r.E), len(r.P))
        for (L, g), d in tab.items():
            pl = S.get_plaquette(L, mk0(case, g), False)
            if (L, mk0(case, g)) in S._plaquettes: ss.add_plaquette(pl.base, L, mk0(case, g), pl.fidpairs)
        ss.add_unindexed(S.unindexed)
        rec.check(norep(rec, ss.allstrs, "serial") == set(full), "serial structure")
        rec.check({k: sorted(map(str, d.values())) for k, d in table(ss).items()} == {k: sorted(map(str, d.values())) for k, d in tab.items()}, "serial plaquettes")
        for nr, nc in ((None, None), ("auto", "auto"), (1, "auto"), ("auto", 2)):
            tt = ss.truncate(Ls=kwt.get("Ls"), germs=kwt.get("germs"), nMinorRows=nr, nMinorCols=nc); w = {k: sorted(map(str, d.values())) for k, d in tab.items() if k[0] in tt.Ls and k[1] in [T(x) for x in tt.germs]}
            rec.check({k: sorted(map(str, d.values())) for k, d in table(tt).items()} == w, "serial truncate", [nr, nc])
        q = ss.process_circuits(f); rec.check({k: sorted(map(str, d.values())) for k, d in table(q).items()} == {(L, F(g)): sorted(str(F(c)) for c in d.values()) for (L, g), d in tab.items()}, "serial process_circuits")


def old_sslbls(a): return lab(a, 0).sslbls


@st.composite
def enums(draw):
    a = draw(st.sampled_from(["bare", "one"])); k = draw(st.integers(1, 3))
    return {"a": a, "k": k, "lo": draw(st.integers(0, 3)), "n": draw(st.integers(0, 2)), "cyc": draw(st.integers(1, {1: 7, 2: 6, 3: 5}[k])), "len": draw(st.integers(0, 8)), "count": draw(st.integers(0, 6)), "seed": draw(seeds),
            "w": draw(st.lists(st.integers(0, 2), max_size=6)), "al": draw(st.lists(st.lists(st.integers(0, 2), max_size=3), min_size=2, max_size=2)), "N": draw(st.integers(0, 12))}


@facet(lambda: enums(), quick=200, rule="enumeration of more than one circuit", case_s=30)
def enumerations(case, rec):
    a, k = case["a"], case["k"]; ops = [lab(a, i) for i in range(k)]; lo, hi = case["lo"], case["lo"] + case["n"]; rec.nt(k > 1); rec.note(str(k))
    exp = {w for n in range(lo, hi + 1) for w in itertools.product(ops, repeat=n)}
    for f in (gsc.list_all_circuits, gsc.gen_all_circuits):
        x = list(f(ops, lo, hi)); rec.check(norep(rec, x, f.__name__) == exp, f.__name__, len(x), len(exp))
    for f in (gsc.list_all_circuits_onelen, gsc.gen_all_circuits_onelen):
        x = list(f(ops, lo)); rec.check(norep(rec, x, f.__name__) == set(itertools.product(ops, repeat=lo)), f.__name__, len(x))
    # aperiodic necklaces
    n = case["cyc"]; x = gsc.list_all_circuits_without_powers_and_cycles(ops, n); seen = set()
    for c in x:
        w = T(c); rots = {w[i:] + w[:i] for i in range(len(w))}
        rec.check(1 <= len(w) <= n and len(rots) == len(w), "a power is listed", str(w)); rec.check(not (rots & seen), "a cyclic repeat is listed", str(w)); seen |= rots
    allap = {w for m in range(1, n + 1) for w in itertools.product(ops, repeat=m) if len({w[i:] + w[:i] for i in range(m)}) == m}
    rec.check(seen == allap, "without powers and cycles: complete", len(seen), len(allap))
    x = gsc.list_random_circuits_onelen(ops, case["len"], case["count"], seed=case["seed"])
    rec.check(len(x) == case["count"] and all(len(c) == case["len"] and all(l in ops for l in c) for c in x), "random circuits", [c.str for c in x])
    rec.check(x == gsc.list_random_circuits_onelen(ops, case["len"], case["count"], seed=case["seed"]), "random circuits: seed")
    w = tup(a, case["w"]); C = mk(a, case["w"]); rec.check([tuple(T(p)) for p in gsc.list_partial_strings(C)] == [w[:i] for i in range(len(w) + 1)], "partial strings")
    # repetition helpers
    N = case["N"]
    if w:
        q = N // len(w); rec.check(gsc.repeat_count_with_max_length(C, N) == q, "repeat_count"); rec.check(T(gsc.repeat_with_max_length(C, N)) == w * q, "repeat_with_max_length")
        rec.check(T(gsc.repeat_and_truncate(C, N)) == (w * (q + 1))[:N], "repeat_and_truncate"); rec.check(T(gsc.repeat_remainder_for_truncation(C, N)) == w[:N - q * len(w)], "repeat_remainder")
        rec.check(T(gsc.repeat(C, N)) == w * N, "repeat")
        lst = gsc.create_circuit_list("a+R(b,N)", "b+a", a=[mk(a, [0]), mk(a, [1])], b=[C, mk(a, [2])], R=gsc.repeat_with_max_length, N=N, order=["b", "a"])
        A, B = [tup(a, [0]), tup(a, [1])], [w, tup(a, [2])]
        rec.check([T(x) for x in lst] == [y + z * (N // len(z)) for z in B for y in A] + [z + y for z in B for y in A], "create_circuit_list", [x.str for x in lst])
        lst = gsc.create_circuit_list("R(b,N,True)", b=[C, mk(a, [2])], R=gsc.repeat_with_max_length, N=N)
        rec.check([T(x) for x in lst] == [z * (N // len(z)) for z in B if len(z) <= N], "create_circuit_list: repetitions that do not fit are left out", [x.str for x in lst])
    # aliases and replacement rules
    d = {lab(a, i): tup(a, v) for i, v in enumerate(case["al"])}; X = lambda t: tuple(y for l in t for y in d.get(l, (l,)))
    rec.check(T(gsc.translate_circuit(C, d)) == X(w) and [T(c) for c in gsc.translate_circuit_list([C, C], d)] == [X(w)] * 2 and gsc.translate_circuit(C, None) == C, "translate_circuit")
    d2 = {lab(a, i): (lab(a, (i + 1) % 3), lab(a, i)) for i in range(3)}; rec.check({x: tuple(v) for x, v in gsc.compose_alias_dicts(d, d2).items()} == {x: tuple(y for l in v for y in d2[l]) for x, v in d.items()}, "compose_alias_dicts")
    L0, L1, L2 = (lab(a, i) for i in range(3)); Z, Z2 = Label("Gz", L0.sslbls), Label("Gw", L0.sslbls)
    m = lambda rules: T(gsc.manipulate_circuit(C, rules))
    rec.check(m([((L0,), (Z, Z2))]) == tuple(y for l in w for y in ((Z, Z2) if l == L0 else (l,))), "rule: replace", m([((L0,), (Z, Z2))]))
    rec.check(m([((L0, L1), (L0, Z))]) == tuple(Z if l == L1 and i and w[i - 1] == L0 else l for i, l in enumerate(w)), "rule: after", str(w))
    rec.check(m([((L0, L0), (L0, Z))]) == tuple(Z if l == L0 and i and w[i - 1] == L0 else l for i, l in enumerate(w)), "rule: after itself", str(w))
    rec.check(m([((L0, L1), (Z, L1))]) == tuple(Z if l == L0 and i + 1 < len(w) and w[i + 1] == L1 else l for i, l in enumerate(w)), "rule: before", str(w))
    rec.check(m([((L0, L1), (L0, Z)), ((L1, L2), (Z2, L2))]) == tuple(Z if l == L1 and i and w[i - 1] == L0 else Z2 if l == L1 and i + 1 < len(w) and w[i + 1] == L2 else l for i, l in enumerate(w)), "two rules", str(w))
    rec.check(T(gsc.manipulate_circuit(C, None)) == w and [T(c) for c in gsc.manipulate_circuit_list([C, C], [((L0,), ())])] == [tuple(l for l in w if l != L0)] * 2, "rule: delete")


@st.composite
def lgcases(draw):
    w = st.lists(st.integers(0, 2), max_size=2)
    return {"prep": draw(st.lists(w, min_size=1, max_size=3, unique_by=tuple)), "eff": draw(st.lists(w, min_size=1, max_size=3, unique_by=tuple)), "roots": draw(st.lists(st.lists(st.integers(0, 2), max_size=2), min_size=1, max_size=4, unique_by=tuple)),
            "drop": draw(st.lists(st.integers(0, 40), max_size=3)), "layers": draw(st.lists(st.lists(st.sampled_from([["Gx", 0], ["Gy", 1], ["Gz", 2], ["Gc", 0, 1], ["Gc", 1, 2], ["Gi"]]), min_size=0, max_size=3), max_size=5)),
            "keep": draw(st.sampled_from([[0], [1], [0, 1], [2, 1], [0, 1, 2]])), "new": draw(st.booleans()), "idle": draw(st.sampled_from(["default", None, "Gidle"]))}


@facet(lambda: lgcases(), quick=200, rule="some but not all circuits qualify", case_s=30)
def selections(case, rec):
    a = "bare"; P, E = [tup(a, w) for w in case["prep"]], [tup(a, w) for w in case["eff"]]; ds = po.DataSet(outcomeLabels=["0", "1"]); have = []
    for r in case["roots"]:
        for p in P:
            for e in E: have.append(p + tup(a, r) + e)
    have = uniq(have); have = [c for k, c in enumerate(have) if k not in case["drop"]]
    for c in have: ds.add_count_dict(Circuit(c), {"0": 1, "1": 1})
    est = gsc.list_strings_lgst_can_estimate(ds, [mk(a, w) for w in case["prep"]], [mk(a, w) for w in case["eff"]]); hs = set(have)
    cand = {c[i:j] for c in have for i in range(len(c) + 1) for j in range(i, len(c) + 1)}; want = {x for x in cand if all(p + x + e in hs for p in P for e in E)}
    rec.nt(0 < len(want)); rec.check(norep(rec, est, "estimatable") == want, "list_strings_lgst_can_estimate", sorted(c.str for c in est), sorted(map(str, want)))
    # sub-circuits on chosen lines
    lay = []
    for l in case["layers"]:
        used, comp = set(), []
        for x in l:
            s = set(x[1:])
            if (s & used) or (not s and l != [x]): continue
            used |= s; comp.append(tuple(x))
        lay.append(comp)
    C = Circuit([Label([Label(x) for x in comp]) if len(comp) != 1 else Label(comp[0]) for comp in lay], (0, 1, 2)); keep = set(case["keep"]); new = ["a", "b", "c"][:len(case["keep"])] if case["new"] else None
    mp = dict(zip(case["keep"], new)) if new else {x: x for x in range(3)}; cut = False; exp = []
    for comp in lay:
        kept = []
        for x in comp:
            s = set(x[1:])
            if s <= keep: kept.append((x[0],) + tuple(mp[q] for q in x[1:]))
            elif s & keep: cut = True
        if kept or not comp: exp.append(kept)
        elif case["idle"] == "default": exp.append([])
        elif case["idle"]: exp.append([(case["idle"],)])
    kw = {} if case["idle"] == "default" else {"idle": case["idle"]}
    rec.skip(any(not comp for comp in lay) and case["idle"] != "default")
    f = gsc.filter_circuit(C, case["keep"], new, **kw)
    if cut: rec.check(f is None, "a circuit with a cut component has no restriction", str(f))
    else:
        w = Circuit([Label([Label(x) for x in k]) if len(k) != 1 else Label(k[0]) for k in exp], tuple(new or case["keep"]))
        rec.check(f == w and tuple(f.line_labels) == tuple(new or case["keep"]), "filter_circuit", f.str, w.str)
        fl = gsc.filter_circuits([C, Circuit((), (0, 1, 2))], case["keep"], new, drop=True, **kw)
        rec.check(len(fl) == 1 + (len(f) > 0 or len(C) == 0), "filter_circuits drop", len(fl))
