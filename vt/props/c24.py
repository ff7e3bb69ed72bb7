"""C24: distributing a computation over processors or pieces does not change its result."""
TECH = "Hypothesis: generated index sets, arrays, models, circuits, data and processor layouts run on an in-process communicator (one thread per rank, real collectives); every rank's result compared with the undistributed computation (differential) and distribution plans checked for coverage"
NOTE = "Generated-input search: 1-9 ranks for plans and gathers, 1-6 ranks for probabilities, derivatives, objectives and fits of explicit models on 1 qubit; mpi4py itself is replaced by a stand-in with the same collectives, so message transport is not tested."
import threading, warnings
import numpy as np
from hypothesis import strategies as st
from vt import facet, fakempi, models as M
from vt.gen import *
from vt.mstrat import *
import pygsti
import pygsti.objects as po, pygsti.tools as pt, pygsti.algorithms.core as core
from pygsti.tools import mpitools as mp, slicetools as sl
warnings.simplefilter("ignore")
fakempi.install()

items = st.one_of(st.integers(0, 14).map(lambda n: list(range(n))), st.lists(st.integers(-50, 50), max_size=12), st.lists(st.sampled_from(["a", "b", "Gx", "long name", ""]), max_size=6), st.lists(st.floats(-5, 5), max_size=6))


# ------------------------------------------------------------------------------------ plans
plans = st.fixed_dictionaries({"l": items, "n": st.integers(1, 9), "split": st.booleans(), "start": st.integers(0, 7)})


@facet(plans, quick=300, rule="more than one rank and more than one item", case_s=60)
def plan(case, rec):
    l, n, al = case["l"], case["n"], case["split"]; L = len(l); rec.nt(n > 1 and L > 1)
    uniq = list(dict.fromkeys(l)); U = len(uniq); rec.note("more ranks" if n > U else "more items")
    got = fakempi.run(n, lambda c: (lambda a, o, lc: (a, o, None if lc is None else (lc.Get_rank(), lc.Get_size(), lc.allgather(c.Get_rank()))))(*mp.distribute_indices(uniq, c, al)))
    base = [mp.distribute_indices_base(uniq, n, r, al) for r in range(n)]
    for r, (a, o, lc) in enumerate(got):
        rec.check((a, o) == tuple(base[r]), "plan of rank", r, (a, o), base[r]); rec.check(o == got[0][1], "ranks disagree about owners")
        if lc is None: rec.check(not (al and 0 < U < n), "no local communicator although several ranks share an item"); continue
        mates = [q for q in range(n) if got[q][0] == a]
        rec.check(lc[2] == mates and mates[lc[0]] == r, "local communicator", lc, "ranks sharing the item", mates)
    rec.check(sorted(map(str, [x for a in got for x in set(a[0])] if not al or n <= U else {x for a in got for x in a[0]})) == sorted(map(str, uniq)), "items covered", [a[0] for a in got])
    rec.check(set(got[0][1]) == set(uniq), "owned items", got[0][1])
    for x, r in got[0][1].items(): rec.check(x in got[r][0], "owner", r, "does not have", x)
    if U:
        k = [len(a[0]) for a in got]; rec.check(max(k) - min(k) <= 1, "loads", k)
    # applying a function to each item
    f = lambda x: [x, x]
    for res in fakempi.run(n, lambda c: mp.parallel_apply(f, l, c)) if L else []: rec.check(res == [f(x) for x in l], "parallel_apply", res, l)
    # slices
    ss = mp.slice_up_range(L, n, case["start"]); rec.check(len(ss) == n and [i for s in ss for i in range(s.start, s.stop)] == list(range(case["start"], case["start"] + L)), "slice_up_range", ss)
    rec.check(max(s.stop - s.start for s in ss) - min(s.stop - s.start for s in ss) <= 1, "uneven", ss)
    s0 = slice(case["start"], case["start"] + L); rec.check(mp.slice_up_slice(s0, n) == ss, "slice_up_slice", ss)
    if L:
        got = fakempi.run(n, lambda c: (lambda a, b, o, lc: (a, b, o, None if lc is None else lc.allgather(c.Get_rank())))(*mp.distribute_slice(s0, c, al)))
        for r, (a, b, o, lc) in enumerate(got):
            rec.check(a == got[0][0] and o == got[0][2], "ranks disagree"); rec.check([i for s in a for i in range(s.start, s.stop)] == list(range(s0.start, s0.stop)), "slices", a)
            if al or r < len(a): rec.check(b in a, "my slice", b, a)
            if lc is not None: rec.check(lc == [q for q in range(n) if got[q][1] == b], "local communicator", lc)
            else: rec.check(not al or n <= L, "no local communicator")
        for i, s in enumerate(got[0][0]): rec.check(got[got[0][2][i]][1] == s, "owner of slice", i)
        big = case["start"] + 1
        for res in fakempi.run(1, lambda c: sl.divide(s0, big)): rec.check([i for s in res for i in range(s.start, s.stop)] == list(range(s0.start, s0.stop)) and all(s.stop - s.start <= big for s in res), "divide", res)


dots = st.fixed_dictionaries({"a": st.integers(1, 4), "d": st.integers(1, 9), "b": st.integers(1, 4), "n": st.integers(1, 9), "s": seeds})


@facet(dots, quick=120, rule="more than one rank", case_s=60)
def products(case, rec):
    r = rng(case["s"]); A, B = r.randn(case["a"], case["d"]), r.randn(case["d"], case["b"]); n = case["n"]; rec.nt(n > 1); rec.note("more ranks" if n > case["d"] else "")
    for g in fakempi.run(n, lambda c: mp.mpidot(A, B, mp.distribute_for_dot(case["d"], c), c)): rec.check(np.abs(g - A @ B).max() < 1e-12 * max(1, np.abs(A @ B).max() * case["d"]), "mpidot")
    v = r.randn(3)
    for g in fakempi.run(n, lambda c: mp.sum_across_procs(v * (c.Get_rank() + 1), c)): rec.check(np.abs(g - v * n * (n + 1) / 2).max() < 1e-9, "sum_across_procs")


# ------------------------------------------------------------------------------------ collecting pieces
@st.composite
def gathers(draw):
    nd = draw(st.integers(1, 3)); sh = [draw(st.integers(1, 9)) for _ in range(nd)]
    ax = draw(st.permutations(range(nd)).map(list))[:draw(st.integers(1, min(2, nd)))]
    return {"sh": sh, "ax": ax, "n": draw(st.integers(1, 6)), "buf": draw(st.sampled_from([None, None, 1, 8, 24, 100, 1000])), "s": draw(seeds), "how": draw(st.sampled_from(["slices", "owner", "indices", "indices"])),
            "pre": draw(st.booleans()), "kind": draw(st.sampled_from(["sorted", "shuffled", "shuffled", "slices", "stepped"])), "cplx": False}


@facet(gathers, quick=400, rule="more than one rank and more than one piece", case_s=60)
def gather(case, rec):
    r = rng(case["s"]); sh, ax, n = case["sh"], case["ax"], case["n"]; full = r.randn(*sh) + (1j * r.randn(*sh) if case["cplx"] else 0)
    pre = []; 
    if case["pre"] and min(ax) > 0:   # the leading axes select a part of the array
        k = min(ax); pre = [slice(0, max(1, sh[0] - 1))] if r.randint(2) else [np.sort(r.permutation(sh[0])[:max(1, sh[0] - 1)])]
    if case["how"] != "indices" and False: pre = []
    per = []
    for a in ax:
        if case["how"] == "indices" and case["kind"] != "slices":
            k = r.randint(1, min(4, sh[a]) + 1)
            if case["kind"] == "stepped": per.append([slice(i, sh[a], k) if r.randint(2) else np.arange(i, sh[a], k) for i in range(k)]); continue
            p = r.permutation(sh[a]); parts = np.array_split(p, k); per.append([np.sort(q) if case["kind"] == "sorted" else q for q in parts if len(q)])
        else:
            cuts = sorted(set([0, sh[a]] + [int(x) for x in r.randint(0, sh[a] + 1, size=r.randint(0, 4))])); per.append([slice(x, y) for x, y in zip(cuts[:-1], cuts[1:])])
    pieces = [(x,) for x in per[0]] if len(ax) == 1 else [(x, y) for x in per[0] for y in per[1]]
    own = [int(r.randint(n)) for _ in pieces]; rec.nt(n > 1 and len(pieces) > 1); rec.note(case["how"])
    ix = lambda s, k: np.arange(k)[s] if isinstance(s, slice) else np.asarray(s)

    def where(p):
        sel = [np.arange(k) for k in sh]
        if pre: sel[0] = ix(pre[0], sh[0])
        for a, s in zip(ax, p): sel[a] = ix(s, sh[a])
        return np.ix_(*sel)
    want = np.zeros(sh, full.dtype)
    for p in pieces: want[where(p)] = full[where(p)]
    axes = ax[0] if len(ax) == 1 and r.randint(2) else ax; single = len(ax) == 1 and r.randint(2)
    lst = [p[0] for p in pieces] if single else pieces

    def go(c):
        me = c.Get_rank(); a = np.full(sh, np.nan, full.dtype); a[...] = 0; mask = np.full(sh, 7.5, full.dtype)
        a = np.where(want == 0, 0, mask).astype(full.dtype) if False else a
        for p, o in zip(pieces, own):
            if o == me: a[where(p)] = full[where(p)]
        if case["how"] == "slices": mp.gather_slices(lst, {i: o for i, o in enumerate(own)}, a, list(pre), axes, c, case["buf"])
        elif case["how"] == "owner": mp.gather_slices_by_owner([p for p, o in zip(lst, own) if o == me], a, list(pre), axes, c, case["buf"])
        else: mp.gather_indices(lst, {i: o for i, o in enumerate(own)}, a, list(pre), axes, c, case["buf"])
        return a
    for q, a in enumerate(fakempi.run(n, go)): rec.check(np.array_equal(a, want), "rank", q, "pieces", [str(x) for x in lst][:6], "owners", own[:6])


# ------------------------------------------------------------------------------------ probabilities and derivatives
PK = [k for k in ["static", "tp", "full", "linear", "lind:CPTP", "lind:H+S", "lind:GLND", "shared"] if k in M.OPKINDS + ["shared"]]
PP = [k for k in ["static", "tp", "full", "lind:CPTP", "lind:H+S"] if k in M.PREPKINDS]


@st.composite
def runs(draw, hi=6):
    s = draw(explicit_specs(kinds=PK, nq=1, nops=2, prepkinds=PP, povmkinds=["full", "tp", "static", "lind:H+S"], inst=False))
    n = draw(st.integers(1, 5))
    return {"m": s, "c": ecircs(draw, 1, hi), "n": n, "sim": draw(st.sampled_from(["matrix", "map"])), "tree": draw(st.sampled_from(["plain", "min", "max", "both", "circuits", "deriv", "deriv"])), "k": draw(st.integers(1, 5)), "mx": draw(st.integers(2, 9)), "nc": draw(st.integers(1, 5)),
            "blk": draw(st.sampled_from([None, None, 1, 2, 3, 5])), "blk2": draw(st.sampled_from([None, None, 1, 2, 4])), "gml": draw(st.sampled_from([None, None, 8, 50, 300])), "clip": draw(st.sampled_from([None, None, [0, 1], [0.1, 0.8]])), "mem": draw(st.sampled_from([None, None, 0.4, 0.7, 1.5])),
            "h": draw(st.booleans()), "sub": draw(st.sampled_from(["probs", "dprobs", "hprobs"])), "wrt": draw(st.sampled_from([None, None, None, [0, 2], [1, 4]]))}


LOCK = threading.Lock()


def build(case):
    with LOCK: m = M.explicit(case["m"]); m.set_simtype(case["sim"]); return m


def circs_of(case, m):
    cs = [make_circuit(case["m"], m, c)[0] for c in case["c"]]; return list(dict.fromkeys(cs))


def tree_of(case, m, cs, comm, serial_mem=None):
    """(tree, block sizes, lookup, outcomes) or None if the request cannot be met"""
    t, n = case["tree"], 1 if comm is None else comm.Get_size()
    if t in ("circuits", "deriv"):
        mem = None if case["mem"] is None else case["mem"] * serial_mem
        return m.bulk_evaltree_from_resources(cs, comm, mem, t, ["bulk_fill_" + case["sub"]])
    kw = {}
    if t in ("min", "both"): kw["minSubtrees"] = min(case["k"], len(cs)); kw["numSubtreeComms"] = max(1, min(case["nc"], n, kw["minSubtrees"]))
    if t in ("max", "both"): kw["maxTreeSize"] = case["mx"]
    ev, lk, ol = m.bulk_evaltree(cs, **kw)
    return ev, case["blk"], case["blk2"], lk, ol


def rows(lk, ol, cs, mx): return {(i, o): mx[j] for i in range(len(cs)) for o, j in zip(ol[i], sl.indices(lk[i]) if isinstance(lk[i], slice) else lk[i])}


@facet(runs, quick=220, rule="more than one rank or several subtrees", case_s=120)
def bulk(case, rec):
    m = build(case); cs = circs_of(case, m); Np = m.num_params(); n = case["n"]
    if Np > 48 or Np == 0: rec.skip(True)
    hess = case["h"] and Np <= 16 and (case["sim"] == "matrix" or case["n"] < 4)
    ev, lk, ol = m.bulk_evaltree(cs); N = ev.num_final_elements()
    p0, d0 = np.zeros(N), np.zeros((N, Np)); m.bulk_fill_dprobs(d0, ev, p0, clipTo=case["clip"])
    h0 = np.zeros((N, Np, Np)) if hess else None
    if hess:
        try: m.bulk_fill_hprobs(h0, ev)
        except NotImplementedError: hess = False
    base = [rows(lk, ol, cs, x) for x in (p0, d0)] + [rows(lk, ol, cs, h0) if hess else None]
    smem = m._fwdsim().estimate_mem_usage(["bulk_fill_" + case["sub"]], max(1, ev.cache_size() if hasattr(ev, "cache_size") else 1), 1, 1, 1, 1, len(cs))
    wrt = case["wrt"] if case["wrt"] and case["wrt"][1] <= Np else None

    def go(comm):
        mm = build(case); c2 = circs_of(case, mm)
        ev, b1, b2, lk, ol = tree_of(case, mm, c2, comm, smem)
        N = ev.num_final_elements(); out = [len(ev.get_sub_trees()) if ev.is_split() else 1]
        p = np.full(N, np.nan); mm.bulk_fill_probs(p, ev, clipTo=case["clip"], comm=comm); out.append(rows(lk, ol, c2, p))
        p, d = np.full(N, np.nan), np.full((N, Np), np.nan); mm.bulk_fill_dprobs(d, ev, p, clipTo=case["clip"], comm=comm, wrtBlockSize=b1, gatherMemLimit=case["gml"]); out += [rows(lk, ol, c2, p), rows(lk, ol, c2, d)]
        if wrt: w = np.full((N, wrt[1] - wrt[0]), np.nan); mm._fwdsim().bulk_fill_dprobs(w, ev, None, comm=comm, wrtFilter=list(range(*wrt)), gatherMemLimit=case["gml"]); out.append(rows(lk, ol, c2, w))
        else: out.append(None)
        if hess:
            h, p, d, e = np.full((N, Np, Np), np.nan), np.full(N, np.nan), np.full((N, Np), np.nan), np.full((N, Np), np.nan)
            mm._fwdsim().bulk_fill_hprobs(h, ev, p, d, e, case["clip"], False, comm, None, None, b1, b2, case["gml"])
            out += [rows(lk, ol, c2, x) for x in (h, p, d, e)]
        return out
    try: res = fakempi.run(n, go)
    except MemoryError: rec.note("memory limit not reachable"); rec.skip(True)
    except ValueError as e:
        if "is too low" in str(e): rec.skip(True)
        raise
    rec.nt(n > 1 or res[0][0] > 1); rec.note("%s %s" % (case["tree"], "split" if res[0][0] > 1 else "whole"))
    mp_ = case["sim"] == "map"

    def same(got, want, tol, *msg):
        rec.check(set(got) == set(want), *msg, "elements differ")
        for k in want:
            g, w = np.asarray(got[k]), np.asarray(want[k])
            rec.check(np.all(np.isfinite(g)) and np.abs(g - w).max() <= tol * max(1, np.abs(w).max()) if w.size else True, *msg, "element", k, "got", np.ravel(g)[:4], "undistributed", np.ravel(w)[:4])
    for q, o in enumerate(res):
        same(o[1], base[0], 1e-9, "rank", q, "probabilities"); same(o[2], base[0], 1e-9, "rank", q, "probabilities (with derivatives)"); same(o[3], base[1], 1e-6 if mp_ else 1e-8, "rank", q, "derivatives")
        if wrt: same(o[4], {k: v[slice(*wrt)] for k, v in base[1].items()}, 1e-6 if mp_ else 1e-8, "rank", q, "selected derivatives")
        if hess:
            same(o[5], base[2], 1e-3 if mp_ else 1e-7, "rank", q, "second derivatives"); same(o[6], base[0], 1e-9, "rank", q, "probabilities (with second derivatives)")
            same(o[7], base[1], 1e-6 if mp_ else 1e-8, "rank", q, "first derivatives 1"); same(o[8], base[1], 1e-6 if mp_ else 1e-8, "rank", q, "first derivatives 2")


# ------------------------------------------------------------------------------------ objectives
@st.composite
def objs(draw):
    c = draw(runs(5)); c["n"] = draw(st.integers(1, 4)); c["d"] = draw(st.lists(st.sampled_from([0, 1, 5, 20, 100]), min_size=8, max_size=8)); c["pois"] = draw(st.booleans()); c["mem"] = draw(st.sampled_from([None, 0.3, 0.6, 1.5])); c["sim"] = draw(st.sampled_from(["matrix", "matrix", "map"])); return c


def data_of(case, m, cs):
    ds = po.DataSet()
    for i, c in enumerate(cs):
        ol = sorted(m.probs(c).keys()); k = {o: float(case["d"][(i + 3 * j) % 8]) for j, o in enumerate(ol)}
        if sum(k.values()) == 0: k[ol[0]] = 9.0
        ds.add_count_dict(c, {(o if len(o) > 1 else o[0]): v for o, v in k.items()})
    ds.done_adding_data(); return ds


def small(case, m, ds, cs, comm, mem):
    """the objective functions' numbers"""
    kw = dict(minProbClip=1e-4, radius=1e-2, poissonPicture=case["pois"])
    out = {"logl": pt.logl(m, ds, cs, comm=comm, **kw), "logl_terms": np.array(pt.logl_terms(m, ds, cs, comm=comm, **kw)), "chi2": pt.chi2(m, ds, cs, comm=comm), "chi2_terms": np.array(pt.chi2_terms(m, ds, cs, comm=comm)), "2dlogl": np.array(pt.two_delta_logl_terms(m, ds, cs, comm=comm, **kw)[0])}
    if 0 < m.num_params() <= 14:
        out["logl_jacobian"] = pt.logl_jacobian(m, ds, cs, comm=comm, memLimit=mem, **kw); out["chi2_gradient"] = pt.chi2(m, ds, cs, returnGradient=True, comm=comm, memLimit=mem)[1]
        if case["sim"] == "matrix" and case["h"] and not any(o[2] == "shared" for o in case["m"]["ops"]): out["logl_hessian"] = pt.logl_hessian(m, ds, cs, comm=comm, memLimit=mem, **kw); out["logl_approximate_hessian"] = pt.logl_approximate_hessian(m, ds, cs, comm=comm, memLimit=mem, **kw)
    return out


@facet(objs, quick=70, rule="more than one rank", case_s=120)
def objectives(case, rec):
    m = build(case); cs = circs_of(case, m); ds = data_of(case, m, cs); n = case["n"]
    if m.num_params() > 30: rec.skip(True)
    want = small(case, m, ds, cs, None, None); rec.nt(n > 1)

    def go(comm):
        mm = build(case); c2 = circs_of(case, mm); mem = None
        if case["mem"] is not None: mem = case["mem"] * 3e5
        return small(case, mm, data_of(case, mm, c2), c2, comm, mem)
    try: res = fakempi.run(n, go)
    except MemoryError: rec.note("memory"); rec.skip(True)
    for q, o in enumerate(res):
        for k, w in want.items():
            g, w = np.asarray(o[k]), np.asarray(w)
            if k.startswith("logl_h") or k.startswith("logl_ap"): rec.note("hessian")
            if k == "logl_hessian" and g.ndim == 0: rec.check(n > 1 and q > 0, "no Hessian on rank", q); continue
            rec.check(g.shape == w.shape and np.all(np.isfinite(g)) and np.abs(g - w).max() <= (1e-4 if case["sim"] == "map" and "ra" in k or "jac" in k else 1e-7) * max(1, np.abs(w).max()), "rank", q, "of", n, k, "got", np.ravel(g)[:4], "undistributed", np.ravel(w)[:4])


# ------------------------------------------------------------------------------------ fits
@st.composite
def fitc(draw): return {"n": draw(st.integers(2, 3)), "sim": draw(st.sampled_from(["matrix", "matrix", "map"])), "L": [1], "obj": draw(st.sampled_from(["logl", "chi2"])), "N": draw(st.sampled_from([100, 1000])), "s": draw(seeds), "mem": draw(st.sampled_from([None, None, 1])), "par": draw(st.sampled_from(["TP", "TP", "full"])), "dist": draw(st.sampled_from(["default", "circuits", "deriv"]))}


@facet(fitc, quick=24, shards=8, rule="always (>= 2 ranks)", case_s=240)
def fits(case, rec):
    from pygsti.construction import std1Q_XYI as std
    rec.nt(); rec.note(case["obj"])

    def go(comm):
        with LOCK:
            t = std.target_model(); t.set_all_parameterizations(case["par"]); t.set_simtype(case["sim"])
            ls = pygsti.construction.make_lsgst_lists(t, std.prepStrs[:4], std.effectStrs[:4], list(std.germs)[:2], case["L"])
            ds = pygsti.construction.generate_fake_data(std.target_model().depolarize(0.05, 0.02), ls[-1], case["N"], "multinomial", seed=int(case["s"] % 2**31))
        fn = core.do_mlgst if case["obj"] == "logl" else core.do_mc2gst
        r = fn(ds, t, ls[-1], tol=1e-8, maxiter=8, comm=comm, memLimit=case["mem"] and case["mem"] * 2**30, distributeMethod=case["dist"])
        m = r[1] if case["obj"] == "chi2" else r[1]
        return np.array([pt.logl(m, ds, ls[-1]), pt.chi2(m, ds, ls[-1])]), m.to_vector()
    want = go(None)
    res = fakempi.run(case["n"], go)
    for q, (g, v) in enumerate(res):
        rec.check(np.array_equal(v, res[0][1]), "ranks end at different models"); rec.check(np.abs(g - want[0]).max() < 0.05 + 1e-6 * np.abs(want[0]).max(), "rank", q, "objective", g, "alone", want[0])
