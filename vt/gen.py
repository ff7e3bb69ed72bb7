"""Hypothesis strategies producing JSON-able cases, and builders turning them into pyGSTi objects."""
from hypothesis import strategies as st

seeds = st.integers(0, 2**31 - 1)


def sized(lo, hi):
    return st.integers(lo, hi)


# ---------------------------------------------------------------------------------- labels
NAMES1 = ["Gx", "Gy", "Gi", "Gh", "Gp_2", "Gxpi2", "Gzr", "Iz", "Ia1"]
gate_names = st.one_of(st.sampled_from(NAMES1),
                       st.builds(lambda a, b: a + b, st.sampled_from(["G", "I"]),
                                 st.text("abcxyz019_", min_size=1, max_size=4)))
LINESETS = [[0], [0, 1], [0, 1, 2], [0, 1, 2, 3], ["Q0", "Q1"], ["Q0", "Q1", "Q2"], ["a", "b_1"], [4, 7, 11],
            ["Q2", "Q10", "zz"]]
linesets = st.sampled_from(LINESETS)
arg_strs = st.one_of(st.sampled_from(["1", "0.5", "3.14", "pi/2", "abc", "1/4", "Q0"]),
                     st.text("abz0129_./Q", min_size=1, max_size=5))
times = st.one_of(st.just(0.0), st.just(0.0), st.integers(1, 3000).map(lambda k: k / 8.0),
                  st.integers(1, 5000000).map(lambda k: k / 1e6))


def subsets(lines, min_size=1, max_size=3):
    return st.permutations(lines).flatmap(
        lambda p: st.integers(min_size, min(max_size, len(p))).map(lambda k: list(p[:k])))


@st.composite
def simple_label(draw, lines, args=True, time=True, allow_global=True, max_lines=3):
    s = None
    if not (allow_global and draw(st.integers(0, 7)) == 0):
        s = draw(subsets(lines, 1, max_lines))
    a = draw(st.lists(arg_strs, min_size=1, max_size=3)) if (args and draw(st.integers(0, 3)) == 0) else []
    t = draw(times) if (time and draw(st.integers(0, 3)) == 0) else 0.0
    return {"n": draw(gate_names), "s": s, "a": a, "t": t}


@st.composite
def layer_of(draw, lines, args=True, time=True, max_lines=2, allow_empty=True, fill=3, names=None):
    """A layer: labels on disjoint lines (list of label specs)."""
    perm = list(draw(st.permutations(lines)))
    out = []
    while perm:
        if draw(st.integers(0, fill)) == 0: perm.pop(); continue
        k = min(len(perm), draw(st.integers(1, max_lines)))
        lbl = draw(simple_label(lines, args, time, allow_global=False))
        if names is not None: lbl["n"] = draw(st.sampled_from(names[k]))
        lbl["s"] = perm[:k]
        out.append(lbl)
        perm = perm[k:]
    if not out and not allow_empty:
        lbl = draw(simple_label(lines, args, time, allow_global=False))
        lbl["s"] = lbl["s"][:1]
        if names is not None: lbl["n"] = draw(st.sampled_from(names[1]))
        out.append(lbl)
    return out


def mk_label(spec):
    from pygsti.objects import Label
    s = None if spec["s"] is None else tuple(spec["s"])
    return Label(spec["n"], s, spec["t"] if spec["t"] else None, tuple(spec["a"]) if spec["a"] else None)


def mk_layer(specs):
    from pygsti.objects import Label
    return Label([mk_label(s) for s in specs])


# ---------------------------------------------------------------------------------- numpy data from a drawn seed
def rng(seed):
    import numpy as np
    return np.random.RandomState(seed % (2**32))
