"""An in-process stand-in for mpi4py communicators: one thread per rank, collectives through a barrier, objects pickled."""
import pickle, sys, threading, types
import numpy as np

TIMEOUT = 100


class _Group:
    def __init__(self, n):
        self.n = n; self.bar = threading.Barrier(n); self.slots = [None] * n; self.op = [None] * n; self.out = None


class Comm:
    def __init__(self, group, rank, root): self._g, self._r, self._root = group, rank, root

    def Get_size(self): return self._g.n
    def Get_rank(self): return self._r
    size = property(Get_size); rank = property(Get_rank)

    def _exchange(self, what, obj):
        """all ranks meet in the same collective; returns everyone's contribution"""
        g = self._g; g.slots[self._r] = obj; g.op[self._r] = what
        g.bar.wait(TIMEOUT)
        got, ops = list(g.slots), list(g.op)
        g.bar.wait(TIMEOUT)
        if any(o != what for o in ops): raise RuntimeError("mismatched collectives: %s" % ops)
        return got

    def Barrier(self): self._exchange("Barrier", None)
    barrier = Barrier

    def allgather(self, obj): return [pickle.loads(b) for b in self._exchange("allgather", pickle.dumps(obj))]

    def gather(self, obj, root=0):
        r = [pickle.loads(b) for b in self._exchange(("gather", root), pickle.dumps(obj))]
        return r if self._r == root else None

    def bcast(self, obj, root=0):
        return pickle.loads(self._exchange(("bcast", root), pickle.dumps(obj) if self._r == root else None)[root])

    def scatter(self, obj, root=0):
        return pickle.loads(self._exchange(("scatter", root), pickle.dumps(obj) if self._r == root else None)[root])[self._r]

    def Bcast(self, buf, root=0):
        assert buf.flags.c_contiguous or buf.flags.f_contiguous, "MPI buffers must be contiguous"
        got = self._exchange(("Bcast", int(root)), (buf.copy(), buf.shape, buf.dtype.str) if self._r == root else None)[root]
        if buf.size * buf.dtype.itemsize < got[0].size * got[0].dtype.itemsize: raise RuntimeError("message truncated: %s <- %s" % (buf.shape, got[1]))
        if self._r != root: np.copyto(buf, got[0].reshape(buf.shape))

    def allreduce(self, obj, op=None):
        r = [pickle.loads(b) for b in self._exchange("allreduce", pickle.dumps(obj))]
        t = r[0]
        for x in r[1:]: t = op(t, x) if callable(op) else t + x
        return t

    def Allreduce(self, a, out, op=None):
        r = self._exchange("Allreduce", np.array(a)); t = r[0].copy()
        for x in r[1:]: t = op(t, x) if callable(op) else t + x
        out[...] = t

    def Split(self, color=0, key=0):
        if not isinstance(color, (int, np.integer)) or color < 0 or color >= 2**31: raise RuntimeError("invalid color %r" % (color,))
        info = self._exchange("Split", (int(color), int(key), self._r))
        mine = sorted((k, r) for c, k, r in info if c == color); lead = mine[0][1]
        g = _Group(len(mine)) if lead == self._r else None
        if g is not None: self._root.groups.append(g)
        gs = self._exchange("Split2", g)
        return Comm(gs[lead], [r for _, r in mine].index(self._r), self._root)

    def Dup(self): return self.Split(0, self._r)
    def Free(self): pass


class _Root:
    def __init__(self): self.groups = []


MPI = types.SimpleNamespace(SUM=lambda a, b: a + b, MAX=lambda a, b: np.maximum(a, b), MIN=lambda a, b: np.minimum(a, b), COMM_WORLD=None)


def install():
    m = types.ModuleType("mpi4py"); m.MPI = MPI; sys.modules.setdefault("mpi4py", m)


def run(n, fn):
    """fn(comm) on n ranks; list of results in rank order; the first failure is raised"""
    install(); root = _Root(); g = _Group(n); root.groups.append(g); out = [None] * n; err = []

    def go(r):
        try: out[r] = fn(Comm(g, r, root))
        except threading.BrokenBarrierError as e:
            err.append((1, r, e))
            for x in root.groups: x.bar.abort()
        except BaseException as e:
            err.append((0, r, e))
            for x in root.groups: x.bar.abort()
    ts = [threading.Thread(target=go, args=(r,), daemon=True) for r in range(n)]
    for t in ts: t.start()
    for t in ts: t.join()
    if err:
        err.sort(key=lambda e: e[:2]); raise err[0][2]
    return out
