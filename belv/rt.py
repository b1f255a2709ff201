"""Run-time of the rewritten code: builtins, comprehensions and the loop rule."""
import builtins as B
import collections.abc
import fractions
import numpy as np
import z3
from . import terms as T
from . import symarr as A
from .npshim import SHIM, extremum, fold_ext
from .terms import SR, SI, SB, SNum, Unsupported, EngineStop, ctx, zr, zi, mk_int, ite
from .symarr import SymArr, SymList, BvList, is_symseq

np_ = SHIM


class Ret:
    def __init__(self, v):
        self.v = v


class _Break:
    pass


BREAK = _Break()


def is_ret(x):
    return isinstance(x, Ret)


class Poison:
    """a loop-carried local inside a summarised body: any use is outside the rule"""
    def _no(self, *a, **k):
        raise Unsupported('loop-carried variable in a loop of symbolic length')
    __getattr__ = __call__ = __add__ = __radd__ = __sub__ = __mul__ = __getitem__ = __bool__ = __iter__ = _no
    __lt__ = __gt__ = __le__ = __ge__ = __eq__ = __ne__ = __len__ = __rmul__ = __rsub__ = __index__ = _no
    __hash__ = object.__hash__


class LazySeq(SymList):
    pass


def symlen(x):
    """length term if x has symbolic length, else None"""
    if isinstance(x, SymArr):
        return None if isinstance(x.shape_[0], int) else x.blen()
    if isinstance(x, BvList) and x.sym is not None:
        n = x.sym.n
        return None if isinstance(n, int) else n
    if isinstance(x, SymList):
        return None if isinstance(x.n, int) else x.n
    return None


def unique_int(n):
    try:
        return n.__index__()
    except Unsupported:
        return None


def mklist(x):
    r = BvList(x)
    c = T.CTX
    r.epoch = len(c.loop_stack) if c is not None else 0
    return r


def b_len(x):
    if isinstance(x, SymArr):
        if x.ndim == 0:
            raise TypeError('len() of unsized object')
        return x.blen()
    if isinstance(x, BvList) and x.sym is not None:
        return x.sym.n
    if isinstance(x, SymList):
        return x.n
    f = getattr(type(x), '__len__', None)
    if f is not None and not isinstance(x, (list, tuple, dict, str, set, np.ndarray)):
        r = f(x)
        if isinstance(r, SI):
            return r
    return B.len(x)


def b_range(*a):
    if any(isinstance(x, SI) for x in a):
        u = [unique_int(x) if isinstance(x, SI) else x for x in a]
        if all(x is not None for x in u):
            return B.range(*u)
        if len(a) == 3:
            raise Unsupported('range step')
        lo, hi = (0, a[0]) if len(a) == 1 else a
        n = hi - lo
        if isinstance(n, SI) and A.decide(n.z < 0):
            n = 0
        return SymList(n, lambda k: lo + k)
    return B.range(*a)


def b_zip(*xs, **k):
    if any(symlen(x) is not None for x in xs):
        ns = []
        gs = []
        for x in xs:
            n, g = A.as_seq(x)
            ns.append(n)
            gs.append(g)
        m = ns[0]
        for n in ns[1:]:
            if A.decide(A.lt(A.dim(n), A.dim(m))):
                m = n
        return SymList(m, lambda i: tuple(g(i) for g in gs))
    return B.zip(*[list(iter(x)) if isinstance(x, (SymArr, SymList)) else x for x in xs], **k)


def b_enumerate(x, start=0):
    if symlen(x) is not None:
        n, g = A.as_seq(x)
        return SymList(n, lambda i: (i + start if start else i, g(i)))
    return B.enumerate(x, start)


def b_sum(x, start=0):
    if symlen(x) is not None:
        a = A.lift(x)
        if a.ndim != 1:
            raise Unsupported('sum of rows')
        r = A.sym_sum(a)
        return r + start if not (isinstance(start, int) and start == 0) else r
    return B.sum(x, start)


def _mm(mx, a, k):
    if len(a) == 1 and not k:
        x = a[0]
        if symlen(x) is not None:
            y = A.lift(x)
            return SR(extremum(y, None, mx)(()))
        x = list(x)
        if any(isinstance(v, SNum) for v in x):
            return fold_ext(x, mx)
        return (B.max if mx else B.min)(x)
    if not k and any(isinstance(v, SNum) for v in a):
        return fold_ext(a, mx)
    return (B.max if mx else B.min)(*a, **k)


def b_max(*a, **k): return _mm(True, a, k)
def b_min(*a, **k): return _mm(False, a, k)


def b_isinstance(x, t):
    ts = t if isinstance(t, tuple) else (t,)
    if isinstance(x, SymArr):
        return any(q in (np.ndarray, collections.abc.Iterable, collections.abc.Collection, collections.abc.Sized,
                         object) or getattr(q, '__name__', '') in ('Iterable', 'Collection') for q in ts)
    if isinstance(x, SymList):
        return any(q in (list, object) or getattr(q, '__name__', '') in ('Iterable', 'Collection', 'Sequence')
                   or getattr(q, '_name', '') in ('Iterable', 'Collection', 'Sequence') for q in ts)
    if isinstance(x, SR):
        return any(q in (float, np.floating, object) or getattr(q, '__name__', '') in ('Number', 'Real') for q in ts)
    if isinstance(x, SI):
        return any(q in (int, object) or getattr(q, '__name__', '') in ('Number', 'Integral') for q in ts)
    if isinstance(x, SB):
        return any(q in (bool, int, object) for q in ts)
    return B.isinstance(x, t)


def b_sorted(x, **k):
    if symlen(x) is not None:
        raise Unsupported('sorted of symbolic length')
    return BvList(B.sorted(x, **k))


def b_list(*a):
    if a and symlen(a[0]) is not None:
        n, g = A.as_seq(a[0])
        r = BvList()
        r.sym = A.SymList(n, frozen(n, g))
        return r
    return mklist(B.list(*a))


def b_tuple(*a):
    if a and symlen(a[0]) is not None:
        n, g = A.as_seq(a[0])
        return A.SymList(n, g)
    return B.tuple(*a)


def b_any(x):
    if symlen(x) is not None:
        raise Unsupported('any')
    x = list(x)
    for v in x:
        if v:
            return True
    return False


def b_all(x):
    if symlen(x) is not None:
        raise Unsupported('all')
    for v in x:
        if not v:
            return False
    return True


def b_float(x=0.0):
    if isinstance(x, SR):
        return x
    if isinstance(x, SI):
        return SR(zr(x))
    return B.float(x)


def b_int(x=0, *a):
    if isinstance(x, SI):
        return x
    return B.int(x, *a)


def b_abs(x):
    return B.abs(x)


def b_iter(x, *a):
    return B.iter(x, *a)


def b_round(x, *a):
    if isinstance(x, SNum):
        raise Unsupported('round')
    return B.round(x, *a)


def b_reversed(x):
    if symlen(x) is not None:
        n, g = A.as_seq(x)
        return SymList(n, lambda i: g(n - 1 - i))
    return B.reversed(x)


# ---------------------------------------------------------------------------
class Rec:
    """effects of one path of a summarised loop body"""
    def __init__(self, level):
        self.level = level
        self.reads, self.writes, self.appends = [], [], []

    def read(self, store, region):
        self.reads.append((store, region))

    def write(self, store, region, val):
        if store.epoch >= self.level:
            return      # created inside the body
        self.writes.append((store, region, val))

    def append(self, lst, x):
        self.appends.append((lst, x))


def subst_term(t, k, kk):
    if isinstance(t, int):
        return t
    r = z3.substitute(t, (k, A.idx_term(kk)))
    return r


def subst_val(v, k, kk):
    if isinstance(v, SR):
        return SR(subst_term(v.z, k, kk))
    if isinstance(v, SI):
        return mk_int(subst_term(v.z, k, kk))
    if isinstance(v, SB):
        return SB(subst_term(v.z, k, kk))
    if isinstance(v, SymArr):
        f = v.store.fn
        vm = v._vm()
        shp = [subst_term(s, k, kk) if not isinstance(s, int) else s for s in v.shape_]
        return SymArr(shp, lambda ix: subst_term(f(vm(tuple(ix))), k, kk))
    if isinstance(v, tuple):
        return tuple(subst_val(x, k, kk) for x in v)
    if isinstance(v, BvList) and v.sym is not None:
        r = BvList()
        s = v.sym
        r.sym = SymList(subst_val(s.n, k, kk), lambda i: subst_val(s.get(i), k, kk))
        return r
    if isinstance(v, list):
        return BvList([subst_val(x, k, kk) for x in v])
    if isinstance(v, np.ndarray) and v.dtype == object:
        out = np.empty(v.shape, dtype=object)
        for i in np.ndindex(*v.shape):
            out[i] = subst_val(v[i], k, kk)
        return out
    if isinstance(v, (int, float, str, bool, type(None), np.number, np.ndarray, fractions.Fraction)):
        return v
    if hasattr(v, 'bv_subst'):
        return v.bv_subst(lambda x: subst_val(x, k, kk))
    raise Unsupported('loop result of type %r' % type(v))


def freeze_val(v):
    """snapshot arrays so that later writes do not change the recorded value"""
    if isinstance(v, SymArr):
        return SymArr(v.shape_, v.snap())
    if isinstance(v, tuple):
        return tuple(freeze_val(x) for x in v)
    if isinstance(v, BvList) and v.sym is not None:
        return v
    if isinstance(v, list):
        return BvList([freeze_val(x) for x in v])
    return v


def frozen(n, g):
    """evaluate g once at a generic index (all paths), return index -> value"""
    c = ctx()
    k = z3.Int(c.fresh_name('k'))
    level = len(c.loop_stack) + 1

    def run():
        c.add(z3.And(k >= 0, k < A.idx_term(A.dim(n))))
        rec = Rec(level)
        c.loop_stack.append(rec)
        try:
            v = freeze_val(g(SI(k)))
        finally:
            c.loop_stack.pop()
        if rec.writes or rec.appends:
            raise Unsupported('side effect in a comprehension of symbolic length')
        if c.loop_stack:
            c.loop_stack[-1].reads.extend(rec.reads)
        return v
    paths = c.sub_explore(run)
    return chooser(paths, k)


def chooser(paths, k):
    def get(i):
        if len(paths) == 1:
            return subst_val(paths[0][1], k, A.as_idx(i))
        # scalar values merge into ite; otherwise branch
        vals = [(z3.And(*[z3.BoolVal(True)] + [subst_term(q, k, A.as_idx(i)) for q in conds]),
                 subst_val(v, k, A.as_idx(i))) for conds, v in paths]
        if all(isinstance(v, (SNum, int, float)) and not isinstance(v, bool) for _, v in vals):
            r = vals[-1][1]
            for cnd, v in vals[-2::-1]:
                r = ite(cnd, v, r)
            return r
        for cnd, v in vals[:-1]:
            if A.decide(cnd):
                return v
        return vals[-1][1]
    return get


def listcomp(f, it, cond=None):
    n = symlen(it)
    if n is not None and unique_int(n) is None:
        if cond is not None:
            raise Unsupported('filtered comprehension of symbolic length')
        m, g = A.as_seq(it)
        r = BvList()
        r.sym = SymList(m, frozen(m, lambda k: f(g(k))))
        return r
    out = mklist([])
    for x in it:
        if cond is None or cond(x):
            list.append(out, f(x))
    return out


def for_loop(it, body, site, names):
    n = symlen(it)
    if n is not None and unique_int(n) is None:
        return parallel_loop(it, body, site, names)
    for x in it:
        r = body(x)
        if r is None:
            continue
        if r is BREAK:
            return None
        return r
    return None


def _cells(body, names):
    fv = body.__code__.co_freevars
    return [body.__closure__[fv.index(nm)] for nm in names if nm in fv]


def parallel_loop(it, body, site, names):
    """Rule for a loop of symbolic length whose iterations are independent.

    The body is executed once for a generic index k, over all its paths; the
    effect of the loop is the union of the effects of all 0 <= k < n provided
    (side condition, discharged by z3) that no iteration reads or writes a cell
    another one writes, and no local is carried from one iteration to the next."""
    c = ctx()
    m, g = A.as_seq(it)
    zn = A.idx_term(A.dim(m))
    k = z3.Int(c.fresh_name('k'))
    cells = _cells(body, names)
    saved = []
    for ce in cells:
        try:
            saved.append((True, ce.cell_contents))
        except ValueError:
            saved.append((False, None))
    poison = Poison()
    level = len(c.loop_stack) + 1
    stores = {}

    def run():
        c.add(z3.And(k >= 0, k < zn))
        rec = Rec(level)
        for ce in cells:
            ce.cell_contents = poison
        c.loop_stack.append(rec)
        olds = None
        try:
            r = body(g(SI(k)))
        finally:
            c.loop_stack.pop()
            for st, fn in list(undo.items()):
                st.fn = fn
            undo.clear()
        if r is not None:
            raise Unsupported('break/return inside a loop of symbolic length')
        rec.appends = [(l, freeze_val(v)) for l, v in rec.appends]
        return rec

    undo = {}
    # remember store contents before the body: writes are rolled back after each path
    orig_write = Rec.write

    def logging_write(self, store, region, val):
        if store.epoch < self.level and store not in undo:
            undo[store] = store.fn
        orig_write(self, store, region, val)
    Rec.write = logging_write
    try:
        paths = c.sub_explore(run)
    finally:
        Rec.write = orig_write
        for ce in cells:
            ce.cell_contents = poison
    # side condition: independence
    k2 = z3.Int(c.fresh_name('k2'))
    wr = [(st, reg, conds) for conds, r in paths for st, reg, v in r.writes]
    rd = [(st, reg, conds) for conds, r in paths for st, reg in r.reads]
    dom = z3.And(k >= 0, k < zn, k2 >= 0, k2 < zn, k != k2)
    for st, reg, conds in wr:
        sx = tuple(z3.Int('sx!%d' % d) for d in range(st.ndim))
        nonneg = z3.And(*[s >= 0 for s in sx])
        for st2, reg2, conds2 in wr + rd:
            if st2 is not st:
                continue
            a = z3.And(reg(sx), *conds) if conds else reg(sx)
            b = z3.And(reg2(sx), *conds2) if conds2 else reg2(sx)
            b = z3.substitute(b, (k, k2))
            if c.check(dom, nonneg, a, b) != z3.unsat:
                raise Unsupported('loop at %s: iterations not provably independent' % site)
    # combined effect
    bystore = {}
    for conds, r in paths:
        for st, reg, v in r.writes:
            bystore.setdefault(st, []).append((conds, reg, v))
    for st, effs in bystore.items():
        # which coordinate determines k?
        sx = tuple(z3.Int('sx!%d' % d) for d in range(st.ndim))
        for d in range(st.ndim):
            if all(c.check(k >= 0, k < zn, reg(sx), k != sx[d]) == z3.unsat for _, reg, _ in effs):
                break
        else:
            raise Unsupported('loop at %s: written cell does not determine the iteration' % site)
        old = st.fn

        def fn(ix, effs=effs, old=old, d=d):
            kk = A.idx_term(ix[d])
            r = old(ix)
            for conds, reg, v in effs:
                cnd = z3.And(kk >= 0, kk < zn, z3.substitute(reg(ix), (k, kk)),
                             *[z3.substitute(q, (k, kk)) for q in conds])
                cnd = z3.simplify(cnd)
                if z3.is_false(cnd):
                    continue
                r = A._zif(cnd, z3.substitute(v(ix), (k, kk)), r)
            return r
        if c.loop_stack:
            raise Unsupported('nested writing loops')
        st.fn = fn
    lists = {}
    for conds, r in paths:
        seen = {}
        for l, v in r.appends:
            seen.setdefault(id(l), []).append(v)
            lists[id(l)] = l
    for lid, l in lists.items():
        vals = []
        for conds, r in paths:
            vs = [v for q, v in r.appends if id(q) == lid]
            if len(vs) != 1:
                raise Unsupported('loop at %s: not exactly one append per iteration' % site)
            vals.append((conds, vs[0]))
        new = SymList(m, chooser(vals, k))
        if l.sym is None and list.__len__(l) == 0:
            l.sym = new
        else:
            l.sym = A.seq_concat(l if l.sym is None else l.sym, new)
    return None


def setattr_(o, name, v):
    c = T.CTX
    if c is not None and c.loop_stack:
        raise Unsupported('attribute store in a loop of symbolic length')
    B.setattr(o, name, v)


def setitem_(o, key, v):
    c = T.CTX
    if c is not None and c.loop_stack and not isinstance(o, SymArr):
        raise Unsupported('item store in a loop of symbolic length')
    if isinstance(o, np.ndarray) and o.dtype != object and A.deep_scalar(v):
        raise Unsupported('symbolic value stored in a concrete numpy array')
    if isinstance(o, np.ndarray) and A.deep_sym(key):
        raise Unsupported('symbolic index into a concrete array')
    o[key] = v


class BV:
    pass


BVNS = BV()
for _n, _v in list(globals().items()):
    if _n.startswith('b_') or _n in ('mklist', 'listcomp', 'for_loop', 'setattr_', 'setitem_', 'is_ret', 'Ret', 'BREAK'):
        setattr(BVNS, _n, _v)
BVNS.np = SHIM
