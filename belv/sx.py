"""Equality of sympy expressions: z3 (opaque functions and derivatives as atoms) or numeric evaluation."""
import math, time, random
import sympy
import z3
from . import terms as T
from .terms import zr, uf, Unsupported, Obligation


class NotConv(Exception):
    pass


_MATH = {'sin': 'sin', 'cos': 'cos', 'tan': 'tan', 'exp': 'exp', 'log': 'log', 'asin': 'asin', 'acos': 'acos',
         'atan': 'atan', 'tanh': 'tanh', 'sinh': 'sinh', 'cosh': 'cosh'}
_RECIP = {'sec': 'cos', 'csc': 'sin', 'sech': 'cosh', 'csch': 'sinh'}


def plain(e):
    """sec, csc, cot, ... by sin and cos: one written form for the same function"""
    try:
        for n, m in _RECIP.items():
            e = e.replace(getattr(sympy, n), lambda x, m=m: 1 / getattr(sympy, m)(x))
        e = e.replace(sympy.cot, lambda x: sympy.cos(x) / sympy.sin(x))
        e = e.replace(sympy.coth, lambda x: sympy.cosh(x) / sympy.sinh(x))
    except Exception:
        pass
    return e


def to_z3(e, env, side):
    """sympy -> z3 real; side collects definedness facts (denominators non-zero)"""
    if isinstance(e, (int, float)):
        return zr(e)
    if e.is_Number:
        if e in (sympy.oo, -sympy.oo, sympy.zoo, sympy.nan):
            raise NotConv(str(e))
        return zr(e)
    if e is sympy.pi:
        return T.PI
    if e is sympy.E:
        return uf('exp')(z3.RealVal(1))
    if e.is_Symbol:
        return z3.Real('s:' + e.name)
    if e.is_Add:
        r = None
        for a in e.args:
            z = to_z3(a, env, side)
            r = z if r is None else r + z
        return r
    if e.is_Mul:
        r = None
        for a in e.args:
            z = to_z3(a, env, side)
            r = z if r is None else r * z
        return r
    if e.is_Pow:
        b, x = e.args
        if b is sympy.E:
            return uf('exp')(to_z3(x, env, side))
        zb = to_z3(b, env, side)
        if x.is_Integer:
            n = int(x)
            if abs(n) > 12:
                raise NotConv('power')
            r = z3.RealVal(1)
            for _ in range(abs(n)):
                r = r * zb
            if n < 0:
                side.append(zb != 0)
                return 1 / r
            return r
        if x.is_Rational and x.q == 2:
            s = uf('sqrt')(zb)
            side.append(zb > 0)
            p = int(x.p)
            r = z3.RealVal(1)
            for _ in range(abs(p)):
                r = r * s
            return r if p >= 0 else 1 / r
        return uf('pow', 2)(zb, to_z3(x, env, side))
    if isinstance(e, sympy.exp):
        return uf('exp')(to_z3(e.args[0], env, side))
    if e.is_Function and type(e).__name__ in _MATH and len(e.args) == 1 and not isinstance(e, sympy.core.function.AppliedUndef):
        n = _MATH[type(e).__name__]
        z = to_z3(e.args[0], env, side)
        if n == 'tan':
            side.append(uf('cos')(z) != 0)
            return uf('sin')(z) / uf('cos')(z)
        return uf(n)(z)
    if isinstance(e, sympy.Derivative) or isinstance(e, sympy.Subs) or isinstance(e, sympy.core.function.AppliedUndef) \
            or e.is_Function:
        # opaque: congruence on the canonical printed form
        return z3.Real('o:' + sympy.srepr(canon(e)))
    raise NotConv('cannot translate %s' % type(e))


def canon(e):
    try:
        return e.doit()
    except Exception:
        return e


def prove_eq(ctx, name, a, b):
    t0 = time.time()
    a, b = plain(sympy.sympify(a)), plain(sympy.sympify(b))
    if isinstance(a, sympy.MatrixBase) or isinstance(b, sympy.MatrixBase):
        raise Unsupported('matrix in expr_eq')
    if a == b:
        ctx.log.append(Obligation(name, 'proved', time.time() - t0, backend='syntactic'))
        return True
    try:
        side = []
        za, zb_ = to_z3(a.doit(), None, side), to_z3(b.doit(), None, side)
        s = z3.Solver()
        s.set('timeout', ctx.solver_ms)
        s.add(*ctx.pc)
        s.add(*side)
        s.add(za != zb_)
        s.add(*T.math_axioms([za == zb_] + side))
        r = s.check()
        if r == z3.unsat:
            ctx.log.append(Obligation(name, 'proved', time.time() - t0))
            return True
    except NotConv:
        r = z3.unknown
    try:
        d = sympy.simplify(sympy.expand((a - b).doit()))
        if d == 0:
            ctx.log.append(Obligation(name, 'proved', time.time() - t0, backend='sympy-normal-form'))
            return True
    except Exception:
        pass
    ok, det = num_eq(a, b, random.Random(7), trials=4)
    if not ok:
        ctx.log.append(Obligation(name, 'refuted', time.time() - t0, detail=det, model={}))
        return False
    ctx.log.append(Obligation(name, 'unknown', time.time() - t0, detail='%s =?= %s' % (str(a)[:200], str(b)[:200])))
    return None


class NumFn:
    pass


def concretise(e, rng):
    """replace opaque functions by concrete smooth ones"""
    fs = sorted({f.func for f in e.atoms(sympy.core.function.AppliedUndef)}, key=str)
    rep = {}
    for f in fs:
        rep[f] = concrete_fn(f)
    return rep


def concrete_fn(f):
    nm = str(f)
    r = random.Random(nm)

    def g(*args):
        s = sympy.Rational(r2(nm, 0), 100)
        for i, a in enumerate(args):
            s += sympy.Rational(r2(nm, i + 1), 100) * a
        t = 0
        for i, a in enumerate(args):
            t += sympy.Rational(r2(nm, 50 + i), 100) * a ** 2
        return sympy.sin(s) + t + s
    return g


def r2(nm, i):
    from .world import _h
    return _h(nm, i) % 180 - 90 or 37


def num_eq(a, b, rng, trials=3, tol=1e-7):
    a, b = sympy.sympify(a), sympy.sympify(b)
    if a == b:
        return True, ''
    try:
        d = [a, b]
        for e in (a, b):
            if e.has(sympy.zoo) or e.has(sympy.nan) or e.has(sympy.oo):
                return False, 'infinite expression: %s vs %s' % (str(a)[:200], str(b)[:200])
        fs = set()
        for e in d:
            fs |= {f.func for f in e.atoms(sympy.core.function.AppliedUndef)}
        out = []
        for e in d:
            for f in fs:
                e = e.replace(f, concrete_fn(f))
            out.append(e.doit())
        a2, b2 = out
        syms = sorted(a2.free_symbols | b2.free_symbols, key=lambda s: s.name)
        good = 0
        for k in range(trials * 6):
            pt = {s: sympy.Float(rng.uniform(0.2, 1.4) * (1 if k % 2 or k > 8 else rng.choice([-1, 1]))) for s in syms}
            try:
                va, vb = complex(a2.xreplace(pt).evalf(20)), complex(b2.xreplace(pt).evalf(20))
            except (TypeError, ValueError, ZeroDivisionError, OverflowError):
                continue
            if not (math.isfinite(va.real) and math.isfinite(vb.real)):
                continue
            good += 1
            if abs(va - vb) > tol * (1 + abs(va) + abs(vb)):
                return False, '%s  !=  %s   (%.10g vs %.10g at %s)' % (
                    str(a)[:250], str(b)[:250], va.real, vb.real, {str(s): float(v) for s, v in pt.items()})
            if good >= trials:
                break
        if good == 0:
            return True, 'not comparable numerically'
        return True, ''
    except RecursionError:
        return True, 'recursion'


def fingerprint(e, salt=0):
    """value of an expression at a fixed generic point, opaque functions replaced by fixed smooth ones"""
    e = sympy.sympify(e)
    for f in {f.func for f in e.atoms(sympy.core.function.AppliedUndef)}:
        e = e.replace(f, concrete_fn(f))
    e = e.doit()
    pt = {s: sympy.Float(0.3 + (r2(s.name, 7 + salt) % 90) / 100.0) for s in e.free_symbols}
    try:
        return complex(e.xreplace(pt).evalf(15))
    except (TypeError, ValueError, ZeroDivisionError, OverflowError):
        return complex(float('nan'))


def match(got, want, signed=False):
    """pair the expressions of two collections (any order; signed: up to sign): list of (want, got or None), leftover"""
    fg = [fingerprint(g) for g in got]
    used, pairs = set(), []
    for x in want:
        f = fingerprint(x)
        best = None
        for i, v in enumerate(fg):
            if i in used:
                continue
            for sgn in ((1, -1) if signed else (1,)):
                d = abs(v * sgn - f)
                if d <= 1e-8 * (1 + abs(f)):
                    best = (i, sgn)
                    break
            if best:
                break
        if best is None:
            pairs.append((x, None))
        else:
            used.add(best[0])
            pairs.append((x, best[1] * sympy.sympify(got[best[0]])))
    return pairs, [g for i, g in enumerate(got) if i not in used]


def value(e, env, fns=None):
    """evaluate a sympy expression in plain arithmetic (floats or symbolic reals); independent of lambdify"""
    from .terms import SNum
    e = plain(sympy.sympify(e))
    fns = fns or {}

    def ev(x):
        if x.is_Symbol:
            return env[x.name]
        if x.is_Integer:
            return int(x)
        if x.is_Rational:
            import fractions
            return mk(int(x.p)) / mk(int(x.q)) if sym else float(x)
        if x.is_Float:
            return float(x)
        if x is sympy.pi:
            from .terms import SR
            return SR(T.PI) if sym else math.pi
        if x is sympy.E:
            return call('exp', 1)
        if x.is_Add:
            r = 0
            for a in x.args:
                r = r + ev(a)
            return r
        if x.is_Mul:
            r = 1
            for a in x.args:
                r = r * ev(a)
            return r
        if x.is_Pow:
            b, p = x.args
            if b is sympy.E:
                return call('exp', ev(p))
            if p.is_Integer:
                n = int(p)
                v, r = ev(b), 1
                for _ in range(abs(n)):
                    r = r * v
                return r if n >= 0 else 1 / r
            if p == sympy.Rational(1, 2):
                return call('sqrt', ev(b))
            if p == -sympy.Rational(1, 2):
                return 1 / call('sqrt', ev(b))
            return ev(b) ** ev(p)
        if isinstance(x, sympy.exp):
            return call('exp', ev(x.args[0]))
        nm = type(x).__name__
        if nm in fns:
            return fns[nm](*[ev(a) for a in x.args])
        if nm in _MATH and len(x.args) == 1:
            return call(nm, ev(x.args[0]))
        if sym:
            raise Unsupported('cannot evaluate %s' % x)
        if x.is_Function and not isinstance(x, sympy.core.function.AppliedUndef):
            try:
                v = complex(x.func(*[sympy.Float(float(ev(a)), 17) for a in x.args]).evalf(17))
                if v.imag == 0:
                    return v.real
            except (TypeError, ValueError):
                pass
        raise NotConv('cannot evaluate %s' % x)

    def mk(n):
        from .terms import SR
        return SR(zr(n))

    def call(n, v):
        if isinstance(v, SNum):
            if n == 'tan':
                return v.sin() / v.cos()
            return getattr(v, {'asin': 'arcsin', 'acos': 'arccos', 'atan': 'arctan'}.get(n, n))()
        return getattr(math, n)(v)
    sym = any(isinstance(v, SNum) for v in env.values())
    return ev(e)
