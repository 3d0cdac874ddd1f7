"""C19 - translating symbolic expressions preserves their value."""
import cmath
import itertools
import unicodedata

import numpy as np
import sympy
from sympy.core.facts import InconsistentAssumptions
from sympy.polys.polyerrors import BasePolynomialError

from orquestra.quantum.circuits import natural_key, natural_key_revlex
from orquestra.quantum.circuits.symbolic import natural_key_fixed_names_order
from orquestra.quantum.circuits.symbolic.sympy_expressions import SYMPY_DIALECT, expression_from_sympy
from orquestra.quantum.circuits.symbolic.translations import translate_expression

from vmon import core

PROPERTY = "C19"
RULE = (
    "expression trees over symbols (oddly named ones too), integers, floats, rationals, I, sums, differences, products, "
    "quotients, powers, square roots, cos/sin/tan/exp up to depth 5 (chains up to 60, sums of up to 40), built by Python "
    "operators and by unevaluated constructors in every argument order, plus all orderings of the special-cased shapes and "
    "native numbers; the same trees with one of 60 foreign constructs planted anywhere; names with digit groups. Oracle: own "
    "recursive evaluator at complex, positive and negative points on both sides; own tokenizer for sort keys. Identified by "
    "the expression."
)
ASSUMPTIONS = [
    "values are compared in double precision (1e-9 relative to the largest intermediate value); points at poles, with values above 1e6 or on a branch cut that only rounding decides are not judged",
    "symbols carry no assumptions",
    "an expression is inside the grammar if every node of the tree sympy built is",
]

NAMES = ["x", "y", "z", "theta", "phi_1", "phi_10", "a", "b", "I", "E", "pi", "cos", "lambda", "S", "N", "O", "Q", "beta_2", "x y", "1a", "S.Half", "sqrt", "add", "0", "ω", "x'"]
FUNCS = [sympy.cos, sympy.sin, sympy.tan, sympy.exp]


class Unjudged(Exception):
    pass


def _clean(z):
    """Values on the negative real axis belong to the upper side."""
    z = complex(z)
    if not (abs(z.real) < 1e6 and abs(z.imag) < 1e6):
        raise Unjudged
    if abs(z.imag) <= 1e-12 * max(abs(z.real), 1e-6):
        z = complex(z.real, 0.0)
    return z


class Eval:
    """Recursive evaluation, recording the largest intermediate value."""

    def __init__(self, values):
        self.values, self.top, self.edge = values, 1.0, False

    def __call__(self, e):
        z = _clean(self._eval(e))
        self.top = max(self.top, abs(z))
        return z

    def _eval(self, e):
        if isinstance(e, (int, float, complex, np.number)):
            return complex(e)
        if e.is_Symbol:
            return complex(self.values[e.name])
        if e.is_Number or isinstance(e, sympy.NumberSymbol):
            return complex(e)
        if e is sympy.I:
            return 1j
        if e.is_Add:
            return sum((self(a) for a in e.args), 0j)
        if e.is_Mul:
            r = 1 + 0j
            for a in e.args:
                r = _clean(r * self(a))
                self.top = max(self.top, abs(r))
            return r
        if e.is_Pow:
            b, x = self(e.args[0]), self(e.args[1])
            if abs(b) < 1e-6 and not (e.args[1].is_Integer and e.args[1] >= 0):
                raise Unjudged
            if x == int(x.real):
                n = int(x.real)
                if n < 0 and abs(b) < 1e-6:
                    raise Unjudged
                if abs(n) > 400 or abs(n) * abs(cmath.log(b).real if b else 0) > 14:
                    raise Unjudged
                if n < 0:
                    self.top = max(self.top, abs(b) ** n)
                return b**n
            if abs(b) < 1e-6:
                raise Unjudged
            if b.real < 0 and abs(b.imag) < 1e-7 * abs(b) and b.imag != 0:
                raise Unjudged
            if b.real < 0 and b.imag == 0:
                if isinstance(e, sympy.Basic) and e.args[0].has(sympy.I):
                    raise Unjudged
                self.edge = True
            lg = x * cmath.log(b)
            self.top = max(self.top, abs(lg))
            if abs(lg.real) > 14:
                raise Unjudged
            return cmath.exp(lg)
        if isinstance(e, sympy.exp):
            z = self(e.args[0])
            if abs(z.real) > 14:
                raise Unjudged
            return cmath.exp(z)
        table = {sympy.cos: cmath.cos, sympy.sin: cmath.sin, sympy.tan: cmath.tan, sympy.cosh: cmath.cosh, sympy.sinh: cmath.sinh, sympy.tanh: cmath.tanh}
        if e.func in table:
            z = self(e.args[0])
            if abs(z.imag) > 14 or abs(z.real) > 1e5:
                raise Unjudged
            if e.func in (sympy.tan, sympy.tanh) and abs(cmath.cos(z if e.func is sympy.tan else 1j * z)) < 1e-4:
                raise Unjudged
            return table[e.func](z)
        return complex(e.subs({sympy.Symbol(k): v for k, v in self.values.items()}, simultaneous=True))


_LEAVES = (sympy.Symbol, sympy.Integer, sympy.Float, sympy.Rational)


def _inside(e):
    """Is every node of the tree in the supported grammar?"""
    if e is sympy.I:
        return True
    if e.is_Number:
        return e.is_finite and isinstance(e, (sympy.Integer, sympy.Float, sympy.Rational))
    if isinstance(e, sympy.Symbol):
        return True
    if e.is_Add or e.is_Mul or e.is_Pow or e.func in FUNCS:
        return all(_inside(a) for a in e.args)
    return False


def _number(rng):
    r = rng.random()
    if r < 0.4:
        return sympy.Integer(rng.choice([-3, -2, -1, -1, -1, 0, 1, 1, 2, 2, 3, 5, 7, 10]))
    if r < 0.65:
        return sympy.Rational(rng.randint(-9, 9), rng.choice([2, 2, 3, 4, 7]))
    if r < 0.9:
        return sympy.Float(rng.choice([0.5, -0.5, -1.0, 1.0, 2.0, 0.25, 1.5, rng.uniform(-3, 3), rng.uniform(-0.1, 0.1)]))
    return sympy.I


def _native(rng):
    return rng.choice([rng.randint(-3, 3), -1, 2, 0.5, -0.5, -1.0, rng.uniform(-2, 2), 1j, 2 - 1j, complex(0, -0.5)])


def _tree(rng, syms, depth):  # noqa: C901
    """A random expression, mixing evaluated and unevaluated construction."""
    r = rng.random()
    if depth == 0 or r < 0.12:
        return rng.choice(syms) if rng.random() < 0.65 else _number(rng)
    sub = lambda: _tree(rng, syms, depth - 1)  # noqa: E731
    raw = rng.random() < 0.4
    r = rng.random()
    if r < 0.22:
        args = [sub() for _ in range(rng.choice([2, 2, 2, 3, 4]))]
        return sympy.Add(*args, evaluate=False) if raw else sympy.Add(*args)
    if r < 0.42:
        a, b = sub(), sub()
        if not raw:
            return a - b
        neg = rng.choice([
            lambda: sympy.Mul(-1, b, evaluate=False), lambda: sympy.Mul(b, -1, evaluate=False), lambda: -b,
            lambda: sympy.Mul(sympy.Float(-1.0), b, evaluate=False), lambda: sympy.Mul(-1, b, sub(), evaluate=False),
            lambda: sympy.Mul(-1, -1, b, evaluate=False), lambda: sympy.Mul(-1, sympy.Mul(-1, b, evaluate=False), evaluate=False),
            lambda: sympy.Mul(-2, b, evaluate=False), lambda: sympy.Mul(-1, sympy.Pow(b, -1, evaluate=False), evaluate=False),
        ])()
        args = [a, neg] + ([sub()] if rng.random() < 0.15 else [])
        if rng.random() < 0.4:
            rng.shuffle(args)
        return sympy.Add(*args, evaluate=False)
    if r < 0.57:
        args = [sub() for _ in range(rng.choice([2, 2, 2, 3, 4]))]
        return sympy.Mul(*args, evaluate=False) if raw else sympy.Mul(*args)
    if r < 0.72:
        a, b = sub(), sub()
        if not raw:
            return a / b
        rec = rng.choice([
            lambda: sympy.Pow(b, -1, evaluate=False), lambda: sympy.Pow(b, sympy.Float(-1.0), evaluate=False), lambda: sympy.Pow(b, -2, evaluate=False),
            lambda: sympy.Pow(sympy.Pow(b, -1, evaluate=False), -1, evaluate=False), lambda: sympy.Pow(b, sympy.Rational(-1, 2), evaluate=False),
        ])()
        args = [a, rec] + ([sub()] if rng.random() < 0.15 else [])
        if rng.random() < 0.4:
            rng.shuffle(args)
        return sympy.Mul(*args, evaluate=False)
    if r < 0.85:
        b = sub()
        x = rng.choice([
            lambda: sympy.Integer(rng.choice([-3, -2, -1, 0, 1, 2, 3, 4])), lambda: sympy.Rational(rng.choice([1, 1, -1, 3, -3, 5]), 2),
            lambda: sympy.Float(rng.choice([0.5, -0.5, -1.0, 1.5, 0.3])), lambda: sympy.Rational(rng.choice([1, -1, 2]), 3), sub,
        ])()
        return sympy.Pow(b, x, evaluate=False) if raw else b**x
    if r < 0.9:
        b = sub()
        return sympy.sqrt(b, evaluate=False) if raw else sympy.sqrt(b)
    f = rng.choice(FUNCS)
    b = sub()
    return f(b, evaluate=False) if raw else f(b)


def _points(rng, names):
    yield {n: complex(rng.uniform(-1.5, 1.5), rng.uniform(-1.5, 1.5)) for n in names}
    yield {n: rng.uniform(0.2, 2.0) for n in names}
    yield {n: rng.uniform(-2.0, 2.0) for n in names}
    yield {n: rng.choice([1, 2, 3, -1, -2, 0.5]) for n in names}
    yield {n: complex(rng.uniform(0.1, 0.9), rng.choice([-1, 1]) * rng.uniform(0.05, 0.5)) for n in names}


def _frames(e):
    out, tb = [], e.__traceback__
    while tb is not None:
        out.append(tb.tb_frame.f_code.co_filename)
        tb = tb.tb_next
    return out


SYMPY_DEFECTS = (AssertionError, InconsistentAssumptions, BasePolynomialError)


def _sympy_gives_up(case):
    """sympy's own evaluation may recurse too deeply or fail: nothing to decide then.

    That is so when no frame of the library is involved, or when sympy runs into one of
    its own internal errors; a recursion has to be sympy's, not the library's.
    """

    def run(ctx):
        try:
            case(ctx)
        except (core.Violation, core.Skip):
            raise
        except Exception as e:
            frames = _frames(e)
            ours = sum(f.startswith(core.REPO + "/src") for f in frames)
            in_sympy = "/sympy/" in frames[-1]
            if isinstance(e, RecursionError) and ours <= 350:
                ctx.ev("sympy_recursion")
            elif in_sympy and (ours == 0 or isinstance(e, SYMPY_DEFECTS)):
                ctx.ev("sympy_defect")
            else:
                raise

    return run


def _round_trip(ctx, expr, **w):
    tree = expression_from_sympy(expr)
    return tree, translate_expression(tree, SYMPY_DIALECT)


def _check_value(ctx, expr, names, deep=False):
    rng = ctx.rng
    w = dict(expression=expr, structure=sympy.srepr(expr) if isinstance(expr, sympy.Basic) and not deep else "")
    try:
        points = []
        for p in _points(rng, names):
            try:
                ev = Eval(p)
                points.append((p, ev(expr), ev.top, ev.edge))
            except (Unjudged, ZeroDivisionError, OverflowError):
                pass
    except RecursionError:
        raise core.Skip
    if not points:
        ctx.ev("unjudged")
        return False
    try:
        tree, back = _round_trip(ctx, expr)
    except (ZeroDivisionError, OverflowError) as e:
        ctx.fail(f"translation of a finite expression fails: {e!r}", **w)
    ctx.check(isinstance(back, (sympy.Basic, int, float, complex, np.number)), "translation yields no expression", got=back, tree=tree, **w)
    if isinstance(back, sympy.Basic):
        ctx.check({s.name for s in back.free_symbols} <= set(names) and all(isinstance(s, sympy.Symbol) and s == sympy.Symbol(s.name) for s in back.free_symbols),
                  "translation changed the symbols", got=back, tree=tree, **w)
    judged = 0
    for p, want, top, edge in points:
        try:
            ev = Eval(p)
            got = ev(back)
        except Unjudged:
            if isinstance(back, sympy.Basic) and back.has(sympy.zoo, sympy.nan, sympy.oo):
                ctx.fail("translation is not finite although the expression is", got=back, tree=tree, at=p, want=want, **w)
            # rounding alone may turn a judged point into an unjudged one
            ctx.ev("unjudged_points")
            continue
        except ZeroDivisionError:
            continue
        except Exception as e:
            ctx.fail(f"translated expression cannot be evaluated: {e!r}", got=back, tree=tree, at=p, want=want, **w)
        ctx.ev("oracle")
        m = max(top, ev.top)
        if m > 1e5:
            ctx.ev("unjudged_points")
            continue
        if abs(got - want) > 1e-9 * m * max(1.0, m if m < 1e2 else 1e2):
            if (edge or ev.edge) and _on_edge(expr, back, p):
                ctx.ev("unjudged_points")
                continue
            ctx.fail("translation changed the value", got=got, want=want, at=p, back=back, tree=tree, **w)
        judged += 1
    if judged:
        ctx.ev("values_equal")
        ctx.ev("points", judged)
    return bool(judged)


def _on_edge(expr, back, p):
    """Do the two sides agree when the point moves off the branch cut?"""
    ok = 0
    for eps in (1e-5, -1e-5):
        q = {k: complex(v) * cmath.exp(1j * eps * (1 + i)) for i, (k, v) in enumerate(p.items())}
        try:
            a, b = Eval(q)(expr), Eval(q)(back)
        except (Unjudged, ZeroDivisionError):
            return True
        ok += abs(a - b) <= 1e-6 * max(1.0, abs(a))
    return ok == 2 and bool(p)


def random_trees(ctx):
    rng = ctx.rng
    names = rng.sample(NAMES, rng.choice([1, 2, 2, 3, 4]))
    syms = [sympy.Symbol(n) for n in names]
    for _ in range(4):
        try:
            e = _tree(rng, syms, rng.choice([1, 2, 2, 3, 3, 4, 4, 5]))
        except (ZeroDivisionError, OverflowError, TypeError):
            continue
        if not isinstance(e, sympy.Basic) or e.has(sympy.zoo, sympy.nan, sympy.oo, -sympy.oo):
            continue
        if not _inside(e):
            _refused(ctx, e)
            continue
        if _count(e) > 300:
            continue
        if _check_value(ctx, e, names):
            ctx.nontrivial(sympy.srepr(e))
            ctx.sample("expression", e)


def _count(e):
    return 1 + sum(_count(a) for a in e.args)


def _shapes():
    x, y, z = sympy.symbols("x y z")
    leaf = [x, y, sympy.Integer(2), sympy.Integer(-1), sympy.Integer(1), sympy.Rational(1, 2), sympy.Rational(-1, 2), sympy.Float(-1.0), sympy.Float(0.5), sympy.I, x + y, x * y, -y, -x * y, 1 / y, x / y,
            sympy.sqrt(y), y**2, y**-2, sympy.cos(y), sympy.Mul(y, -1, evaluate=False), sympy.Mul(-1, y, evaluate=False), sympy.Mul(-1, x + y, evaluate=False), sympy.Pow(y, -1, evaluate=False),
            sympy.Pow(x + y, -1, evaluate=False), sympy.Pow(y, sympy.Rational(-1, 2)), sympy.Add(x, -1, evaluate=False), sympy.Add(-1, x, evaluate=False), sympy.exp(x), -sympy.I * y,
            sympy.Mul(sympy.Float(-1.0), y, evaluate=False), sympy.Mul(-1, -1, y, evaluate=False), sympy.Mul(sympy.Pow(y, -1, evaluate=False), x, evaluate=False)]
    return leaf


SHAPES = _shapes()


def special_shapes(ctx):
    """Every ordered pair of building blocks under every two-argument node."""
    a = SHAPES[ctx.index % len(SHAPES)]
    names = ["x", "y", "z"]
    for b in SHAPES:
        for cls in (sympy.Add, sympy.Mul, sympy.Pow):
            for evaluate in (False, True):
                try:
                    e = cls(a, b, evaluate=evaluate)
                except (ZeroDivisionError, OverflowError):
                    continue
                if e.has(sympy.zoo, sympy.nan, sympy.oo) or not _inside(e):
                    continue
                if _check_value(ctx, e, names):
                    ctx.ev("pairs")
        for e in (a - b, sympy.Add(sympy.Symbol("z"), sympy.Mul(-1, a, b, evaluate=False), evaluate=False), sympy.Mul(a, b, sympy.Pow(sympy.Symbol("z"), -1), evaluate=False),
                  sympy.Add(a, b, sympy.Symbol("z"), evaluate=False)):
            if not e.has(sympy.zoo, sympy.nan, sympy.oo) and _inside(e):
                _check_value(ctx, e, names)
    ctx.nontrivial(sympy.srepr(a))


def deep_and_wide(ctx):
    rng = ctx.rng
    names = rng.sample(NAMES, rng.choice([1, 2, 3]))
    syms = [sympy.Symbol(n) for n in names]
    if rng.random() < 0.5:
        e = rng.choice(syms)
        for _ in range(rng.choice([10, 20, 40, 60])):
            s = rng.choice(syms)
            k = rng.randrange(8)
            e = [
                lambda: sympy.Add(s, sympy.Mul(-1, e, evaluate=False), evaluate=False), lambda: sympy.Mul(rng.choice([0.5, sympy.Rational(1, 3)]), e, evaluate=False),
                lambda: sympy.cos(e), lambda: sympy.sin(e), lambda: sympy.Add(e, s, evaluate=False), lambda: s - e, lambda: sympy.cos(e) / (3 + s**2), lambda: sympy.Add(1, -e, evaluate=False),
            ][k]()
    else:
        args = [_tree(rng, syms, 2) for _ in range(rng.randint(5, 40))]
        args = [a for a in args if not a.has(sympy.zoo, sympy.nan, sympy.oo)]
        cls = rng.choice([sympy.Add, sympy.Add, sympy.Mul])
        if cls is sympy.Mul:
            args = args[:8]
        e = cls(*args, evaluate=rng.random() < 0.5)
    if e.has(sympy.zoo, sympy.nan, sympy.oo) or not _inside(e):
        return
    if _check_value(ctx, e, names, deep=True):
        ctx.ev("deep_or_wide")
        ctx.nontrivial(str(e)[:2000])


def native_numbers(ctx):
    rng = ctx.rng
    for v in (_native(rng), rng.uniform(-1e9, 1e9), rng.randint(-(10**20), 10**20), np.float64(rng.random()), np.int64(rng.randint(-99, 99)), sympy.Integer(rng.randint(-(10**30), 10**30)),
              sympy.Float(10 ** rng.uniform(-30, 30)), sympy.Rational(rng.randint(-(10**9), 10**9), rng.randint(1, 10**9)), sympy.I, sympy.Float("0.1", 40), sympy.Rational(1, 2), sympy.Integer(0), np.complex128(1 - 2j)):
        _, back = _round_trip(ctx, v)
        a, b = complex(v), complex(back)
        ctx.check(abs(a - b) <= 1e-14 * abs(a), "translation changed a number", got=back, want=v)
        if isinstance(v, (int, sympy.Integer)):
            ctx.check(bool(back == v), "translation changed an integer", got=back, want=v)
            x = sympy.Symbol("x")
            for e in (x + v, x * v):
                _, got = _round_trip(ctx, e)
                ctx.check(bool(got == e), "translation changed an integer in an expression", got=got, want=e)
        ctx.ev("numbers")
    ctx.nontrivial(ctx.index)


def _similar(rng, e, names):
    """An expression that differs from e in one leaf or node only."""
    leaves = [a for a in sympy.preorder_traversal(e) if a.is_Symbol or a.is_Number]
    if not leaves:
        return e
    old = rng.choice(leaves)
    if old.is_Symbol:
        new = rng.choice([sympy.Symbol(rng.choice(names)), old + sympy.Rational(1, 10**6), sympy.Mul(-1, old, evaluate=False), sympy.Pow(old, 1, evaluate=False), sympy.cos(old), sympy.sin(old)])
    else:
        new = rng.choice([-old, old + 1, sympy.Float(float(old)) if old != 0 else sympy.Float(1e-6), sympy.Float(float(old) * (1 + 1e-6)), sympy.Rational(str(float(old) + 0.5)), old + sympy.Rational(1, 3), sympy.Integer(int(float(old)))])

    def swap(node):
        if node == old:
            return new
        if not node.args:
            return node
        args = [swap(a) for a in node.args]
        if node.is_Add or node.is_Mul or node.is_Pow:
            return node.func(*args, evaluate=False)
        return node.func(*args)

    return swap(e)


def history(ctx):
    """Nearly equal expressions, translated in one process in mixed order and repeatedly."""
    rng = ctx.rng
    names = rng.choice([rng.sample(NAMES, 2), ["beta_1", "beta_10"], ["x", "X"], ["cos", "sin"], ["theta_1", "theta_11", "theta1"]])
    syms = [sympy.Symbol(n) for n in names]
    pool = []
    for _ in range(40):
        if len(pool) >= 6:
            break
        try:
            e = _similar(rng, rng.choice(pool), names) if pool and rng.random() < 0.8 else _tree(rng, syms, rng.choice([1, 2, 3]))
        except (ZeroDivisionError, OverflowError, TypeError, ValueError):
            continue
        if isinstance(e, sympy.Basic) and not e.has(sympy.zoo, sympy.nan, sympy.oo) and _inside(e) and _count(e) <= 80:
            pool.append(e)
    if len(pool) < 2:
        return
    # first pass: all to trees, then all back
    order = list(range(len(pool)))
    rng.shuffle(order)
    trees = {}
    for k in order:
        try:
            trees[k] = expression_from_sympy(pool[k])
        except (ZeroDivisionError, OverflowError):
            return
    rng.shuffle(order)
    for k in order + order[:2]:
        e = pool[k]
        try:
            back = translate_expression(trees[k], SYMPY_DIALECT)
        except (ZeroDivisionError, OverflowError):
            continue
        for p in _points(rng, names):
            try:
                ev, got = Eval(p), Eval(p)
                a, b = ev(e), got(back)
            except (Unjudged, ZeroDivisionError, OverflowError):
                continue
            m = max(ev.top, got.top)
            if m > 1e3 or ev.edge or got.edge:
                continue
            ctx.check(abs(a - b) <= 1e-9 * m * m, "an expression translated after similar ones changed its value", expression=e, structure=sympy.srepr(e), back=back, at=p, got=b, want=a, others=pool)
            ctx.ev("in_history")
    # second pass: each on its own again
    for k in rng.sample(order, min(3, len(order))):
        _check_value(ctx, pool[k], names)
    ctx.nontrivial([sympy.srepr(e) for e in pool])


def large(ctx):
    """Hundreds of terms or factors, shared subexpressions, high powers."""
    rng = ctx.rng
    kind = rng.choice(["sum", "sum", "product", "shared", "power", "symbols"])
    names = [f"t_{i}" for i in range(rng.choice([3, 20, 70]))] if kind in ("sum", "symbols") else rng.sample(NAMES, 3)
    syms = [sympy.Symbol(n) for n in names]
    if kind == "sum":
        args = [rng.choice([1, -1, sympy.Rational(1, 3), sympy.Float(-0.7)]) * rng.choice(syms) ** rng.choice([1, 1, 2, -1]) + 0 for _ in range(rng.choice([50, 100, 200, 300]))]
        e = sympy.Add(*args, evaluate=rng.random() < 0.3)
    elif kind == "symbols":
        args = [rng.choice([s, sympy.Mul(-1, s, evaluate=False), sympy.cos(s)]) for s in syms]
        e = sympy.Add(*args, evaluate=False)
    elif kind == "product":
        e = sympy.Mul(*[rng.choice([sympy.cos, sympy.sin])(rng.choice(syms) * k) + 1 for k in range(1, rng.choice([20, 40, 60]))], evaluate=False)
    elif kind == "shared":
        e = rng.choice(syms)
        for _ in range(rng.choice([4, 6, 8])):
            e = rng.choice([lambda: sympy.Add(sympy.cos(e), sympy.Mul(-1, sympy.sin(e), evaluate=False), evaluate=False), lambda: sympy.Mul(sympy.cos(e), sympy.cos(e), evaluate=False),
                            lambda: sympy.Add(e, sympy.Mul(sympy.Rational(-1, 2), e, evaluate=False), evaluate=False)])()
    else:
        e = sympy.Pow(sympy.cos(rng.choice(syms)), rng.choice([17, 40, -9, 100]), evaluate=False) + sympy.Pow(rng.choice(syms), rng.choice([9, 11, 13, -11]))
    if not _inside(e):
        return
    if _check_value(ctx, e, names, deep=True):
        ctx.ev("large")
        ctx.nontrivial((kind, str(e)[:1500]))


class _Outside(sympy.Function):
    pass


class cos(sympy.Function):  # shares its name with a supported function
    pass


def _foreign(rng, syms):
    x = rng.choice(syms)
    y = rng.choice(syms)
    i = sympy.Symbol("i", integer=True)
    opts = [
        lambda: sympy.log(x), lambda: sympy.asin(x), lambda: sympy.acos(x), lambda: sympy.atan(x), lambda: sympy.atan2(x, y + 1), lambda: sympy.cosh(x), lambda: sympy.sinh(x),
        lambda: sympy.tanh(x), lambda: sympy.Abs(x), lambda: sympy.sign(x), lambda: sympy.floor(x), lambda: sympy.ceiling(x), lambda: sympy.Max(x, 2), lambda: sympy.Min(x, 2),
        lambda: sympy.factorial(x), lambda: sympy.gamma(x), lambda: sympy.conjugate(x), lambda: sympy.re(x), lambda: sympy.im(x), lambda: sympy.arg(x), lambda: sympy.Heaviside(x),
        lambda: sympy.Piecewise((x, x > 0), (y + 1, True)), lambda: sympy.Derivative(sympy.cos(x), x), lambda: sympy.Integral(sympy.cos(x), x), lambda: sympy.Sum(x * i, (i, 0, 3)),
        lambda: sympy.Product(x + i, (i, 0, 3)), lambda: sympy.Mod(x, 2), lambda: sympy.pi, lambda: sympy.E, lambda: sympy.EulerGamma, lambda: sympy.GoldenRatio, lambda: sympy.sec(x),
        lambda: sympy.csc(x), lambda: sympy.cot(x), lambda: sympy.acosh(x), lambda: sympy.coth(x), lambda: sympy.DiracDelta(x), lambda: sympy.Function("f")(x), lambda: sympy.Function("cos")(x),
        lambda: sympy.Function("sqrt")(x), lambda: sympy.Function("exp")(x, y), lambda: sympy.Function("add")(x, y), lambda: sympy.Function("pow")(x, 2), lambda: sympy.Function("mul")(x, y),
        lambda: sympy.Function("div")(x, y), lambda: sympy.Function("sub")(x, y), lambda: sympy.Function("tan")(x), lambda: sympy.Function("sin")(x), lambda: _Outside(x), lambda: cos(x),
        lambda: sympy.erf(x), lambda: sympy.besselj(0, x), lambda: sympy.LambertW(x), lambda: sympy.zeta(x), lambda: sympy.binomial(x, 2), lambda: sympy.KroneckerDelta(x, y + 1),
        lambda: sympy.MatrixSymbol("M", 2, 2)[0, 1], lambda: sympy.IndexedBase("A")[1], lambda: sympy.UnevaluatedExpr(x), lambda: sympy.sinc(x), lambda: sympy.exp_polar(x),
        lambda: sympy.Subs(sympy.cos(x), x, 1), lambda: sympy.Limit(sympy.cos(x), x, 0), lambda: sympy.Catalan, lambda: sympy.frac(x), lambda: sympy.polylog(2, x), lambda: sympy.loggamma(x),
    ]
    return rng.choice(opts)()


def _plant(rng, e, node, depth=0):
    """The expression with one leaf (or subtree) replaced by a foreign node."""
    if not e.args or rng.random() < 0.15 + 0.05 * depth:
        return node
    k = rng.randrange(len(e.args))
    args = list(e.args)
    args[k] = _plant(rng, args[k], node, depth + 1)
    try:
        return e.func(*args, evaluate=False) if (e.is_Add or e.is_Mul or e.is_Pow) else e.func(*args)
    except TypeError:
        return e.func(*args)


def _rebuilt(e):
    """The tree with every node evaluated by sympy."""
    return e.func(*[_rebuilt(a) for a in e.args]) if e.args else e


def _essential(e):
    """Does the foreign construct survive sympy's own simplifications?"""
    try:
        e = _rebuilt(e)
    except Exception:
        return True
    return not (e.has(sympy.zoo, sympy.nan, sympy.oo) or _inside(e) or not isinstance(e, sympy.Basic))


def _refused(ctx, e):
    """Foreign constructs are refused; E, cosh etc. may come from supported ones.

    sympy rewrites exp(1) as E and cos(I*x) as cosh(x): a translation preserving their
    value would be as good as a refusal.
    """
    if not _essential(e):
        return
    try:
        tree = expression_from_sympy(e)
        back = translate_expression(tree, SYMPY_DIALECT)
    except (ZeroDivisionError, OverflowError):
        return
    except Exception:
        ctx.ev("oracle")
        ctx.ev("refused")
        return
    soft = {sympy.E: sympy.Symbol("x"), **{f(a): sympy.Symbol("x") for f in (sympy.cosh, sympy.sinh, sympy.tanh) for x in e.atoms(f) for a in x.args}}
    if _inside(e.xreplace(soft)) and isinstance(back, (sympy.Basic, int, float, complex)):
        try:
            names = {s.name for s in e.free_symbols}
            same = [abs(Eval(p)(e) - Eval(p)(back)) <= 1e-7 * (1 + abs(Eval(p)(e))) for p in [next(iter(_points(ctx.rng, names)))]]
        except Unjudged:
            return
        if all(same):
            return
    ctx.fail("an expression with an unsupported construct is translated instead of refused", expression=e, structure=sympy.srepr(e), tree=tree, back=back)


def refusals(ctx):
    rng = ctx.rng
    names = rng.sample(NAMES, rng.choice([1, 2, 3]))
    syms = [sympy.Symbol(n) for n in names]
    for _ in range(4):
        node = _foreign(rng, syms)
        try:
            e = _tree(rng, syms, rng.choice([0, 1, 2, 2, 3, 4]))
            if _count(e) > 120:
                continue
            e = _plant(rng, e, node)
        except (ZeroDivisionError, OverflowError, TypeError, ValueError, AttributeError, NotImplementedError):
            continue
        if not isinstance(e, sympy.Basic) or e.has(sympy.zoo, sympy.nan, sympy.oo, -sympy.oo) or _inside(e):
            continue
        _refused(ctx, e)
        ctx.nontrivial(sympy.srepr(e))
    # boolean and relational expressions
    x = rng.choice(syms)
    for e in (sympy.Gt(x, 1), sympy.Eq(x, 2), sympy.And(sympy.Symbol("p"), sympy.Symbol("q")), sympy.true):
        _refused(ctx, e)


# -- sort keys -----------------------------------------------------------------


def _tokens(name):
    """Alternating texts and numbers, starting with a text."""
    out, text, digits = [], "", ""
    for ch in name:
        if unicodedata.category(ch) == "Nd":
            digits += ch
        else:
            if digits:
                out += [text, int(digits)]
                text, digits = "", ""
            text += ch
    if digits:
        out += [text, int(digits)]
        text = ""
    return out + [text]


def _name(rng, prefixes):
    n = rng.choice(prefixes)
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        n += str(rng.choice([rng.randint(0, 12), rng.randint(0, 200), 9, 10, 11, 99, 100, 10**rng.randint(1, 20)]))
        if rng.random() < 0.15:
            n = n[: len(n) - len(n.lstrip())] + n
        n += rng.choice(["", "", "_", "b", "_x", " ", ".", "-"])
    if rng.random() < 0.08:
        n = str(rng.randint(0, 20)) + n
    if rng.random() < 0.05:
        n = rng.choice(prefixes)
    if rng.random() < 0.05:
        n += rng.choice(["²", "٣", "½", "①", "₂"])
    return n


def sort_keys(ctx):
    rng = ctx.rng
    prefixes = rng.sample(["beta_", "theta_", "theta", "x", "gamma_", "a", "b_", "", "Beta_", "ω", "be", "x_y_"], rng.choice([1, 2, 3]))
    names = {_name(rng, prefixes) for _ in range(rng.randint(2, 12))} - {""}
    if len(names) < 2:
        return
    syms = [sympy.Symbol(n) for n in sorted(names)]
    rng.shuffle(syms)
    order = [s.name for s in syms]
    got = [s.name for s in sorted(syms, key=natural_key)]
    want = sorted(order, key=_tokens)
    ctx.check(got == want, "natural_key orders symbols differently from their embedded integers", got=got, want=want, names=order)
    got = [s.name for s in sorted(syms, key=natural_key_revlex)]
    want = sorted(order, key=lambda n: _tokens(n)[::-1])
    ctx.check(got == want, "natural_key_revlex orders symbols differently from their embedded integers", got=got, want=want, names=order)
    # same text, numbers decide
    stem = rng.choice(["beta_", "x", "t", "a_b", "θ"])
    tail = rng.choice(["", "", "_z", "k"])
    i, j = rng.choice([(2, 10), (9, 10), (99, 100), (1, 2), (0, 1), tuple(sorted(rng.sample(range(5000), 2)))])
    a, b = sympy.Symbol(f"{stem}{i}{tail}"), sympy.Symbol(f"{stem}{j}{tail}")
    for key in (natural_key, natural_key_revlex):
        ctx.check(key(a) < key(b) and not key(b) < key(a), f"{key.__name__} puts {b} before {a}")
        ctx.check(key(a) == key(sympy.Symbol(a.name)), "keys of equal symbols differ", name=a)
    # a fixed order of names, the number first
    heads = rng.sample(["gamma", "beta", "theta", "a", "Z"], rng.randint(1, 4))
    pool = [f"{h}_{k}" for h in heads for k in rng.sample(range(120), rng.randint(1, 4))]
    rng.shuffle(pool)
    got = [s.name for s in sorted(map(sympy.Symbol, pool), key=natural_key_fixed_names_order(heads))]
    want = sorted(pool, key=lambda n: (int(n.split("_")[1]), heads.index(n.split("_")[0])))
    ctx.check(got == want, "natural_key_fixed_names_order", got=got, want=want, heads=heads)
    ctx.ev("orders")
    ctx.nontrivial(order)


REQUIRED_EVENTS = ("values_equal", "points", "pairs", "deep_or_wide", "in_history", "large", "numbers", "refused", "orders")
WORKLOADS = [
    dict(name="special_shapes", case=_sympy_gives_up(special_shapes), hang="never", cpu_limit=20.0, quick=len(SHAPES), thorough=10 * len(SHAPES)),
    dict(name="random_trees", case=_sympy_gives_up(random_trees), hang="never", cpu_limit=20.0, quick=2500, thorough=60000),
    dict(name="deep_and_wide", case=_sympy_gives_up(deep_and_wide), hang="never", cpu_limit=20.0, quick=150, thorough=4000),
    dict(name="history", case=_sympy_gives_up(history), hang="never", cpu_limit=20.0, quick=500, thorough=15000),
    dict(name="large", case=_sympy_gives_up(large), hang="never", cpu_limit=20.0, quick=100, thorough=2500),
    dict(name="native_numbers", case=native_numbers, quick=100, thorough=1000),
    dict(name="refusals", case=_sympy_gives_up(refusals), hang="never", cpu_limit=20.0, quick=1200, thorough=30000),
    dict(name="sort_keys", case=sort_keys, quick=1500, thorough=40000),
]
