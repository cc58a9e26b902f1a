"""C23: arithmetic of quantities. Online monitor: every object ever created keeps its reference state, and each result is
compared with the operation on the values (floats) and on the exact dimensions."""
import math
from fractions import Fraction

from checks.c04 import Ref, check_all, make
from harness import expr as X
from harness.core import Check

OPS = ['+', '-', '*', '/', '**']


def apply(op, a, b):
    return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: a / b, '**': lambda: a ** b}[op]()


def kind_of(o):
    from sloth.core.variable import Variable
    from sloth.core.parameter import Parameter
    from sloth.core.constant import Constant
    return {Variable: 'var', Parameter: 'par', Constant: 'con'}.get(type(o), type(o).__name__)


def same(a, b):
    if isinstance(a, complex) or isinstance(b, complex):
        return False
    return a == b or math.isclose(float(a), float(b), rel_tol=1e-13, abs_tol=0.)


def units_of(refs):
    return [dict(r.obj.units.dimension) for r in refs]


def case(c):
    from sloth.model import Model
    rng = c.rng
    model = Model('M%d' % rng.randint(0, 3))
    dims = [X.rnd_dim(rng), X.ZERO, X.ZERO, X.rnd_dim(rng)]
    refs = []
    for i in range(rng.randint(2, 5)):
        v = rng.choice([X.rnd_value(rng), rng.randint(-4, 9), round(rng.uniform(.1, 5), 3)])
        refs.append(make(c, rng.choice(['var', 'par', 'con']), 'q%d' % i, rng.choice(dims), v, model))
        if rng.random() < .4:
            refs[-1].obj.setValue(v)
            refs[-1].spec = True
    # exponents: numbers as dimensionless quantities
    for e in rng.sample([2, 3, -1, 0, 1, .5, -2, 1.5, 2., 0.25], 2):
        refs.append(make(c, rng.choice(['var', 'par', 'con']), 'e%s' % len(refs), X.ZERO, e, model))
        refs[-1].exp = e
    check_all(c, refs, 'creation')
    k = 0
    for step in range(rng.randint(4, 14)):
        op = rng.choice(OPS + ['+', '-', '/', 'bad', 'mix'])
        a = rng.choice(refs)
        b = rng.choice(refs)
        if op in '+-' and rng.random() < .8:
            b = rng.choice([r for r in refs if r.dim == a.dim])
        if op == '**':
            b = rng.choice([r for r in refs if hasattr(r, 'exp')])
        elif op == 'mix':
            # several at once: an expression of quantities
            d = [r for r in refs if r.dim == a.dim]
            x, y = rng.choice(d), rng.choice(d)
            z = rng.choice([r for r in refs if r.value != 0] or [None])
            if z is None:
                continue
            got = ((a.obj + x.obj) * z.obj - z.obj * y.obj) / z.obj
            v = ((a.value + x.value) * z.value - z.value * y.value) / z.value
            judge(c, refs, got, a, v, a.dim, '((%s + %s) * %s - %s * %s) / %s' % (a.name, x.name, z.name, z.name, y.name, z.name))
            continue
        if op in ('+', '-') and a.dim != b.dim or op == 'bad':
            d = [r for r in refs if r.dim != a.dim]
            if not d:
                d = [make(c, rng.choice(['var', 'par', 'con']), 'n%d' % step, X.dmul(a.dim, X.mkdim({'kg': 1})), 1.5, model)]
                refs += d
            b = rng.choice(d)
            o = rng.choice('+-')
            what = '%s %s %s of different dimensions' % (a.name, o, b.name)
            c.rejects(what, lambda: apply(o, a.obj, b.obj), ['DimensionalCoherenceError'])
            c.event('incoherent ' + o)
            check_all(c, refs, what)
            continue
        what = '%s %s %s' % (a.name, op, b.name)
        try:
            v = apply(op, a.value, b.value)
        except (ZeroDivisionError, OverflowError):
            continue
        if isinstance(v, complex) or v != v or abs(v) > 1e100 or (v != 0 and abs(v) < 1e-100):
            continue
        if op in '+-':
            dim = a.dim
        elif op == '*':
            dim = X.dmul(a.dim, b.dim)
        elif op == '/':
            dim = X.ddiv(a.dim, b.dim)
        else:
            dim = X.dpow(a.dim, Fraction(b.exp))
        if max(abs(x) for x in dim) > 40:
            continue
        with c.accepted(what):
            got = apply(op, a.obj, b.obj)
        r = judge(c, refs, got, a, v, dim, what)
        c.event('operation ' + op)
        if a.kind != b.kind:
            c.event('operands of different kinds')
        if a is b:
            c.event('operand twice')
        k += 1
        if rng.random() < .3:
            # what is done to the result concerns the result only
            got.setValue(3.25)
            r.value, r.spec = 3.25, True
            check_all(c, refs, 'after setting the result of ' + what)
            c.event('result set')
        if rng.random() < .2:
            a.obj.setValue(v0 := round(rng.uniform(-3, 3), 3))
            a.value, a.spec = v0, True
            if hasattr(a, 'exp'):
                del a.exp
            check_all(c, refs, 'after setting the operand of ' + what)
        if not [r_ for r_ in refs if hasattr(r_, 'exp')]:
            break
        c.note(what, '=', v, X.dimdict(dim))
    c.trivial = k == 0
    c.key(c.log)


def judge(c, refs, got, a, v, dim, what):
    c.ok(all(got is not r.obj for r in refs), '%s: the result is one of the objects alive' % what)
    c.ok(kind_of(got) == a.kind, '%s: kind of the result' % what, got=kind_of(got), expected=a.kind)
    c.ok(same(got.value, v), '%s: value of the result' % what, got=got.value, expected=v)
    c.ok(X.same_dim(got.units, dim), '%s: unit of the result' % what, got=dict(got.units.dimension), expected=X.dimdict(dim))
    check_all(c, refs, what)
    r = Ref(got, a.kind, dim, got.name)
    refs.append(r)
    return r


def pairs(c):
    """Every operator on every pair of kinds, with the base units."""
    dims = [X.mkdim(d) for _, d in X.BASE_DIMS]
    for op in OPS:
        for ka in ('var', 'par', 'con'):
            for kb in ('var', 'par', 'con'):
                for da in dims:
                    for db in dims:
                        if op == '**' and any(db):
                            continue
                        a, b = make(c, ka, 'a', da, 7., None), make(c, kb, 'b', db, 2, None)
                        refs = [a, b]
                        if op in '+-' and da != db:
                            c.rejects('%s of different dimensions' % op, lambda: apply(op, a.obj, b.obj), ['DimensionalCoherenceError'])
                            check_all(c, refs, 'refused')
                            continue
                        dim = {'+': da, '-': da, '*': X.dmul(da, db), '/': X.ddiv(da, db), '**': X.dpow(da, Fraction(2))}[op]
                        judge(c, refs, apply(op, a.obj, b.obj), a, apply(op, 7., 2), dim, '%s %s %s' % (ka, op, kb))
    c.note('all pairs of kinds and base units')


CHECK = Check('C23', case, quick=1500, thorough=40000, directed=[pairs],
              need=['operation ' + o for o in OPS] + ['incoherent +', 'incoherent -', 'operands of different kinds', 'operand twice',
                                                     'result set'],
              rule='random chains of 4-14 operations over quantities of all kinds, results feeding later operations, all objects '
                   'compared with their reference after every operation; distinct by history')
