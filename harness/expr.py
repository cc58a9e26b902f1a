"""Shadow expressions: generated together with the quantities they use, evaluated with mpmath and dimensioned with
exact exponents, independently of the code under test."""
import operator
from fractions import Fraction

import mpmath as mp

mp.mp.dps = 40

SI = ('m', 'kg', 's', 'A', 'K', 'mol', 'cd')
ZERO = (Fraction(0),) * 7


class Incoherent(Exception):
    pass


class Domain(Exception):
    """The value is not defined (or not tame) at this point."""


def dmul(a, b):
    return tuple(x + y for x, y in zip(a, b))


def ddiv(a, b):
    return tuple(x - y for x, y in zip(a, b))


def dpow(a, p):
    p = Fraction(p)
    return tuple(x * p for x in a)


def dim_of_unit(unit):
    """The exponents the library gives to a unit."""
    d = unit.dimension
    return tuple(float(d[k]) for k in SI)


def same_dim(unit, dim):
    got = dim_of_unit(unit)
    return all(abs(g - float(w)) < 1e-9 for g, w in zip(got, dim))


def dimdict(dim):
    return {k: (int(x) if x.denominator == 1 else float(x)) for k, x in zip(SI, dim) if x != 0}


class Qty:
    """Shadow of a quantity."""

    def __init__(self, name, kind, dim, value, specified):
        self.name, self.kind, self.dim, self.value, self.specified = name, kind, dim, value, specified
        self.obj = None

    def __repr__(self):
        return '%s:%s%s=%r' % (self.kind, self.name, '*' if self.specified else '', self.value)


FUNS = ('Log', 'Log10', 'Sqrt', 'Abs', 'Exp', 'Sin', 'Cos', 'Tan')


# An expression is a tuple:
#  ('num', v) ('q', Qty) ('bin', op, a, b) ('fn', name, a) ('mm', 'Min'|'Max', (args...)) ('diff', Qty, Qty_time)

def show(e):
    k = e[0]
    if k == 'num':
        return repr(e[1])
    if k == 'q':
        return e[1].name + ('*' if e[1].specified else '')
    if k == 'bin':
        return '(%s %s %s)' % (show(e[2]), e[1], show(e[3]))
    if k == 'fn':
        return '%s(%s)' % (e[1], show(e[2]))
    if k == 'mm':
        return '%s(%s)' % (e[1], ', '.join(map(show, e[2])))
    if k == 'diff':
        return 'd(%s)/d(%s)' % (e[1].name, e[2].name)
    raise AssertionError(e)


def leaves(e):
    k = e[0]
    if k == 'q':
        yield e[1]
    elif k == 'diff':
        yield e[1]
    elif k == 'bin':
        yield from leaves(e[2])
        yield from leaves(e[3])
    elif k == 'fn':
        yield from leaves(e[2])
    elif k == 'mm':
        for a in e[2]:
            yield from leaves(a)


def size(e):
    k = e[0]
    if k == 'bin':
        return 1 + size(e[2]) + size(e[3])
    if k == 'fn':
        return 1 + size(e[2])
    if k == 'mm':
        return 1 + sum(size(a) for a in e[2])
    return 1


def ops(e, acc=None):
    acc = {} if acc is None else acc
    k = e[0]
    if k == 'bin':
        acc[e[1]] = acc.get(e[1], 0) + 1
        ops(e[2], acc)
        ops(e[3], acc)
    elif k == 'fn':
        acc[e[1]] = acc.get(e[1], 0) + 1
        ops(e[2], acc)
    elif k == 'mm':
        acc[e[1]] = acc.get(e[1], 0) + 1
        for a in e[2]:
            ops(a, acc)
    elif k == 'diff':
        acc['diff'] = acc.get('diff', 0) + 1
    return acc


def has_diff(e):
    return 'diff' in ops(e)


def unknown(e):
    return any(not q.specified for q in leaves(e))


def is_num(e):
    return e[0] == 'num'


def dim(e):
    """Dimension of the expression, None for a bare number; raises Incoherent."""
    k = e[0]
    if k == 'num':
        return None
    if k == 'q':
        return e[1].dim
    if k == 'diff':
        return ddiv(e[1].dim, e[2].dim)
    if k == 'fn':
        d = dim(e[2])
        if d is not None and any(d):
            raise Incoherent('%s of a dimensional argument' % e[1])
        return ZERO
    if k == 'mm':
        ds = [d for d in (dim(a) for a in e[2]) if d is not None]
        if any(d != ds[0] for d in ds):
            raise Incoherent(e[1])
        return ds[0] if ds else ZERO
    op, a, b = e[1], e[2], e[3]
    da, db = dim(a), dim(b)
    if op in '+-':
        if da is None or db is None:
            return da if db is None else db
        if da != db:
            raise Incoherent('%s' % op)
        return da
    if op == '*':
        return dmul(da or ZERO, db or ZERO)
    if op == '/':
        return ddiv(da or ZERO, db or ZERO)
    if op == '**':
        if db is not None and any(db):
            raise Incoherent('exponent')
        da = da or ZERO
        if not any(da):
            return ZERO
        if not unknown(b):
            v = value(b, {})
            f = Fraction(float(v)).limit_denominator(1000)
            if abs(float(f) - float(v)) > 1e-12 or not is_num(b) and b[0] != 'q' and not exact(b):
                raise Domain('exponent')
            return dpow(da, f)
        raise Incoherent('unknown exponent of a dimensional base')
    raise AssertionError(op)


def literal(e):
    return e[0] in ('num', 'q')


def exact(e):
    """Computed exponents that floating point gets exactly."""
    if e[0] in ('num', 'q'):
        return (Fraction(e[1] if e[0] == 'num' else e[1].value).denominator) <= 64
    if e[0] == 'bin':
        v = value(e, {})
        return exact(e[2]) and exact(e[3]) and Fraction(float(v)).denominator <= 64 and float(v) == v
    return False


LIMIT = mp.mpf(10) ** 5


def value(e, env, track=None):
    """Value with mpmath. env maps the names of the quantities to values; specified ones keep their own."""
    v = _value(e, env, track)
    if mp.isnan(v) or mp.isinf(v) or abs(v) > LIMIT:
        raise Domain('untame')
    if track is not None:
        track.append(abs(v))
    return v


def _value(e, env, track):
    k = e[0]
    if k == 'num':
        return mp.mpf(e[1])
    if k == 'q':
        q = e[1]
        return mp.mpf(q.value if q.specified or q.name not in env else env[q.name])
    if k == 'diff':
        return mp.mpf(env[e[1].name + "'"])
    if k == 'fn':
        x = value(e[2], env, track)
        f = e[1]
        if f in ('Log', 'Log10'):
            if x < mp.mpf('0.05'):
                raise Domain(f)
            return mp.log(x) if f == 'Log' else mp.log10(x)
        if f == 'Sqrt':
            if x < mp.mpf('0.01'):
                raise Domain(f)
            return mp.sqrt(x)
        if f == 'Abs':
            return abs(x)
        if f == 'Exp':
            if abs(x) > 10:
                raise Domain(f)
            return mp.exp(x)
        if abs(x) > 50:
            raise Domain(f)
        if f == 'Sin':
            return mp.sin(x)
        if f == 'Cos':
            return mp.cos(x)
        if f == 'Tan':
            if abs(mp.cos(x)) < mp.mpf('0.05'):
                raise Domain(f)
            return mp.tan(x)
    if k == 'mm':
        vs = [value(a, env, track) for a in e[2]]
        return min(vs) if e[1] == 'Min' else max(vs)
    op = e[1]
    a, b = value(e[2], env, track), value(e[3], env, track)
    if op == '+':
        return a + b
    if op == '-':
        return a - b
    if op == '*':
        return a * b
    if op == '/':
        if abs(b) < mp.mpf('1e-3'):
            raise Domain('/')
        return a / b
    if op == '**':
        if abs(b) > 6:
            raise Domain('**')
        if b == int(b):
            if a == 0 and b <= 0 or abs(a) < mp.mpf('1e-3') and b < 0:
                raise Domain('**')
            if a < 0 and not literal(e[3]):
                raise Domain('**')  # rounding of the exponent makes it complex
            return a ** int(b)
        if a < mp.mpf('1e-3'):
            raise Domain('**')
        return a ** b
    raise AssertionError(op)


def operators():
    from sloth.core import equation_operators as eo
    return eo


def realise(e, hook=None):
    """Build the expression with the operators of the code under test. hook(e, enode) sees every intermediate."""
    k = e[0]
    if k == 'num':
        return e[1]
    if k == 'q':
        r = e[1].obj()
    elif k == 'diff':
        r = e[1].obj.Diff(e[2].obj)
    elif k == 'fn':
        r = getattr(operators(), e[1])(realise(e[2], hook))
    elif k == 'mm':
        r = getattr(operators(), e[1])(*[realise(a, hook) for a in e[2]])
    else:
        a, b = realise(e[2], hook), realise(e[3], hook)
        op = e[1]
        if size(e) % 2 and not is_num(e[2]):
            # augmented, as a name other than that of the caller
            r = {'+': operator.iadd, '-': operator.isub, '*': operator.imul, '/': operator.itruediv, '**': operator.ipow}[op](a, b)
        elif op == '+':
            r = a + b
        elif op == '-':
            r = a - b
        elif op == '*':
            r = a * b
        elif op == '/':
            r = a / b
        else:
            r = a ** b
    if hook is not None:
        hook(e, r)
    return r


# ---------------------------------------------------------------------------------------------------------------
# generators

BASE_DIMS = [
    ('dimless', {}), ('m', {'m': 1}), ('kg', {'kg': 1}), ('s', {'s': 1}), ('K', {'K': 1}), ('mol', {'mol': 1}),
    ('A', {'A': 1}), ('cd', {'cd': 1}),
    ('m/s', {'m': 1, 's': -1}), ('Pa', {'kg': 1, 'm': -1, 's': -2}), ('J', {'kg': 1, 'm': 2, 's': -2}),
    ('J/mol', {'kg': 1, 'm': 2, 's': -2, 'mol': -1}), ('kg/s', {'kg': 1, 's': -1}), ('1/s', {'s': -1}),
    ('m^3', {'m': 3}), ('R', {'kg': 1, 'm': 2, 's': -2, 'mol': -1, 'K': -1}),
]

NAMES = ['x', 'y', 'z', 'a', 'b', 'u', 'v', 'w', 'T', 'P', 'mu', 'rho', 'x1', 'x12', 'k_1', 'T_in', 'T_out', 'E', 'S',
         'N', 'Q', 'beta', 'gamma', 'alpha_0', 'aa', 'ab', 'x_y', 'H', 'mdot', 'Pi', 't', 'tt', 'xt', 'yd', 'C', 'O',
         'y_0', 'I', 'zeta', 'lam', 'Min_', 'sin_x', '_a', '_x_1', 'x__y', 'lambda', 'θ', 'in_']


def mkdim(d):
    return tuple(Fraction(d.get(k, 0)) for k in SI)


def rnd_dim(rng):
    return mkdim(rng.choice(BASE_DIMS)[1])


def rnd_value(rng, style=None):
    style = style or rng.choice(['pos', 'pos', 'any', 'int', 'small', 'neg'])
    if style == 'pos':
        return round(rng.uniform(.3, 5.), 6)
    if style == 'any':
        return round(rng.uniform(-6, 6), 6) or 1.
    if style == 'int':
        return rng.choice([1, 2, 3, 4, 5, -1, -2, 7])
    if style == 'small':
        return round(rng.uniform(.01, .4), 6)
    return round(-rng.uniform(.2, 4.), 6)


def rnd_num(rng):
    return rng.choice([1, 2, 3, -1, -2, 5, 10, 0.5, 2., 1.5, -0.25, 3.75, 0.1, -1., 100, 0, 0., round(rng.uniform(-9, 9), 4)])


def rnd_pool(rng, n=None, dims=None, kinds=('var', 'var', 'var', 'par', 'par*', 'con*'), exclude=()):
    """Quantities over few dimensions, so that coherent sums exist."""
    n = n or rng.randint(2, 7)
    dims = dims or [ZERO] + [rnd_dim(rng) for _ in range(rng.randint(1, 2))]
    names = rng.sample([x for x in NAMES if x not in exclude], n)
    pool = []
    for nm in names:
        kind = rng.choice(kinds)
        pool.append(Qty(nm, kind.rstrip('*'), rng.choice(dims), rnd_value(rng), kind.endswith('*')))
    if not any(q.kind == 'var' for q in pool):
        pool[0].kind, pool[0].specified = 'var', False
    return pool


def rnd_expr(rng, pool, depth=3, ops_='+-*/^', funs=True, mm=True, time=None, want=None, extra=0.):
    """Random coherent expression (want: dimension asked for, else any). Returns None if it did not find one."""
    for _ in range(60):
        e = _gen(rng, pool, depth, ops_, funs, mm, time)
        try:
            d = dim(e)
        except (Incoherent, Domain):
            continue
        if is_num(e):
            continue
        if want is not None and d != want:
            continue
        if not static_ok(e):
            continue
        return e
    return None


def static_ok(e):
    """The parts of the expression that are plain numbers already have a value (no 1/0 among constants)."""
    k = e[0]
    if k in ('num', 'q', 'diff'):
        return True
    if not unknown(e):
        try:
            value(e, {})
        except Domain:
            return False
    if k == 'bin':
        return static_ok(e[2]) and static_ok(e[3])
    if k == 'fn':
        return static_ok(e[2])
    return all(static_ok(a) for a in e[2])


def _leaf(rng, pool, time):
    r = rng.random()
    if time is not None and r < .25:
        vs = [q for q in pool if q.kind == 'var' and q is not time]
        if vs:
            return ('diff', rng.choice(vs), time)
    return ('q', rng.choice(pool))


def _gen(rng, pool, depth, ops_, funs, mm, time):
    if depth <= 0 or rng.random() < .12:
        return _leaf(rng, pool, time)
    r = rng.random()
    sub = lambda: _gen(rng, pool, depth - 1 - (rng.random() < .3), ops_, funs, mm, time)  # noqa: E731
    if funs and r < .16:
        a = _tryfor(rng, pool, depth, ops_, funs, mm, time, ZERO)
        if a is None:
            return _leaf(rng, pool, time)
        if rng.random() < .08:
            a = ('num', abs(rnd_num(rng)) + 0.1)
        return ('fn', rng.choice(FUNS), a)
    if mm and r < .24:
        first = sub()
        args = [first]
        d = _safe_dim(first)
        for _ in range(rng.randint(1, 3)):
            if rng.random() < .2:
                args.append(('num', rnd_num(rng)))
            else:
                x = _tryfor(rng, pool, depth, ops_, funs, mm, time, d)
                if x is not None:
                    args.append(x)
        if len(args) < 2:
            args.append(('num', rnd_num(rng)))
        rng.shuffle(args)
        return ('mm', rng.choice(['Min', 'Max']), tuple(args))
    op = rng.choice(ops_)
    if op == '^':
        a = sub()
        if rng.random() < .7:
            return ('bin', '**', a, ('num', rng.choice([2, 3, -1, 2., .5, 1, -2, 0, 1.5])))
        b = _tryfor(rng, pool, depth, ops_, funs, mm, time, ZERO)
        return ('bin', '**', a, b) if b is not None else a
    a = sub()
    if rng.random() < .2:
        b = ('num', rnd_num(rng))
        if op == '/' and b[1] == 0:
            b = ('num', 2)
    elif op in '+-':
        b = _tryfor(rng, pool, depth, ops_, funs, mm, time, _safe_dim(a))
        if b is None:
            return a
    else:
        b = sub()
    if is_num(b) and rng.random() < .5 or rng.random() < .1:
        a, b = b, a
    return ('bin', op, a, b)


def _safe_dim(e):
    try:
        return dim(e)
    except (Incoherent, Domain):
        return None


def _tryfor(rng, pool, depth, ops_, funs, mm, time, d):
    if d is None:
        return _gen(rng, pool, depth - 1, ops_, funs, mm, time)
    for _ in range(6):
        e = _gen(rng, pool, depth - 1, ops_, funs, mm, time)
        if _safe_dim(e) == d:
            return e
    qs = [q for q in pool if q.dim == d]
    if qs:
        return ('q', rng.choice(qs))
    return None


# ---------------------------------------------------------------------------------------------------------------

def unit(dim_, rng=None):
    """A Unit of the code under test with these exponents; with rng, reached through different constructions."""
    from sloth.core.unit import Unit
    from sloth.core import template_units as tu
    u = Unit('u', dimdict(dim_))
    if rng is not None and rng.random() < .3:
        for d, x in BASE_DIMS:
            if mkdim(x) == dim_ and hasattr(tu, d):
                return getattr(tu, d)
    if rng is not None and rng.random() < .2:
        return Unit('v', u)
    return u


def standalone(pool, rng=None):
    """Create the quantities outside any model."""
    from sloth.core.variable import Variable
    from sloth.core.parameter import Parameter
    from sloth.core.constant import Constant
    for q in pool:
        cls = {'var': Variable, 'par': Parameter, 'con': Constant}[q.kind]
        if q.specified:
            q.obj = cls(q.name, unit(q.dim, rng))
            q.obj.setValue(q.value)
        else:
            q.obj = cls(q.name, unit(q.dim, rng), value=q.value)
    return pool
