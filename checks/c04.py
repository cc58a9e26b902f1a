"""C04: assignments. Online monitor: a reference state (value, unit, specified, everything else) of every object alive is
compared after every accepted or refused assignment."""
from fractions import Fraction
from decimal import Decimal

from harness.core import Check, interrupted
from harness import expr as X


class Ref:
    def __init__(self, obj, kind, dim, name):
        self.obj, self.kind, self.dim, self.name = obj, kind, dim, name
        self.value, self.spec = obj.value, obj.is_specified
        self.rest = rest(obj)
        self.unit_id = dict(obj.units.dimension)


def rest(o):
    """Every other public attribute, by value."""
    d = {}
    for k, v in vars(o).items():
        if k in ('value', 'is_specified', 'units', 'domain') or k.startswith('_'):
            continue
        if isinstance(v, (str, int, float, bool, type(None))):
            d[k] = v
    return d


def make(c, kind, name, dim, value, model):
    from sloth.core.variable import Variable
    from sloth.core.parameter import Parameter
    from sloth.core.constant import Constant
    rng = c.rng
    u = X.unit(dim, rng)
    if model is not None and rng.random() < .5:
        f = {'var': model.createVariable, 'par': model.createParameter, 'con': model.createConstant}[kind]
        o = f(name, u, 'd', value=value)
    else:
        o = {'var': Variable, 'par': Parameter, 'con': Constant}[kind](name, u, description='d', value=value)
    return Ref(o, kind, dim, name)


def check_all(c, refs, what):
    for r in refs:
        o = r.obj
        c.ok(o.value == r.value and type(o.value) is type(r.value),
             '%s: the value of %s is %r instead of %r' % (what, r.name, o.value, r.value))
        c.ok(bool(o.is_specified) == r.spec, '%s: %s is_specified=%r' % (what, r.name, o.is_specified))
        c.ok(X.same_dim(o.units, r.dim), '%s: the unit of %s is %s' % (what, r.name, dict(o.units.dimension)))
        c.ok(rest(o) == r.rest, '%s: %s was altered: %s' % (what, r.name, rest(o)))
        if not o.name:                # (the result of an operation: no name, no symbol)
            continue
        # what the object contributes to an expression follows its state
        n = o()
        has = o.name in n.variable_map
        c.ok(has == (not r.spec), '%s: in an expression %s is %s' % (what, r.name, 'unknown' if has else 'known'))
        if r.spec:
            c.ok(float(n.symbolic_object) == float(r.value), '%s: %s contributes %r' % (what, r.name, n.symbolic_object))


REFUSAL = ['UnexpectedValueError', 'DimensionalCoherenceError', 'TypeError']


def case(c):
    from sloth.model import Model
    from sloth.core.unit import Unit
    rng = c.rng
    model = Model('M%d' % rng.randint(0, 3))
    dims = [X.rnd_dim(rng) for _ in range(rng.randint(1, 3))] + [X.ZERO]
    refs = []
    for i in range(rng.randint(3, 6)):
        refs.append(make(c, rng.choice(['var', 'par', 'con']), 'q%d' % i, rng.choice(dims), X.rnd_value(rng), model))
    check_all(c, refs, 'creation')
    for step in range(rng.randint(4, 16)):
        r = rng.choice(refs)
        op = rng.choice(['number', 'number', 'number+unit', 'number+bad unit', 'number+bad unit', 'quantity', 'quantity',
                         'incoherent quantity', 'incoherent quantity', 'other kind', 'junk', 'junk+unit', 'later changes', 'interrupted', 'number+junk unit'])
        what = '%s.setValue(%s)' % (r.name, op)
        if op == 'number':
            v = rng.choice([X.rnd_value(rng), 0, 0., -3, 1e-30, 12345678901234567890])
            with c.accepted(what):
                r.obj.setValue(v)
            r.value, r.spec = v, True
        elif op == 'number+unit':
            v = rng.choice([X.rnd_value(rng), 4, 0])
            u = X.unit(r.dim, rng)
            with c.accepted(what + ' %r %s' % (v, X.dimdict(r.dim))):
                r.obj.setValue(v, u)
            c.ok(X.same_dim(u, r.dim), 'the unit given was altered')
            r.value, r.spec = v, True
        elif op == 'number+bad unit':
            d = rng.choice(dims)
            if d == r.dim:
                d = list(d)
                d[rng.randrange(7)] += rng.choice([1, -1, Fraction(1, 2), 2])
                d = tuple(d)
            u = X.unit(d)
            v = rng.choice([X.rnd_value(rng), 4, 0, 2.5])
            c.rejects('%s %r with %s on %s' % (what, v, X.dimdict(d), X.dimdict(r.dim)), lambda: r.obj.setValue(v, u), REFUSAL)
        elif op in ('quantity', 'incoherent quantity'):
            same = [s for s in refs if s.kind == r.kind and (s.dim == r.dim) == (op == 'quantity')]
            if not same or rng.random() < .2:
                d = r.dim if op == 'quantity' else X.dmul(r.dim, X.mkdim({'kg': 1}))
                own = rng.random() < .4     # of the very same name
                s = make(c, r.kind, r.obj.name if own else 'n%d' % step, d, X.rnd_value(rng), None if own else model)
                c.event('a quantity of the same name' + ('' if op == 'quantity' else ', incoherent'), int(own))
                refs.append(s)
            else:
                s = rng.choice(same)
            if op == 'quantity':
                with c.accepted(what):
                    r.obj.setValue(s.obj)
                r.value, r.spec = s.value, True
            else:
                c.rejects(what, lambda: r.obj.setValue(s.obj), REFUSAL)
        elif op == 'number+junk unit':      # whether it is a unit is not stated, but it is all or nothing
            junk = rng.choice(['m', 5, {'m': 1}, [], object(), r.obj, 1.5, ('kg', 2)])
            v = X.rnd_value(rng)
            try:
                r.obj.setValue(v, junk)
            except Exception:
                c.event('refused for their unit')
            else:
                r.value, r.spec = v, True
        elif op == 'interrupted':       # nothing but the old and the new value, wherever it fails
            s = rng.choice(refs)
            v = X.rnd_value(rng)
            how = rng.choice(['number', 'unit', 'quantity'])
            n = rng.randint(1, 4)
            with interrupted(n) as state:
                if how == 'quantity':
                    r.obj.setValue(s.obj)
                elif how == 'unit':
                    r.obj.setValue(v, X.unit(r.dim))
                else:
                    r.obj.setValue(v)
            if how == 'quantity':
                v = s.value
            if state['raised']:
                c.event('interrupted assignments')
            o = r.obj
            if (o.value, type(o.value), bool(o.is_specified)) != (r.value, type(r.value), r.spec):
                if not state['out']:
                    r.value, r.spec = v, True
                else:       # in which order value and specification are stored is not stated
                    if (o.value, type(o.value)) != (r.value, type(r.value)):
                        r.value = v
                    r.spec = bool(o.is_specified) or r.spec
        elif op == 'other kind':
            k = rng.choice([k for k in ('var', 'par', 'con') if k != r.kind])
            s = make(c, k, 'o%d' % step, r.dim, X.rnd_value(rng), None)
            refs.append(s)
            try:        # whether other kinds are values is not stated: but it is all or nothing
                r.obj.setValue(s.obj)
            except Exception:
                pass
            else:
                r.value, r.spec = s.value, True
        else:
            junk = rng.choice(['3', None, [1.], (2.,), {'value': 2}, 1j, X.unit(r.dim), Decimal('1.5'), object(),
                               r.obj(), b'1'])
            if op == 'junk':
                c.rejects('%s %r' % (what, type(junk)), lambda: r.obj.setValue(junk), REFUSAL)
            else:
                c.rejects('%s %r' % (what, type(junk)), lambda: r.obj.setValue(junk, X.unit(r.dim)), REFUSAL)
        c.event(op)
        c.note(what, '->', r.value, r.spec)
        check_all(c, refs, what)
    c.key(c.log)


def units_exhaustive(c):
    """Every pair of units: coherent accepted, incoherent refused, whatever the kind and the type of number."""
    dims = [(n, X.mkdim(d)) for n, d in X.BASE_DIMS]
    for kind in ('var', 'par', 'con'):
        for n1, d1 in dims:
            for n2, d2 in dims:
                for v in (2.5, 3, 0, 0., -1.5):
                    r = make(c, kind, 'x', d1, 7., None)
                    s = make(c, kind, 'y', d2, v, None)
                    if d1 == d2:
                        with c.accepted('%s in %s to %s' % (v, n2, n1)):
                            r.obj.setValue(v, X.unit(d2))
                        r.value, r.spec = v, True
                        check_all(c, [r], 'unit')
                        with c.accepted('quantity in %s to %s' % (n2, n1)):
                            r.obj.setValue(s.obj)
                    else:
                        c.rejects('%s in %s to %s' % (v, n2, n1), lambda: r.obj.setValue(v, X.unit(d2)), REFUSAL)
                        check_all(c, [r], 'refused')
                        c.rejects('quantity in %s to %s' % (n2, n1), lambda: r.obj.setValue(s.obj), REFUSAL)
                    check_all(c, [r, s], 'quantity')
    c.note('all pairs of', [n for n, _ in dims])


def given_apart(c):
    """What is given as the value stays apart: later changes to it, its unit included, do not reach the receiver, nor back."""
    from sloth.core.unit import Unit
    for kind in ('var', 'par', 'con'):
        for v in (2.5, 3):
            for how in ('quantity', 'number+unit'):
                r, s = make(c, kind, 'x', X.ZERO, 7., None), make(c, kind, 'y', X.ZERO, v, None)
                for ref in (r, s):
                    ref.dim = X.mkdim({'kg': 1})
                    ref.obj.units = Unit('own ' + ref.name, {'kg': 1})
                given = s.obj.units
                with c.accepted(how):
                    if how == 'quantity':
                        r.obj.setValue(s.obj)
                    else:
                        r.obj.setValue(v, given)
                r.value, r.spec = v, True
                check_all(c, [r, s], how)
                given.dimension['m'] = given.dimension['m'] + 1
                s.dim = X.mkdim({'kg': 1, 'm': 1})
                check_all(c, [r, s], how + ', then the unit of the source is altered')
                r.obj.units.dimension['s'] = r.obj.units.dimension['s'] + 2
                r.dim = X.mkdim({'kg': 1, 's': 2})
                check_all(c, [r, s], how + ', then the unit of the receiver is altered')
                with c.accepted('later assignment'):
                    r.obj.setValue(11.)
                r.value = 11.
                check_all(c, [r, s], how + ', then another value')
                s.obj.setValue(-4.)
                s.value, s.spec = -4., True
                check_all(c, [r, s], how + ', then another value of the source')
                c.event('later changes')


CHECK = Check('C04', case, quick=1500, thorough=25000, directed=[units_exhaustive, given_apart],
              need=['interrupted assignments', 'refused for their unit', 'a quantity of the same name, incoherent', 'number', 'number+unit', 'number+bad unit', 'quantity', 'incoherent quantity', 'junk', 'junk+unit'],
              rule='random histories of 4-16 assignments (right and wrong) over 3-6 objects of all kinds; distinct by the '
                   'history')
