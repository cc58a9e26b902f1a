"""C01: unit algebra. Online monitor: every operation on units is followed by a comparison with exact exponents, and by
a re-check of every unit alive (operands and templates must not change)."""
from fractions import Fraction

from harness.core import Check
from harness import expr as X

TEMPLATES = {
    'dimless': {}, 'm': {'m': 1}, 'kg': {'kg': 1}, 's': {'s': 1}, 'A': {'A': 1}, 'K': {'K': 1}, 'mol': {'mol': 1},
    'cd': {'cd': 1}, '_s': {'s': -1}, '_m2': {'m': -2}, '_m3': {'m': -3}, 'm_s': {'m': 1, 's': -1},
    'm_s2': {'m': 1, 's': -2}, 'kg_s': {'kg': 1, 's': -1}, 'mol_s': {'mol': 1, 's': -1},
    'Force': {'kg': 1, 'm': 1, 's': -2}, 'Pa': {'kg': 1, 'm': -1, 's': -2}, 'atm': {'kg': 1, 'm': -1, 's': -2},
    'J': {'kg': 1, 'm': 2, 's': -2},
    'UniversalIdealGasConstant': {'kg': 1, 'm': 2, 's': -2, 'K': -1, 'mol': -1},
}


def templates(c):
    from sloth.core import template_units as tu
    return [(getattr(tu, n), X.mkdim(d), n) for n, d in TEMPLATES.items()]


def check_all(c, alive, what):
    for u, d, n in alive:
        c.ok(X.same_dim(u, d), 'after %s, unit %s has the exponents %s instead of %s' % (
            what, n, dict(u.dimension), X.dimdict(d)))
        c.event('unit_checks')


def rnd_dims(rng):
    ks = rng.sample(X.SI, rng.randint(0, 5))
    return X.mkdim({k: rng.choice([1, 2, 3, -1, -2, -3, Fraction(1, 2), Fraction(-1, 2), 4]) for k in ks})


def mkunit(c, d):
    """Different ways to the same exponents."""
    from sloth.core.unit import Unit
    rng = c.rng
    dd = X.dimdict(d)
    if rng.random() < .3:
        items = list(dd.items())
        rng.shuffle(items)
        dd = dict(items)
    if rng.random() < .3:
        for k in rng.sample(X.SI, 2):
            dd.setdefault(k, rng.choice([0, 0.]))
    if rng.random() < .2:
        dd = {k: float(v) for k, v in dd.items()}
    u = Unit('u%d' % rng.randint(0, 99), dd)
    before = dict(dd)
    if rng.random() < .3:
        u = Unit('copy', u)
    c.ok(before == dd, 'the dictionary given to a unit was altered')
    return u


def case(c):
    rng = c.rng
    from sloth.core.error_definitions import DimensionalCoherenceError
    with c.accepted('template units'):
        alive = templates(c)
    ntempl = len(alive)
    check_all(c, alive, 'import')
    for i in range(rng.randint(2, 4)):
        d = rnd_dims(rng)
        with c.accepted('Unit(%s)' % X.dimdict(d)):
            alive.append((mkunit(c, d), d, 'u%d' % i))
    if rng.random() < .5:      # a coherent twin, reached otherwise
        u, d, n = rng.choice(alive)
        alive.append((mkunit(c, d), d, n + "'"))
    for step in range(rng.randint(4, 14)):
        lo = 0 if rng.random() < .3 else ntempl
        (a, da, na), (b, db, nb) = rng.choice(alive[lo:]), rng.choice(alive[lo:])
        op = rng.choice(['*', '/', '**', '+', '-', '*', '/', '**', 'n*', 'n/', '**u', 'copy'])
        if op in '+-' and rng.random() < .5:
            same = [t for t in alive if t[1] == da]
            b, db, nb = rng.choice(same)
        new = None
        desc = '%s %s %s' % (na, op, nb)
        c.event('op ' + op)
        if op in ('*', '/'):
            with c.accepted(desc):
                r = a * b if op == '*' else a / b
            new = (r, X.dmul(da, db) if op == '*' else X.ddiv(da, db), '(%s)' % desc)
        elif op == '**':
            p = rng.choice([2, 3, -1, 0, 1, -2, 2., .5, -.5, 0.25, 4])
            desc = '%s ** %r' % (na, p)
            with c.accepted(desc):
                r = a ** p
            new = (r, X.dpow(da, Fraction(p)), '(%s)' % desc)
        elif op in '+-':
            f = (lambda: a + b) if op == '+' else (lambda: a - b)
            if da == db:
                with c.accepted(desc):
                    r = f()
                new = (r, da, '(%s)' % desc)
                c.event('coherent sums')
            else:
                c.rejects(desc, f, ['DimensionalCoherenceError'])
                c.event('incoherent sums')
        elif op in ('n*', 'n/'):
            v = rng.choice([2, 3., -4.5, 10, 1])
            desc = '%s %s %r' % (na, op[1], v)
            with c.accepted(desc):
                q = a * v if op == 'n*' else a / v
            c.ok(X.same_dim(q.units, da), '%s has the exponents %s' % (desc, dict(q.units.dimension)))
            c.ok(X.mp and abs(q.value - (v if op == 'n*' else 1. / v)) < 1e-12, '%s has the value %r' % (desc, q.value))
            new = (q.units, da, '(%s)' % desc)
        elif op == '**u':
            desc = '%s ** %s' % (na, nb)
            if any(db):
                c.rejects(desc, lambda: a ** b)
            else:
                with c.accepted(desc):
                    r = a ** b
                new = (r, da, '(%s)' % desc)
        else:
            from sloth.core.unit import Unit
            with c.accepted('Unit(name, %s)' % na):
                r = Unit('c', a)
            new = (r, da, 'Unit(%s)' % na)
        if new is not None and all(abs(x) < 200 for x in new[1]):
            alive.append(new)
            c.note(new[2][-80:], '->', X.dimdict(new[1]))
        check_all(c, alive, desc)
        # coherence, decided by exponents alone, between every pair of a few
        t1, t2 = rng.choice(alive), rng.choice(alive)
        if t1[1] == t2[1]:
            with c.accepted('%s + %s' % (t1[2], t2[2])):
                r = t1[0] + t2[0]
            c.ok(X.same_dim(r, t1[1]), 'sum of coherent units')
        else:
            c.rejects('%s + %s' % (t1[2], t2[2]), lambda: t1[0] + t2[0], ['DimensionalCoherenceError'])
    c.key([X.dimdict(d) for _, d, _ in alive[ntempl:]], c.log)
    c.trivial = not any(any(d) for _, d, _ in alive[ntempl:])


def near_miss(c):
    """Units that differ in one exponent only, by every amount, are never coherent."""
    from sloth.core.unit import Unit
    for k in X.SI:
        for x in (1, -1, 2, .5, -.5, .25, 3, 1.5):
            for base in ({}, {'m': 1, 's': -1}, {q: 1 for q in X.SI}, {q: 2 for q in X.SI if q != k}):
                d1 = X.mkdim(base)
                d2 = list(d1)
                d2[X.SI.index(k)] += Fraction(x)
                u1, u2 = Unit('a', X.dimdict(d1)), Unit('b', X.dimdict(tuple(d2)))
                c.rejects('%s + %s' % (dict(u1.dimension), dict(u2.dimension)), lambda: u1 + u2,
                          ['DimensionalCoherenceError'])
                c.rejects('b - a', lambda: u2 - u1, ['DimensionalCoherenceError'])
                # opposite exponents do not compensate
                d3 = list(d1)
                d3[X.SI.index(k)] += 1
                d3[(X.SI.index(k) + 1) % 7] -= 1
                u3 = Unit('c', X.dimdict(tuple(d3)))
                c.rejects('a + c', lambda: u1 + u3, ['DimensionalCoherenceError'])
                c.event('near misses')
    c.note('one-exponent differences over', X.SI)


def permuted(c):
    """Units with the same exponents in other places, or with other signs, are never coherent."""
    from sloth.core.unit import Unit
    rng = c.rng
    bases = [{'m': 1, 's': -1}, {'m': 1, 's': -2, 'kg': 1}, {'m': 2, 's': -2}, {'K': .5, 'A': -.5}, {'m': 1, 'kg': 2, 's': -3},
             {'mol': 1}, {'cd': -2, 'mol': 2, 'K': 1, 'A': -1}]
    bases += [X.dimdict(rnd_dims(rng)) for _ in range(40)]
    for b in bases:
        vals = [b.get(k, 0) for k in X.SI]
        others = [[-v for v in vals], [v if i % 2 else -v for i, v in enumerate(vals)], vals[::-1], vals[1:] + vals[:1], [abs(v) for v in vals],
                  [2 * v for v in vals], [v * v for v in vals]]
        for _ in range(4):
            w = list(vals)
            rng.shuffle(w)
            others.append(w)
            w = [v * rng.choice([1, -1]) for v in vals]
            others.append(w)
        u = Unit('u', dict(b))
        for w in others:
            x = Unit('w', dict(zip(X.SI, w)))
            if w == vals:
                with c.accepted('coherent'):
                    u + x, x - u
                continue
            for f, what in ((lambda: u + x, '+'), (lambda: x + u, '+'), (lambda: u - x, '-'), (lambda: x - u, '-')):
                c.rejects('%s %s %s' % (b, what, dict(zip(X.SI, w))), f, ['DimensionalCoherenceError'])
            q = u / x
            c.rejects('kg ** (%s)' % dict(q.dimension), lambda: Unit('k', {'kg': 1}) ** q)
            c.event('permuted exponents')
    c.note('permutations and signs of', len(bases))


def fractions(c):
    """Exponents that have no short decimal or binary expansion, through chains of powers, products and quotients."""
    from sloth.core.unit import Unit
    rng = c.rng
    for k in range(60):
        d = {q: rng.choice([1, 2, -1, 3, Fraction(1, 3), Fraction(-2, 7), Fraction(1234567891, 10**9)]) for q in rng.sample(X.SI, rng.randint(1, 3))}
        dim = X.mkdim(d)
        with c.accepted('Unit(%s)' % X.dimdict(dim)):
            u = Unit('u', {q: float(v) for q, v in d.items()})
        w, wdim = u, dim
        for _ in range(rng.randint(1, 5)):
            op = rng.choice(['**', '**', '*', '/'])
            p = rng.choice([Fraction(1, 3), Fraction(2, 3), Fraction(-1, 7), 3, 7, Fraction(22, 7), Fraction(123456789, 10**8), Fraction(1, 11)])
            with c.accepted(op):
                if op == '**':
                    w, wdim = w ** float(p), X.dpow(wdim, p)
                elif op == '*':
                    w, wdim = w * u, X.dmul(wdim, dim)
                else:
                    w, wdim = w / u, X.ddiv(wdim, dim)
            got = X.dim_of_unit(w)
            c.ok(all(abs(a - float(b)) <= 1e-12 * max(1., abs(float(b))) * 50 for a, b in zip(got, wdim)),
                 'after %s, the exponents are %s instead of %s' % (op, dict(w.dimension), X.dimdict(wdim)))
            c.event('fractional chains')
    u = Unit('u', {'m': 1})
    r = u ** (1 / 3.)
    with c.accepted('m + (m**(1/3))**3'):
        u + r ** 3
    # however small, a difference is a difference
    for x in (1e-3, 1e-6, 1e-8):
        c.rejects('m + m**%r' % (1 + x), lambda: u + u ** (1 + x), ['DimensionalCoherenceError'])
        c.rejects('kg ** m**%r' % x, lambda: Unit('k', {'kg': 1}) ** (u ** x))
    c.note('fractional exponents')


CHECK = Check('C01', case, quick=700, thorough=12000, directed=[near_miss, permuted, fractions],
              need=['coherent sums', 'incoherent sums', 'op **', 'op **u', 'near misses', 'permuted exponents', 'fractional chains'],
              rule='random chains of 4-14 unit operations over units with random exponents (ints and halves) and the '
                   'template units; non-trivial: some unit is not dimensionless; distinct by the chain')
