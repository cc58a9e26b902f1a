"""C02: dimensional coherence of expressions. A hook sees every intermediate expression the library builds and compares
its unit with exact exponents; expressions with one incoherent place must be refused there."""
from fractions import Fraction

from harness.core import Check, Skip
from harness import expr as X

REFUSAL = ['DimensionalCoherenceError', 'TypeError', 'UnexpectedValueError', 'NonDimensionalArgumentError']


def setup(c):
    from sloth.core.domain import Domain
    rng = c.rng
    dims = [X.ZERO] + [X.rnd_dim(rng) for _ in range(rng.randint(1, 3))]
    pool = X.rnd_pool(rng, rng.randint(3, 7), dims=dims)
    # both small integer exponents among the specified dimensionless ones
    for q in pool:
        if q.specified and not any(q.dim):
            q.value = rng.choice([2, 3, -1, 2., .5, 1])
    time = None
    if rng.random() < .5:
        t = X.Qty('time', 'var', X.rnd_dim(rng), 0., False)
        time = t
    X.standalone(pool, rng)
    if time is not None:
        X.standalone([time])
        dom = Domain('dom', time.obj.units if rng.random() < .6 else X.unit(X.rnd_dim(rng)), time.obj, 'domain')
        for q in pool:
            if q.kind == 'var':
                q.obj.distributeOnDomain(dom)
    return pool, time


def hook(c):
    def h(e, node):
        want = X.dim(e)
        c.ok(X.same_dim(node.unit_object, want), '%s has the unit %s instead of %s' % (
            X.show(e), dict(node.unit_object.dimension), X.dimdict(want)))
        c.event('node ' + (e[1] if e[0] in ('bin', 'fn', 'mm') else e[0]))
    return h


def spoil(rng, e, pool, time):
    """Make exactly one place incoherent. Returns (expression, place) or None."""
    d = X.dim(e)
    r = rng.random()
    other = [q for q in pool if q.dim != d]
    if r < .35 and other:
        q = ('q', rng.choice(other))
        a, b = (e, q) if rng.random() < .5 else (q, e)
        return ('bin', rng.choice('+-'), a, b), 'sum'
    if r < .55 and other:
        args = [e, ('q', rng.choice(other))]
        same = [q for q in pool if q.dim == d]
        for _ in range(rng.randint(0, 2)):
            args.append(rng.choice([('num', 2)] + ([('q', rng.choice(same))] if same else [])))
        rng.shuffle(args)
        return ('mm', rng.choice(['Min', 'Max']), tuple(args)), 'minmax'
    if r < .8:
        if any(d):
            return ('fn', rng.choice(X.FUNS), e), 'function'
        qs = [q for q in pool if any(q.dim)]
        if qs:
            return ('fn', rng.choice(X.FUNS), ('bin', '*', e, ('q', rng.choice(qs)))), 'function'
    if any(d):
        qs = [q for q in pool if not any(q.dim)]
        if qs:
            return ('bin', '**', ('q', rng.choice(qs)), e), 'exponent'
        return ('bin', '**', e, e), 'exponent'
    return None


def wrap(rng, e, pool):
    """Something coherent around it (it is never reached)."""
    return ('bin', rng.choice('*'), e, ('num', 2)) if rng.random() < .5 else e


def case(c):
    rng = c.rng
    pool, time = setup(c)
    e = X.rnd_expr(rng, pool, rng.randint(1, 5), time=time)
    if e is None:
        raise Skip('no coherent expression found')
    c.note('pool', pool)
    c.note('expression', X.show(e), 'unit', X.dimdict(X.dim(e)))
    units = [(q, X.dim_of_unit(q.obj.units)) for q in pool]
    with c.accepted('building %s' % X.show(e)):
        node = X.realise(e, hook(c))
    c.event('coherent expressions')
    mode = rng.choice(['spoil', 'spoil', 'equation', 'equation', 'reuse'])
    if mode == 'spoil':
        s = spoil(rng, e, pool, time)
        if s is not None:
            bad, place = s
            c.note('incoherent', X.show(bad), place)
            c.rejects('building %s (%s)' % (X.show(bad), place), lambda: X.realise(wrap(rng, bad, pool), hook(c)), REFUSAL)
            c.event('incoherent ' + place)
    elif mode == 'equation':
        from sloth.core.equation import Equation
        d = X.dim(e)
        for _ in range(4):
            f = X.rnd_expr(rng, pool, rng.randint(0, 3), time=time)
            if f is None:
                continue
            right = X.realise(f, hook(c))
            c.note('equation', X.show(e), '==', X.show(f))
            if X.dim(f) == d:
                with c.accepted('equation between coherent sides'):
                    Equation('eq', '', node == right)
                    Equation('eq', '', node - right)
                c.event('coherent equations')
            else:
                c.rejects('equation between incoherent sides', lambda: Equation('eq', '', node == right), REFUSAL)
                c.event('incoherent equations')
        with c.accepted('equation with a number'):
            Equation('eq', '', node == rng.choice([1, 2.5, -3, 0]))
    else:
        # the same node in several expressions: its unit must stay
        with c.accepted('reusing the expression'):
            r = node * node
            c.ok(X.same_dim(r.unit_object, X.dmul(X.dim(e), X.dim(e))), 'square of %s' % X.show(e))
            if X.static_ok(('bin', '/', e, e)):
                r = node / node
                c.ok(X.same_dim(r.unit_object, X.ZERO), 'ratio of %s' % X.show(e))
            r = node + node
            r = r - node
            c.ok(X.same_dim(r.unit_object, X.dim(e)), 'sums of %s' % X.show(e))
        c.ok(X.same_dim(node.unit_object, X.dim(e)), 'the unit of %s changed by using it' % X.show(e))
    for q, u in units:
        c.ok(X.dim_of_unit(q.obj.units) == u, 'the unit of %s changed' % q)
    c.key(X.show(e), [X.dimdict(q.dim) for q in pool])
    c.trivial = X.size(e) < 2 or not any(any(q.dim) for q in X.leaves(e))


def each_place(c):
    """Every operator and function, alone, with coherent and incoherent operands."""
    from sloth.core.variable import Variable
    from sloth.core.parameter import Parameter
    from sloth.core.constant import Constant
    from sloth.core.equation_operators import Min, Max
    dims = [X.mkdim(d) for _, d in X.BASE_DIMS]
    for spec1 in (0, 1):
        for spec2 in (0, 1):
            for i, d1 in enumerate(dims):
                for j, d2 in enumerate(dims):
                    a = X.Qty('a', 'par', d1, 2., bool(spec1))
                    b = X.Qty('b', 'par', d2, 3., bool(spec2))
                    X.standalone([a, b])
                    A, B = ('q', a), ('q', b)
                    for e in (('bin', '+', A, B), ('bin', '-', A, B), ('mm', 'Min', (A, B)), ('mm', 'Max', (A, B)),
                              ('bin', '*', A, B), ('bin', '/', A, B), ('mm', 'Max', (A, ('num', 1), B))):
                        try:
                            X.dim(e)
                        except X.Incoherent:
                            c.rejects(X.show(e) + str((X.dimdict(d1), X.dimdict(d2))), lambda: X.realise(e, hook(c)), REFUSAL)
                        else:
                            with c.accepted(X.show(e) + str((X.dimdict(d1), X.dimdict(d2)))):
                                X.realise(e, hook(c))
    for d in dims:
        for spec in (False, True):
            q = X.Qty('q', 'var', d, 2., spec)
            X.standalone([q])
            for f in X.FUNS:
                e = ('fn', f, ('q', q))
                if any(d):
                    c.rejects(X.show(e), lambda: X.realise(e, hook(c)), REFUSAL)
                    # twice: no state remembers a previous call
                    c.rejects(X.show(e), lambda: X.realise(e, hook(c)), REFUSAL)
                else:
                    with c.accepted(X.show(e)):
                        X.realise(e, hook(c))
            for p in (2, -1, .5, 3.):
                with c.accepted('power'):
                    X.realise(('bin', '**', ('q', q), ('num', p)), hook(c))
            for n in (2, -1, 0.5):
                for op in '+-*/':
                    with c.accepted('number'):
                        X.realise(('bin', op, ('q', q), ('num', n)), hook(c))
                        X.realise(('bin', op, ('num', n), ('q', q)), hook(c))
            ex = X.Qty('n', 'con', X.ZERO, 3, True)
            X.standalone([ex])
            with c.accepted('specified exponent'):
                X.realise(('bin', '**', ('q', q), ('q', ex)), hook(c))
            if any(d):
                e = ('bin', '**', ('q', ex), ('q', q))
                c.rejects(X.show(e), lambda: X.realise(e, hook(c)), REFUSAL)
    c.note('every operator over every pair of', len(dims), 'units')


CHECK = Check('C02', case, quick=1500, thorough=25000, directed=[each_place],
              need=['incoherent sum', 'incoherent minmax', 'incoherent function', 'incoherent exponent',
                    'incoherent equations', 'coherent equations', 'node diff', 'node Min', 'node **'],
              rule='random expressions of depth 1-5 over 3-7 variables, parameters and constants of 2-4 dimensions, each '
                   'intermediate observed; then one place spoiled, or used in equations; non-trivial: more than one '
                   'operation and a dimensional quantity')
