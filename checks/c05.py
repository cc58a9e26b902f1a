"""C05: classification. Monitor of the type of every expression and equation built: differential by structure, linear
only if affine at sampled points, linear whenever made of sums, differences and scalings."""
import mpmath as mp

from harness.core import Check, Skip
from harness import expr as X
from checks.c03 import reference


def type_of(node):
    from sloth.core.equation import Equation
    return Equation('probe', '', node).type


def must_be_linear(e):
    k = e[0]
    if k in ('num', 'q'):
        return True
    if k == 'bin':
        op, a, b = e[1], e[2], e[3]
        if op in '+-':
            return must_be_linear(a) and must_be_linear(b)
        if op == '*':
            return must_be_linear(a) and scale(b) or must_be_linear(b) and scale(a)
        if op == '/':
            return must_be_linear(a) and scale(b) and not X.is_num(a)
    return False


def scale(e):
    return X.is_num(e) or e[0] == 'q' and e[1].specified


def affine(c, e, pool):
    """Sampled refutation of affinity. Returns number of triples judged."""
    rng = c.rng
    n = 0
    names = sorted({q.name for q in X.leaves(e) if not q.specified})
    for _ in range(12):
        p = {k: mp.mpf(X.rnd_value(rng)) for k in names}
        q = {k: mp.mpf(X.rnd_value(rng)) for k in names}
        t = mp.mpf(rng.choice(['0.5', '0.3', '-1', '2']))
        r = {k: (1 - t) * p[k] + t * q[k] for k in names}
        try:
            fp, fq, fr = X.value(e, p), X.value(e, q), X.value(e, r)
        except X.Domain:
            continue
        n += 1
        d = abs(fr - ((1 - t) * fp + t * fq))
        c.ok(d <= mp.mpf('1e-20') * (1 + abs(fp) + abs(fq) + abs(fr)),
             '%s is classified as linear, but it is not an affine function' % X.show(e))
        if n >= 4:
            break
    return n


def judge(c, e, node, pool):
    ty = type_of(node)
    c.ok(ty in ('linear', 'nonlinear', 'differential'), '%s has the type %r' % (X.show(e), ty))
    if X.has_diff(e):
        c.ok(ty == 'differential', '%s has a derivative and is classified as %s' % (X.show(e), ty))
        c.event('differential')
        return ty
    c.ok(ty != 'differential', '%s has no derivative and is classified as differential' % X.show(e))
    if must_be_linear(e):
        c.ok(ty == 'linear', '%s is classified as %s' % (X.show(e), ty))
        c.event('structurally linear')
    if ty == 'linear':
        c.event('affinity triples', affine(c, e, pool))
    else:
        c.event('nonlinear')
    return ty


def linear_expr(rng, pool, depth, dim=None):
    """Sums, differences and scalings."""
    qs = [q for q in pool if dim is None or q.dim == dim]
    if depth <= 0 or rng.random() < .15:
        return ('q', rng.choice(qs)) if qs else None
    r = rng.random()
    if r < .5:
        a = linear_expr(rng, pool, depth - 1, dim)
        if a is None:
            return None
        if rng.random() < .15:
            b = ('num', X.rnd_num(rng))
        else:
            b = linear_expr(rng, pool, depth - 1, X.dim(a))
            if b is None:
                b = ('num', X.rnd_num(rng))
        if rng.random() < .5:
            a, b = b, a
        return ('bin', rng.choice('+-'), a, b)
    a = linear_expr(rng, pool, depth - 1, dim)
    if a is None:
        return None
    spec = [q for q in pool if q.specified and (dim is None or not any(q.dim))]
    s = ('q', rng.choice(spec)) if spec and rng.random() < .5 else ('num', X.rnd_num(rng))
    if rng.random() < .35:
        v = s[1] if X.is_num(s) else s[1].value
        if v == 0:
            s = ('num', 2.5)
        return ('bin', '/', a, s)
    return ('bin', '*', a, s) if rng.random() < .5 else ('bin', '*', s, a)


def hostile(rng, pool):
    """Shapes that are easily taken for linear ones."""
    u = [q for q in pool if not q.specified and not any(q.dim)]
    if not u:
        return None
    a, b = ('q', rng.choice(u)), ('q', rng.choice(u))
    n = ('num', rng.choice([2, .5, -1, 3.]))
    lin = ('bin', '+', ('bin', '*', a, n), ('num', 1))
    return rng.choice([
        ('bin', '/', n, a), ('bin', '/', a, b), ('bin', '*', lin, b), ('bin', '*', a, lin), ('bin', '**', a, n),
        ('bin', '**', lin, n), ('bin', '**', a, lin), ('bin', '**', a, b),
        ('fn', rng.choice(X.FUNS), lin), ('mm', 'Min', (a, b)), ('mm', 'Max', (lin, ('num', 2))),
        ('bin', '/', lin, lin), ('bin', '+', lin, ('bin', '*', a, b)), ('bin', '-', n, ('bin', '*', b, a)),
        ('bin', '*', ('bin', '*', a, n), ('bin', '*', n, b)), ('bin', '/', ('bin', '*', n, a), ('bin', '+', b, ('num', 1))),
        ('bin', '-', ('num', 3), ('bin', '/', ('num', 1), a)), ('bin', '*', ('num', 2), ('fn', 'Sin', a)),
        ('bin', '+', ('num', 0), ('bin', '**', a, ('num', 2))), ('bin', '*', ('mm', 'Max', (a, b)), n)])


def case(c):
    from sloth.core.domain import Domain
    from sloth.core.equation import Equation
    rng = c.rng
    pool = X.rnd_pool(rng, rng.randint(2, 6), dims=[X.ZERO, X.ZERO, X.rnd_dim(rng)])
    time = None
    if rng.random() < .5:
        time = X.Qty('time', 'var', X.rnd_dim(rng), 0., False)
    X.standalone(pool, rng)
    if time is not None:
        X.standalone([time])
        dom = Domain('dom', time.obj.units, time.obj, 'domain')
        for q in pool:
            if q.kind == 'var':
                q.obj.distributeOnDomain(dom)
    style = rng.choice(['linear', 'linear', 'hostile', 'hostile', 'random', 'random', 'diff'])
    if style == 'linear':
        e = linear_expr(rng, pool, rng.randint(1, 5))
    elif style == 'hostile':
        e = hostile(rng, pool)
        if e is not None:
            for _ in range(rng.randint(0, 2)):      # wrapped in linear operations
                s = ('num', X.rnd_num(rng))
                e = rng.choice([('bin', '+', e, s), ('bin', '-', s, e), ('bin', '*', s, e), ('bin', '*', e, ('num', 3)),
                                ('bin', '/', e, ('num', 2.))])
    else:
        e = X.rnd_expr(rng, pool, rng.randint(1, 5), time=time if style == 'diff' else None)
    if e is None or not X.static_ok(e):
        raise Skip('no expression')
    try:
        X.dim(e)
    except (X.Incoherent, X.Domain):
        raise Skip('incoherent')
    c.note('expression', style, X.show(e))
    c.note('pool', pool)
    nodes = []
    node = X.realise(e, lambda ee, n: nodes.append((ee, n)))
    for ee, n in nodes[-8:]:
        judge(c, ee, n, pool)
    # equation between two sides
    f = X.rnd_expr(rng, pool, rng.randint(0, 2), want=X.dim(e), time=time) if rng.random() < .6 else linear_expr(
        rng, pool, 2, X.dim(e))
    if f is None:
        f = ('num', 3)
    g = ('bin', '-', e, f)
    right = X.realise(f)
    for eq in (Equation('e1', '', node == right), Equation('e2', '', node - right)):
        if X.has_diff(g):
            c.ok(eq.type == 'differential', 'the equation %s == %s is %s' % (X.show(e), X.show(f), eq.type))
        else:
            c.ok(eq.type in ('linear', 'nonlinear'), 'the equation %s == %s is %s' % (X.show(e), X.show(f), eq.type))
            if must_be_linear(g):
                c.ok(eq.type == 'linear', 'the equation %s == %s is %s' % (X.show(e), X.show(f), eq.type))
            if eq.type == 'linear':
                c.event('affinity triples', affine(c, g, pool))
        c.event('equations')
    # using a node does not change its class
    again = type_of(node)
    c.ok(again == judge(c, e, node, pool), 'the class of %s changed by using it' % X.show(e))
    c.key(X.show(e), X.show(f))
    c.trivial = X.size(e) < 2


def special_values(c):
    """Derivatives and variables combined with numbers and specified quantities of the values zero, one, minus one."""
    rng = c.rng
    for v in (0., 0, 1., 1, -1, 2.5):
        for kind in ('par', 'var', 'con', 'num'):
            t, x = X.Qty('t', 'var', X.mkdim({'s': 1}), 0., False), X.Qty('x', 'var', X.ZERO, 1., False)
            k = ('num', v)
            pool = [t, x]
            if kind != 'num':
                q = X.Qty('k', kind, X.ZERO, v, True)
                pool.append(q)
                k = ('q', q)
            X.standalone(pool)
            from sloth.core.domain import Domain
            x.obj.distributeOnDomain(Domain('dom', t.obj.units, t.obj, 'domain'))
            d, xx = ('diff', x, t), ('q', x)
            for b in (d, xx):
                for e in (('bin', '*', b, k), ('bin', '*', k, b), ('bin', '+', ('bin', '*', k, b), xx), ('bin', '-', xx, ('bin', '*', b, k)),
                          ('bin', '*', ('bin', '*', b, k), k), ('bin', '*', ('bin', '+', k, k), b), ('bin', '/', b, k), ('bin', '**', b, k)):
                    if not X.static_ok(e) or v == 0 and e[1] in ('/', '**') or e[1] == '**' and kind != 'num':
                        continue
                    if e[1] == '**' and b is not d and not isinstance(v, int):
                        continue
                    try:
                        X.dim(e)
                    except (X.Incoherent, X.Domain):
                        continue
                    judge(c, e, X.realise(e), pool)
                    c.event('special values')
    c.note('special values')


KINDS = ('linear', 'nonlinear', 'differential')


def problems(c):
    """Problems of every combination of equations, over one or two models, in every order."""
    import itertools
    combos = [k for n in (1, 2, 3) for k in itertools.product(KINDS, repeat=n)]
    for combo in combos:
        for split in (False, True):
            problem_type(c, combo, split)
    # many equations of some kinds among few of others, in many models
    for n in (4, 5, 9, 16):
        for kinds in (('linear', 'nonlinear'), ('linear', 'differential'), ('nonlinear', 'differential'), KINDS, ('linear',), ('nonlinear',), ('differential',)):
            for odd in kinds:
                combo = [c.rng.choice([k for k in kinds if k != odd] or [odd]) for _ in range(n - 1)] + [odd]
                c.rng.shuffle(combo)
                problem_type(c, tuple(combo), c.rng.choice([False, 2, 3, n]))
                c.event('problems of many models')


def problem_type(c, combo, split):
    from sloth.model import Model
    from sloth.problem import Problem
    from sloth.analysis import Analysis
    from sloth.core.domain import Domain
    from sloth.core.template_units import dimless, s
    models = [Model('M%d' % i) for i in range(int(split) + 1)]
    for i, kind in enumerate(combo):
        m = models[i % len(models)]
        x = m.createVariable('x%d' % i, dimless)
        if kind == 'linear':
            m.createEquation('e%d' % i, '', 2 * x() - 3)
        elif kind == 'nonlinear':
            m.createEquation('e%d' % i, '', x() ** 2 - 3)
        else:
            t = m.createVariable('t%d' % i, s)
            dom = Domain('dom', s, t, 'd')
            x.distributeOnDomain(dom)
            p = m.createParameter('k%d' % i, dimless / s)
            p.setValue(2.)
            m.createEquation('e%d' % i, '', x.Diff(t) == p() * x())
    pr = Problem('P')
    pr.addModels(models)
    with c.accepted('resolving %s' % (combo,)):
        pr.resolve()
    rep = Analysis().problemReport(pr)
    d = 'differential' in combo
    want = ('differential-algebraic' if len(set(combo)) > 1 else 'differential') if d else (
        'nonlinear' if 'nonlinear' in combo else 'linear')
    head = rep.split('\n')[0]
    c.ok(head.strip().endswith('(%s)' % want), 'a problem of %s equations is reported as %r' % (combo, head))
    c.event('problems ' + want)


CHECK = Check('C05', case, quick=2000, thorough=30000, directed=[problems, special_values],
              need=['problems of many models', 'differential', 'special values', 'structurally linear', 'nonlinear', 'affinity triples', 'equations',
                    'problems differential-algebraic', 'problems linear', 'problems nonlinear', 'problems differential'],
              rule='random linear, almost linear, arbitrary and differential expressions, every part judged, and equations '
                   'between them; non-trivial: at least one operation')
