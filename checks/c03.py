"""C03: expressions evaluate to the mathematical value written. Differential monitor: the shadow of every expression is
evaluated with mpmath at the same points."""
import mpmath as mp

from harness.core import Check, Skip
from harness import expr as X


def reference(e, env):
    """Value and tolerance: rounding of 1e-12 in the inputs, and of the largest intermediate."""
    track = []
    v = X.value(e, env, track)
    scale = max([abs(v)] + track)
    tol = scale * mp.mpf('1e-10')
    for k in range(3):
        p = {n: mp.mpf(x) * (1 + mp.mpf('1e-11') * (1 if (hash_(n) >> k) & 1 else -1)) for n, x in env.items()}
        try:
            w = X.value(e, p)
        except X.Domain:
            raise X.Domain('edge')
        tol += 20 * abs(w - v)
    if tol > mp.mpf('1e-4') * max(1, abs(v)):
        raise X.Domain('ill-scaled')
    return v, tol


def hash_(s):
    return sum(ord(ch) * (i + 7) for i, ch in enumerate(s))


def agree(c, what, got, want):
    v, tol = want
    try:
        g = mp.mpf(float(got))
    except Exception:
        c.ok(False, '%s gave %r, not a number (expected %s)' % (what, got, mp.nstr(v, 12)))
    c.ok(abs(g - v) <= tol, '%s gave %r instead of %s' % (what, got, mp.nstr(v, 15)))


def points(rng, pool, e, n):
    out = []
    for _ in range(30):
        env = {q.name: X.rnd_value(rng) for q in pool if not q.specified}
        try:
            out.append((env, reference(e, env)))
        except X.Domain:
            continue
        if len(out) >= n:
            break
    return out


def case(c):
    from sloth.core.equation import Equation
    rng = c.rng
    pool = X.rnd_pool(rng, rng.randint(2, 7))
    if rng.random() < .5:
        for q in pool:
            q.name += '_' + rng.choice(['M1', 'M0', 'mod', 'M_1'])
    X.standalone(pool, rng)
    e = X.rnd_expr(rng, pool, rng.randint(1, 5))
    if e is None:
        raise Skip('no coherent expression found')
    pts = points(rng, pool, e, 3)
    if not pts:
        raise Skip('no point where the formula is defined and tame')
    c.note('pool', pool)
    c.note('expression', X.show(e))
    subs = []
    node = X.realise(e, lambda ee, n: subs.append((ee, n)))
    for k in X.ops(e):
        c.event('built ' + k)
    mode = rng.choice(['eval', 'eval', 'own values', 'sides', 'sides', 'respecify', 'reuse'])
    eq = Equation('eq', '', node)
    if mode == 'own values':
        for q in pool:
            if not q.specified:
                q.obj.value = pts[0][0][q.name]
        agree(c, 'eval() of %s with its own values %s' % (X.show(e), pts[0][0]), eq.eval(), pts[0][1])
        agree(c, 'getResidual() of %s' % X.show(e), eq.getResidual(), pts[0][1])
        c.event('own values')
    elif mode == 'sides':
        f = X.rnd_expr(rng, pool, rng.randint(0, 4), want=X.dim(e))
        if f is None or rng.random() < .15:
            f = ('num', X.rnd_num(rng))
        sides(c, e, f, pool, pts)
    elif mode == 'respecify':
        # the value is the one at the time of the call
        spec = [q for q in X.leaves(e) if q.specified]
        if spec:
            q = rng.choice(spec)
            old, new = q.value, X.rnd_value(rng)
            q.obj.setValue(new)
            for env, want in pts:
                agree(c, '%s at %s after %s was given the value %r' % (X.show(e), env, q.name, new), eq.eval(env), want)
            q.value = new
            again = points(rng, pool, e, 2)
            if again and X.static_ok(e):
                try:
                    X.dim(e)        # an exponent may have changed the dimension
                    node2 = X.realise(e)
                except (X.Incoherent, X.Domain):
                    node2 = None
                except Exception:
                    node2 = None
                    if not any(k == '**' for k in X.ops(e)):
                        raise
                if node2 is not None:
                    for env, want in again:
                        agree(c, '%s built with %s=%r' % (X.show(e), q.name, new), Equation('e2', '', node2).eval(env), want)
            q.value = old
            c.event('respecified')
    elif mode == 'reuse':
        # other expressions built from parts do not change the whole
        for _ in range(4):
            (ea, a), (eb, b) = rng.choice(subs), rng.choice(subs)
            op = rng.choice('+-*')
            if op in '+-' and X.dim(ea) != X.dim(eb):
                op = '*'
            g = ('bin', op, ea, eb)
            if rng.random() < .5:
                r = a + b if op == '+' else a - b if op == '-' else a * b
            else:
                r = a
                if op == '+':
                    r += b
                elif op == '-':
                    r -= b
                else:
                    r *= b
                c.event('augmented')
            for env, _w in pts:
                try:
                    want = reference(g, env)
                except X.Domain:
                    continue
                agree(c, '%s at %s' % (X.show(g), env), Equation('g', '', r).eval(env), want)
            h = rng.choice(['neg', 'rsub', 'rmul', 'pow', 'radd'])
            _ = {'neg': lambda: -1 * a, 'rsub': lambda: 2 - a, 'rmul': lambda: 3. * a, 'pow': lambda: a ** 2,
                 'radd': lambda: 1 + a}[h]()
        c.event('reused')
    for env, want in pts:
        agree(c, '%s at %s' % (X.show(e), env), eq.eval(env), want)
        c.event('points')
    for ee, n in rng.sample(subs, min(3, len(subs))):
        for env, _w in pts[:1]:
            try:
                want = reference(ee, env)
            except X.Domain:
                continue
            agree(c, 'part %s at %s' % (X.show(ee), env), Equation('p', '', n).eval(env), want)
    c.key(X.show(e))
    c.trivial = X.size(e) < 3 or not X.unknown(e)


def sides(c, e, f, pool, pts):
    from sloth.core.equation import Equation
    rng = c.rng
    lhs, rhs = X.realise(e), X.realise(f)
    how = rng.choice(['==', '==', 'minus', 'rminus'])
    g = ('bin', '-', e, f)
    if how == '==':
        eq = Equation('el', '', lhs == rhs)
        c.event('elementary equations')
    elif how == 'minus':
        eq = Equation('res', '', lhs - rhs)
    else:
        if X.is_num(f):
            eq = Equation('res', '', rhs - lhs)
        else:
            eq = Equation('res', '', rhs - lhs)
        g = ('bin', '-', f, e)
    c.note('equation', how, X.show(e), X.show(f))
    for env, want_e in pts:
        try:
            want = reference(g, env)
        except X.Domain:
            continue
        agree(c, 'residual of %s == %s (%s) at %s' % (X.show(e), X.show(f), how, env), eq.eval(env), want)
        if how == '==':
            agree(c, 'left side', eq.eval(env, side='lhs'), want_e)
            agree(c, 'right side of == %s' % X.show(f), eq.eval(env, side='rhs'), reference(f, env))
            for q in pool:
                if not q.specified:
                    q.obj.value = env[q.name]
            agree(c, 'getResidual', eq.getResidual(), want)
        c.event('sides')


def each_operator(c):
    """Every operator and function, over every kind of operand on each side."""
    from sloth.core.equation import Equation
    import itertools
    vals = [2., -1.5, .25, 3]
    for va, vb in itertools.product(vals, vals):
        a, b = X.Qty('a', 'var', X.ZERO, va, False), X.Qty('b', 'par', X.ZERO, vb, False)
        sa, sb = X.Qty('sa', 'con', X.ZERO, va, True), X.Qty('sb', 'par', X.ZERO, vb, True)
        X.standalone([a, b, sa, sb])
        for A in (('q', a), ('q', sa), ('num', va), ('bin', '+', ('q', a), ('q', b)), ('bin', '*', ('q', a), ('q', sb))):
            for B in (('q', b), ('q', sb), ('num', vb), ('bin', '-', ('q', a), ('q', b)), ('bin', '/', ('num', 1), ('q', b))):
                if X.is_num(A) and X.is_num(B):
                    continue
                es = [('bin', op, A, B) for op in '+-*/'] + [('mm', 'Min', (A, B)), ('mm', 'Max', (B, A))]
                if not X.is_num(A):
                    es.append(('bin', '**', A, B))
                for e in es:
                    run_one(c, e, {'a': va, 'b': vb})
            if not X.is_num(A):
                for f in X.FUNS:
                    run_one(c, ('fn', f, A), {'a': va, 'b': vb})
    for f in X.FUNS:
        for v in (1, 2, 0.5, 3.):
            node = X.realise(('fn', f, ('num', v)))
            agree(c, '%s(%r)' % (f, v), Equation('n', '', node).eval({}), reference(('fn', f, ('num', v)), {}))
    c.note('every operator over every kind of operand')


def run_one(c, e, env):
    from sloth.core.equation import Equation
    if not X.static_ok(e):
        return
    try:
        want = reference(e, env)
    except X.Domain:
        return
    agree(c, '%s at %s' % (X.show(e), env), Equation('e', '', X.realise(e)).eval(env), want)


def known_extremes(c):
    """Min and Max of known expressions, those that vanish included, inside larger ones."""
    for v in (.109575, -2.5, 3., 1e-3):
        k, w = X.Qty('k', 'par', X.ZERO, v, True), X.Qty('w', 'con', X.ZERO, .5, True)
        a = X.Qty('a', 'var', X.ZERO, 1.25, False)
        X.standalone([k, w, a])
        zero = ('bin', '-', ('fn', 'Abs', ('q', k)), ('num', abs(v)))
        for args in ((zero, ('q', w)), (('q', k), zero), (zero, zero), (('fn', 'Sin', ('q', k)), ('fn', 'Cos', ('q', k)), zero),
                     (('num', 3), ('q', w), zero)):
            for f in ('Min', 'Max'):
                e = ('mm', f, args)
                run_one(c, ('bin', '+', e, ('num', 1)), {})
                run_one(c, ('bin', '-', ('q', a), e), {'a': 1.25})
                run_one(c, ('mm', f, args + (('q', a),)), {'a': 1.25})
    c.note('Min and Max of known expressions')


def magnitudes(c):
    """Known quantities, numbers and unknowns from 1e-30 to 1e30, within a relative tolerance."""
    from sloth.core.equation import Equation
    from sloth.core.equation_operators import Abs, Sqrt
    rng = c.rng
    for mg in (1e-30, 6.62607015e-34, 1.380649e-23, 1e-18, 1e-15, 1e-13, 1e-12, 1e-10, 1e-9, 1e-8, 1e-7, 1e-6, 1e-5, 1e-4, 1e4, 1e6, 1e9, 1e13, 6.02214076e23, 1e30):
        u, w, z = rng.uniform(.5, 2.), rng.uniform(.5, 2.), rng.uniform(.5, 2.)
        kv, av = u*mg*rng.choice([1, -1]), w*mg
        k = X.Qty('k', rng.choice(['par', 'con', 'var']), X.ZERO, kv, True)
        a, b = X.Qty('a', 'var', X.ZERO, 0, False), X.Qty('b', rng.choice(['var', 'par']), X.ZERO, 0, False)
        X.standalone([k, a, b])
        K, A, B = k.obj, a.obj, b.obj
        cases = [('k*b', lambda: K()*B(), kv*z/mg), ('b*k', lambda: B()*K(), kv*z/mg), ('b/k*num', lambda: B()/K()*mg, z/mg/kv*mg),
                 ('k/a', lambda: K()/A(), kv/av), ('k+a', lambda: K()+A(), kv+av), ('a-k', lambda: A()-K(), av-kv), ('k-a', lambda: K()-A(), kv-av),
                 ('num*b', lambda: av*B(), av*z/mg), ('b*num', lambda: B()*av, av*z/mg), ('a/num', lambda: A()/av, 1.), ('num/a', lambda: av/A(), 1.),
                 ('a+num', lambda: A()+kv, av+kv), ('num-a', lambda: kv-A(), kv-av), ('a-num', lambda: A()-kv, av-kv),
                 ('k alone', lambda: K()*1, kv), ('-k', lambda: K()*-1, -kv), ('|k|/a', lambda: Abs(K())/A(), abs(kv)/av), ('sqrt(a)/sqrt|k|', lambda: Sqrt(A())/Sqrt(Abs(K())), (av/abs(kv))**.5),
                 ('k**2/a**2', lambda: K()**2/A()**2, (kv/av)**2), ('a**2*b**2', lambda: A()**2*B()**2, (av*z/mg)**2)]
        for what, make, want in cases:
            env = {'a': av, 'b': z/mg}
            for form in ('residual', 'equation'):
                if form == 'residual':
                    got = Equation('e', '', make()).eval(env)
                else:
                    eq = Equation('e', '', make()*1 == A()*0)
                    got = eq.eval(env)
                    side = eq.eval(env, side='lhs')
                    c.ok(abs(float(side) - want) <= 1e-11*abs(want), 'left side %s with k=%r at %s gave %r instead of %r' % (what, kv, env, side, want))
                tol = 1e-11*abs(want) if '+' not in what and '-' not in what else 1e-11*max(abs(kv), abs(av))
                c.ok(abs(float(got) - want) <= tol, '%s with k=%r at %s (%s) gave %r instead of %r' % (what, kv, env, form, got, want))
                c.event('magnitudes')
    c.note('from 1e-33 to 1e30')


def many_operands(c):
    """Long sums and products, and Min and Max of many."""
    from sloth.core.equation import Equation
    rng = c.rng
    for n in (2, 3, 5, 12, 30):
        pool = [X.Qty('q%d' % i, rng.choice(['var', 'par', 'con']), X.ZERO, X.rnd_value(rng, 'pos'), rng.random() < .3)
                for i in range(n)]
        pool[0].specified = False
        X.standalone(pool)
        env = {q.name: X.rnd_value(rng, 'small') + .7 for q in pool if not q.specified}
        s, p = ('q', pool[0]), ('q', pool[0])
        for i, q in enumerate(pool[1:]):
            s = ('bin', '+-'[i % 2], s, ('bin', '*', ('q', q), ('num', i + .5)))
            p = ('bin', '*/'[i % 2], p, ('q', q))
        for e in (s, p, ('mm', 'Min', tuple(('q', q) for q in pool)), ('mm', 'Max', tuple(('q', q) for q in pool))):
            run_one(c, e, env)
            try:
                want = reference(e, env)
            except X.Domain:
                continue
            for q in pool:
                if not q.specified:
                    q.obj.value = env[q.name]
            eq = Equation('e', '', X.realise(e))
            agree(c, 'own values of %d operands' % n, eq.eval(), want)
            used = {q.name for q in X.leaves(e)}
            c.ok(set(eq.objects_declared) == used, 'objects of an equation of %d operands' % n, got=sorted(eq.objects_declared), expected=sorted(used))
            c.event('wide expressions')
    c.note('2 to 30 operands')


CHECK = Check('C03', case, quick=1500, thorough=25000, directed=[each_operator, known_extremes, magnitudes, many_operands],
              need=['points', 'own values', 'augmented', 'magnitudes', 'respecified', 'reused', 'elementary equations'] + ['built ' + f for f in X.FUNS] +
                   ['built ' + o for o in ('+', '-', '*', '/', '**', 'Min', 'Max')],
              rule='random expressions of depth 1-5, built, evaluated at up to 3 points each and compared with mpmath; '
                   'non-trivial: at least three nodes and an unspecified quantity',
              assumptions=['points where the formula is undefined, above 1e5 or ill-scaled are not judged'])
