"""C10: connections: what they add, what is refused, and that every solution satisfies them."""
from harness import expr as X
from harness import systems as S
from harness.core import Check, interrupted
from harness.flow import Flow


def announce(case, f):
    for l in f.show():
        case.note(l)
    case.key(f.show())


def snapshot(f, p):
    return ([(m.name, list(m.equations), [id(e) for e in m.equations.values()]) for m in f.models], list(p.connections),
            [(m.name, list(m.variables), {k: [v.name for v in l] for k, l in m.exposed_vars.items()}) for m in f.models])


def residual_matches(case, eq, shadow, what):
    """The equation created evaluates (up to its sign) as the sum of inputs minus the sum of outputs."""
    sign = None
    for _ in range(3):
        env = {q.name: case.rng.uniform(-3, 3) for q in shadow.qtys()}
        got = float(eq.eval({k: v for k, v in env.items()}))
        want = shadow.fres(env)
        if sign is None:
            sign = -1. if abs(got + want) < abs(got - want) else 1.
        case.ok(abs(got - sign * want) < 1e-9 * (1 + abs(want)), '%s: the equation of the connection' % what, got=got,
                expected=want)


def solve(case, f, p, what, solver=None):
    solver = solver or case.rng.choice(['sympy', 'scipy', 'symbolicsys'])
    with case.accepted(what):
        p.resolve()
    n = len(p.equation_block.equations)
    case.ok(n == len(f.all_eqs()), '%s: number of equations' % what, got=n, expected=len(f.all_eqs()))
    with case.accepted(what):
        got = S.simulate(p, linear_solver=solver).getResults('dict')
    case.ok(set(got) == set(f.solution), '%s: unknowns' % what, got=sorted(got), expected=sorted(f.solution))
    scale = max([1.] + [abs(v) for v in f.solution.values()])
    for k, v in f.solution.items():
        case.ok(abs(float(got[k]) - v) < 1e-6 * f.cond * scale, '%s: value of %s' % (what, k), got=float(got[k]), expected=v)
    env = {k: float(v) for k, v in got.items()}
    for c in f.conns:
        case.ok(abs(c.eq.fres(env)) < 1e-6 * f.cond * scale, '%s: %s' % (what, c.show(f.sys.names)), got=env)
        case.event('connections satisfied')


def cases(case):
    from sloth.problem import Problem
    rng = case.rng
    f = Flow(rng, style=rng.choice(['class', 'direct']), nonlinear=rng.random() < .3)
    announce(case, f)
    with case.accepted('building'):
        f.build()
    p = Problem('P')
    order = list(f.models)
    rng.shuffle(order)
    before = rng.random() < .5
    if before:
        p.addModels(order)
    for c in f.conns:
        if rng.random() < .5:
            bad(case, f, p)
        eqs = {m.name: list(m.equations) for m in f.models}
        if c.outside != '' and rng.random() < .2:
            # one that fails, to be made again
            n = int(10 ** rng.uniform(0, 1.8))
            with interrupted(n) as state:
                c.make(p, f.models, f.current)
            case.note('interrupted at call %d: %s' % (n, state.get('where')))
            if state['raised']:
                case.event('interrupted connections')
        with case.accepted(c.show(f.sys.names)):
            c.make(p, f.models, f.current)
        if c.kind == 'expr':
            case.event('expressions given as ' + ('residuals' if c.as_list else 'two sides'))
        case.event('connections ' + c.kind + (' from outside' if c.outside is not False else ''))
        target = f.models[c.m2].name
        for m in f.models:
            new = [n for n in m.equations if n not in eqs[m.name]]
            gone = [n for n in eqs[m.name] if n not in m.equations]
            case.ok(not gone, 'a connection removed equations', gone=gone)
            case.ok(len(new) == (1 if m.name == target else 0), 'equations added to %s by a connection to %s' % (m.name, target),
                    new=new)
            if new:
                residual_matches(case, m.equations[new[0]], c.eq, c.show(f.sys.names))
    if not before:
        p.addModels(order)
    if f.conns and rng.random() < .3:
        bad(case, f, p)
    nl = any('Sin' in X.ops(e.residual()) for e in f.sys.eqs)
    if nl:
        p.resolve()
        with case.accepted('nonlinear flowsheet'):
            sim = S.simulate(p, initial_guess={k: v + rng.uniform(-.01, .01) for k, v in f.solution.items()})
        env = {k: float(v) for k, v in sim.getResults('dict').items()}
        for e in f.all_eqs():
            case.ok(abs(e.fres(env)) < 1e-5, 'equation satisfied: %s' % e.show(), got=env)
        case.event('nonlinear flowsheets')
    else:
        solve(case, f, p, 'first resolution')
    for _ in range(rng.randint(0, 2)):
        if not nl:
            solve(case, f, p, 'later resolution')
            case.event('later resolutions')


def bad(case, f, p):
    """A connection that must be refused."""
    rng = case.rng
    snap = snapshot(f, p)
    a, b = rng.sample(range(f.nm), 2)
    cur = f.current
    allv = [q for q in f.sys.qtys if q.kind == 'var']
    in_b = [q for q in allv if q.model == b and getattr(q, 'exposed', '') == 'input']
    out_a = [q for q in allv if q.model == a and getattr(q, 'exposed', '') == 'output']
    not_out = [q for q in allv if not (q.model == a and getattr(q, 'exposed', '') == 'output')]
    not_in = [q for q in allv if not (q.model == b and getattr(q, 'exposed', '') == 'input')]
    kind = rng.choice(['out', 'in', 'both', 'dims', 'list out', 'list in', 'swap', 'namesake'])
    lst = lambda qs: [cur(q) for q in qs]  # noqa: E731
    if kind == 'out' and in_b:
        i = rng.choice(in_b)
        o, i = lst([rng.choice([q for q in not_out if q.dim == i.dim] or not_out)]), lst([i])
    elif kind == 'in' and out_a:
        o = rng.choice(out_a)
        i = lst([rng.choice([q for q in not_in if q.dim == o.dim] or not_in)])
        o = lst([o])
    elif kind == 'both':
        o, i = lst([rng.choice(not_out)]), lst([rng.choice(not_in)])
    elif kind == 'list out' and in_b and out_a:
        o = lst([rng.choice(out_a), rng.choice(not_out)])
        rng.shuffle(o)
        i = lst([rng.choice(in_b)])
    elif kind == 'list in' and in_b and out_a:
        i = lst([rng.choice(in_b), rng.choice(not_in)])
        rng.shuffle(i)
        o = lst([rng.choice(out_a)])
    elif kind == 'namesake' and in_b and out_a:
        # of another model of the same name, exposed there in the same way
        from sloth.model import Model
        q = rng.choice([rng.choice(out_a), rng.choice(in_b)])
        twin = Model(f.models[q.model].name)
        v = twin.createVariable(cur(q).name[:-1 - len(twin.name)], X.unit(q.dim), '', is_exposed=True, type=q.exposed)
        o, i = (lst([rng.choice(out_a)]), [v]) if q.exposed == 'input' else ([v], lst([rng.choice(in_b)]))
        if rng.random() < .3:
            o += lst([x for x in out_a if cur(x) is not o[0]][:1])
    elif kind == 'swap' and in_b and out_a:
        # the direction matters: from the model of the input to the model of the output
        o, i, (a, b) = lst([rng.choice(out_a)]), lst([rng.choice(in_b)]), (b, a)
    elif kind == 'dims':
        pairs = [(o, i) for o in out_a for i in in_b if o.dim != i.dim]
        if not pairs:
            return
        o, i = rng.choice(pairs)
        o, i = lst([o]), lst([i])
        types = None
        case.rejects('connection of different dimensions', lambda: p.createConnection(
            f.models[a], f.models[b], o if rng.random() < .5 else o[0], i if rng.random() < .5 else i[0]),
            ('DimensionalCoherenceError', 'UnexpectedValueError'))
        case.ok(snapshot(f, p) == snap, 'a refused connection (%s) changed something' % kind)
        case.event('refused ' + kind)
        return
    else:
        return
    single = len(o) == 1 and len(i) == 1 and rng.random() < .5
    case.rejects('connection %s -> %s that is not exposed (%s)' % ([v.name for v in o], [v.name for v in i], kind),
                 lambda: p.createConnection(f.models[a], f.models[b], o[0] if single else o, i[0] if single else i),
                 ('ExposedVariableError',))
    case.ok(snapshot(f, p) == snap, 'a refused connection (%s) changed something' % kind)
    case.event('refused ' + kind)


def many(case):
    """Many connections between the same two models, by variables and by expressions mixed."""
    from sloth.model import Model
    from sloth.problem import Problem
    from sloth.core.template_units import dimless
    rng = case.rng
    for trial in range(6):
        n = 6 if trial < 4 else 14
        a, b = Model('A'), Model('B')
        # names that differ in little
        style = rng.choice(['o%d', 'oO', 'o_', 'o%d']) if trial != 3 else 'oO'
        names = ['o%d' % k for k in range(n)] if style == 'o%d' else ([x + y for x in 'oO' for y in 'abABcCD'] if style == 'oO' else [
            'o', 'o_', 'o__', '_o', 'o_A', 'o_o', 'oo', 'o1', 'o10', 'o_1', 'o_10', 'O', 'a', 'A'])[:n]
        if style != 'o%d':
            case.event('connections of close names')
        o = [a.createVariable(k, dimless, '', is_exposed=True, type='output') for k in names]
        i = [b.createVariable(k, dimless, '', is_exposed=True, type='input') for k in names]
        for k in range(n):
            a.createEquation('e%d' % k, '', o[k]() - float(k + 1))
        p = Problem('P')
        p.addModels([a, b])
        pairs = list(zip(o, i))
        rng.shuffle(pairs)
        for k, (x, y) in enumerate(pairs):
            mode = rng.choice(['single', 'list', 'node', 'node2'])
            if mode == 'single':
                p.createConnection(a, b, x, y)
            elif mode == 'list':
                p.createConnection(a, b, [x], [y])
            elif mode == 'node':
                p.createConnection(a, b, x(), y())
            else:
                p.createConnection(a, b, 2. * x(), 2. * y())
        p.resolve()
        for solver in ('sympy', 'scipy'):
            got = S.simulate(p, linear_solver=solver).getResults('dict')
            for k in range(n):
                case.ok(abs(float(got[i[k].name]) - (k + 1)) < 1e-9, 'value received through connection %d' % k, got=got)
        case.event('models with many connections')


def converging(case):
    """Several connections into the same inputs, and out of the same outputs: all hold at once."""
    from sloth.model import Model
    from sloth.problem import Problem
    from sloth.core.template_units import dimless
    rng = case.rng
    for trial in range(9):
        n = rng.randint(2, 4) if trial < 8 else 12
        hub = Model('hub')
        y = [hub.createVariable('y%d' % k, dimless, '', is_exposed=True, type='input') for k in range(2)]
        hub.createEquation('given', '', y[0]() - 3.)
        hub.createEquation('given1', '', y[1]() - 5.)
        srcs = [Model('S%d' % k) for k in range(n)]
        xs = [m.createVariable('x', dimless, '', is_exposed=True, type='output') for m in srcs]
        p = Problem('P')
        p.addModels(srcs + [hub])
        want = {}
        for k, (m, x) in enumerate(zip(srcs, xs)):
            which = rng.choice(['y0', 'y1', 'both', 'expr'])
            if which == 'both':
                p.createConnection(m, hub, [x], y)
                want[x.name] = 8.
            elif which == 'expr':
                p.createConnection(m, hub, x, y[0], expr=y[0]() - 2. * x())
                want[x.name] = 1.5
            else:
                q = y[int(which[1])]
                p.createConnection(m, hub, *((x, q) if rng.random() < .6 else (x(), q())))
                want[x.name] = {'y0': 3., 'y1': 5.}[which]
            case.event('converging connections')
        p.resolve()
        case.ok(len(p.equation_block.equations) == n + 2, 'connections to the same inputs: number of equations', got=[e.name for e in p.equation_block.equations])
        got = S.simulate(p, linear_solver=rng.choice(['sympy', 'scipy'])).getResults('dict')
        for k, v in want.items():
            case.ok(abs(float(got[k]) - v) < 1e-9, 'value of %s, connected with the same inputs as others' % k, got=got, expected=v)


def rivals(case):
    """Expressions of several outputs of one model (or from outside) into the same expression of an input, or of one output into several: all hold."""
    from sloth.model import Model
    from sloth.problem import Problem
    from sloth.core.template_units import dimless
    rng = case.rng
    for trial in range(8):
        n = rng.randint(2, 4)
        fan = trial % 2
        a, b = Model('A'), Model('B')
        o = [a.createVariable('o%d' % k, dimless, '', is_exposed=True, type='output') for k in range(1 if fan else n)]
        i = [b.createVariable('i%d' % k, dimless, '', is_exposed=True, type='input') for k in range(n if fan else 1)]
        v = round(rng.uniform(-9, 9), 2)
        (a if fan else b).createEquation('given', '', (o if fan else i)[0]() - v)
        p = Problem('P')
        p.addModels([a, b])
        want = {}
        common = rng.choice([lambda e: e, lambda e: 2. * e, lambda e: e + 1.])
        at = common(v)
        for k in range(n):
            q = (i if fan else o)[k]
            f, back = rng.choice([(lambda e: e, lambda r: r), (lambda e: 3. * e, lambda r: r / 3.), (lambda e: e - 2., lambda r: r + 2.)])
            x, y = (common(o[0]()), f(q())) if fan else (f(q()), common(i[0]()))
            before = len(b.equations)
            m = rng.choice([a, 'A', 'outside']) if trial < 6 else rng.choice([[a], ['outside']])[0]
            p.createConnection(m, b, x, y)
            case.ok(len(b.equations) == before + 1, 'connection of expressions sharing one side', equations=list(b.equations))
            want[q.name] = back(at)
        p.resolve()
        got = S.simulate(p, linear_solver=rng.choice(['sympy', 'scipy'])).getResults('dict')
        for k, w in want.items():
            case.ok(abs(float(got[k]) - w) < 1e-9 * (1 + abs(w)), 'value of %s, connected by expressions' % k, got=got, expected=w)
        case.event('expressions sharing one side')


def overlapping(case):
    """Connections of several variables that share some of them: they all hold at once, and the inputs are found."""
    from sloth.model import Model
    from sloth.problem import Problem
    from sloth.core.template_units import dimless
    rng = case.rng
    for trial in range(7):
        n = rng.randint(2, 4) if trial < 6 else 13
        a, b = Model('A'), Model('B')
        o = [a.createVariable('o%d' % k, dimless, '', is_exposed=True, type='output') for k in range(n)]
        i = [b.createVariable('i%d' % k, dimless, '', is_exposed=True, type='input') for k in range(n)]
        val = [round(rng.uniform(-9, 9), 2) for _ in range(n)]
        for k in range(n):
            a.createEquation('e%d' % k, '', o[k]() - val[k])
        p = Problem('P')
        p.addModels([a, b])
        # the first k inputs receive the first k outputs, for each k, all of them starting with the same variables
        ks = list(range(1, n + 1))
        rng.shuffle(ks)
        for k in ks:
            outs, ins = o[:k], i[:k]
            if rng.random() < .3 and k > 2:
                outs, ins = outs[:1] + rng.sample(outs[1:], k - 1), ins[:1] + rng.sample(ins[1:], k - 1)
            before = len(b.equations)
            p.createConnection(a, b, outs, ins)
            case.ok(len(b.equations) == before + 1, 'connection of %d variables' % k, equations=list(b.equations))
            case.event('overlapping connections')
        p.resolve()
        got = S.simulate(p, linear_solver=rng.choice(['sympy', 'scipy'])).getResults('dict')
        for k in range(n):
            case.ok(abs(float(got['i%d_B' % k]) - val[k]) < 1e-9, 'value received by input %d' % k, got=got, expected=val)


def shared(case):
    """Connections of lists that have inputs or outputs in common but differ in one, anywhere: each adds its equation."""
    from sloth.model import Model
    from sloth.problem import Problem
    from sloth.core.template_units import dimless
    rng = case.rng
    for trial, n in enumerate((2, 3, 6, 9, 14)):
        for side in ('outputs', 'inputs'):
            a, b = Model('A'), Model('B')
            o = [a.createVariable('o%d' % k, dimless, '', is_exposed=True, type='output') for k in range(n)]
            i = [b.createVariable('i%d' % k, dimless, '', is_exposed=True, type='input') for k in range(n)]
            val = {}
            p = Problem('P')
            p.addModels([a, b])
            # all but one of the others' variables, against all of them: 'given' fixes one side, the connections the other
            fixed, found = (o, i) if side == 'outputs' else (i, o)
            for k, v in enumerate(fixed):
                val[v.name] = round(rng.uniform(-9, 9), 2)
                (a if side == 'outputs' else b).createEquation('given%d' % k, '', v() - val[v.name])
            given = sum(val[v.name] for v in fixed)
            # connection k has all the variables to be found but the k-th (or, for the last, all)
            sets = [found[:k] + found[k + 1:] for k in range(n - 1)] + [list(found)]
            rng.shuffle(sets)
            for s in sets:
                before = len(b.equations)
                x, y = (fixed, s) if side == 'outputs' else (s, fixed)
                p.createConnection(a, b, list(x), list(y))
                case.ok(len(b.equations) == before + 1, 'connection of %d outputs to %d inputs, with the same %s as another'
                        % (len(x), len(y), side), equations=list(b.equations))
                case.event('connections sharing ' + side)
            # sum of all = given, sum of all but k = given: the first n-1 are zero and the last is the sum
            p.resolve()
            got = S.simulate(p, linear_solver=rng.choice(['sympy', 'scipy'])).getResults('dict')
            for k, v in enumerate(found):
                want = given if k == n - 1 else 0.
                case.ok(abs(float(got[v.name]) - want) < 1e-8 * (1 + abs(given)), 'value of %s' % v.name, got=got, expected=want)


CHECK = Check('C10', cases, 220, 9000,
              'random flowsheets of 2-4 models with exposed inputs and outputs (with feedback), connected by variables, lists '
              'of variables, custom and free expressions, interleaved with connections that must be refused, then solved; '
              'distinct by equations and connections',
              directed=[many, converging, rivals, overlapping, shared],
              need=['interrupted connections', 'connections sharing outputs', 'connections sharing inputs', 'expressions given as residuals', 'expressions given as two sides', 'connections vars', 'connections expr', 'connections nodes', 'connections nodes from outside', 'refused out',
                    'refused in', 'refused dims', 'refused swap', 'refused namesake', 'refused list out', 'refused list in', 'connections satisfied',
                    'later resolutions', 'connections of close names', 'nonlinear flowsheets', 'models with many connections', 'converging connections', 'overlapping connections', 'expressions sharing one side'])
