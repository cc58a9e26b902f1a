"""C08: incorporations. Histories over several models: objects, equations, incorporations of one model into another, values;
after every step all registries are compared with references and every equation is evaluated against its shadow.
And whole problems whose models are replaced by models that incorporate them: same solutions."""
import copy

from harness import expr as X
from harness import systems as S
from harness.core import Check, Skip, close, interrupted
from harness.flow import Flow
from checks import c03, c13
from checks.c06 import REG, RefModel, check_registry, declare, rnd_spec

SHORT = ['x', 'y', 'z', 'x1', 'x_1', 'x_M1', 'M1', 'T_in', 'T', 'e', 'mdot', 'P', 'a', 'aa', 'u_v', 'k', 'x_x', 'A', 'S', 'N', 'beta', 'E1',
         'w', 'x_A', 'y_B', 'q', 'v', 'T_out', 'rho', 'mu', 'C', 'O', 'Q', 'I1', 'gamma', 'lamb']
NAMES = ['M1', 'M', 'M11', 'x', 'M_1', 'tank', 'Tank', 'A', 'B', 'x_M1', '1', 'AB']


class Eq:
    """An equation with the points where it is evaluated after every step."""

    def __init__(self, obj, e, f, names, desc, pts, sides):
        self.obj, self.e, self.f, self.names, self.desc, self.pts, self.sides = obj, e, f, names, desc, pts, sides

    def __iter__(self):          # as c06 looks at it
        return iter((self.obj, self.names, self.desc))


def check_eq(c, eq, what):
    for env, want in eq.pts:
        c03.agree(c, '%s: %s at %s' % (what, eq.obj.name, env), eq.obj.eval(env), want)
        c.event('evaluations')
    if eq.sides:
        for side, (env, want) in zip(('lhs', 'rhs'), eq.sides):
            c03.agree(c, '%s: %s of %s at %s' % (what, side, eq.obj.name, env), eq.obj.eval(env, side=side), want)
            c.event('sides')


def new_equation(c, ref, ne, dims):
    rng = c.rng
    pool = ref.pool()
    e = X.rnd_expr(rng, pool, rng.randint(1, 3))
    if e is None:
        return None
    f = X.rnd_expr(rng, pool, rng.randint(0, 2), want=X.dim(e))
    if f is not None and (rng.random() < .3 or X.is_num(e)):
        f = None
    whole = e if f is None else ('bin', '-', e, f)
    pts = c03.points(rng, pool, whole, 2)
    if not pts:
        return None
    n = X.realise(e)
    if f is not None:
        r = X.realise(f) if not X.is_num(f) else f[1]
        n = (n == r) if rng.random() < .6 else n - r
    name = rng.choice(['eq%d', 'xe%d', 'e_%d', 'bal_%d_M1']) % ne
    with c.accepted('equation %s in %s' % (X.show(whole), ref.name)):
        obj = ref.m.createEquation(name, 'desc %d' % ne, n)
    sides = None
    if obj.equation_form == 'elementary':
        env = pts[0][0]
        try:
            sides = [(env, c03.reference(s, env)) for s in (e, f)]
        except X.Domain:
            sides = None
    used = {q.name for q in X.leaves(whole)}
    sides = sides and [({k: v for k, v in env.items() if k in used}, w) for env, w in sides]
    q = Eq(obj, e, f, used, 'desc %d' % ne, [({k: v for k, v in env.items() if k in used}, w) for env, w in pts], sides)
    ref.eqs['%s_%s' % (name, ref.name)] = q
    c.note(ref.name, 'equation', X.show(whole))
    return q


def shorts(ref):
    return {ref.short[n] for r in ref.objs.values() for n in r}


def incorporate_all(c, src, dst):
    return incorporate(c, src, dst, True)


def incorporate(c, src, dst, whole=False):
    rng = c.rng
    kinds = {'var': True, 'par': True, 'con': True}
    eqs = rewrite = True
    if whole:
        pass
    elif rng.random() < .25:
        for k in kinds:
            kinds[k] = rng.random() < .7
        needed = {q.kind for e in src.eqs.values() for q in [*X.leaves(e.e), *(X.leaves(e.f) if e.f is not None else [])]}
        eqs = all(kinds[k] for k in needed) and rng.random() < .7
    elif rng.random() < .12:
        rewrite = False
    what = '%s incorporates %s' % (dst.name, src.name)
    c.note(what, kinds, 'equations' if eqs else 'no equations', '' if rewrite else 'keeping names')
    kw = {}
    for k, a in (('var', 'variables'), ('par', 'parameters'), ('con', 'constants')):
        if not kinds[k] or rng.random() < .3:
            kw['incorporate_' + a] = kinds[k]
    if not eqs:
        kw['incorporate_equations'] = False
    if not rewrite:
        kw['rewrite_name'] = False
    with c.accepted(what):
        dst.m.incorporateFromExternalModel(src.m, **kw)
    names = {}
    for k in REG:
        for n, q in src.objs[k].items():
            s = src.short[n]
            names[n] = '%s_%s' % (s, dst.name) if rewrite else n
            if not kinds[k]:
                continue
            reg = getattr(dst.m, REG[k])
            c.ok(names[n] in reg, '%s: %s is not among the %s' % (what, names[n], REG[k]), got=sorted(reg))
            t = copy.copy(q)
            t.name, t.obj = names[n], reg[names[n]]
            c.ok(t.obj is not q.obj, '%s: %s is the object of the source' % (what, n))
            c.ok(getattr(dst.m, s, None) is t.obj, '%s: attribute %s' % (what, s))
            c.ok(bool(t.obj.is_specified) == q.specified, '%s: specified' % what)
            if k == 'var':
                c.ok(bool(t.obj.is_exposed) == bool(q.obj.is_exposed) and t.obj.type == q.obj.type, '%s: exposure of %s' % (what, n))
                for side in ('input', 'output'):
                    if n in src.exposed[side] and t.name not in dst.exposed[side]:
                        dst.exposed[side].append(t.name)
            dst.objs[k][t.name] = t
            dst.short[t.name] = s
            c.event('objects incorporated')
    if eqs:
        for n, e in src.eqs.items():
            s = n[:-1 - len(src.name)]
            m = '%s_%s' % (s, dst.name) if rewrite else n
            c.ok(m in dst.m.equations, '%s: equation %s' % (what, m), got=sorted(dst.m.equations))
            obj = dst.m.equations[m]
            c.ok(obj is not e.obj and obj.owner_model_name == dst.name, '%s: owner of the equation %s' % (what, m))
            c.ok((obj.type, obj.equation_form) == (e.obj.type, e.obj.equation_form), '%s: type of the equation %s' % (what, m),
                 got=[obj.type, obj.equation_form], expected=[e.obj.type, e.obj.equation_form])
            tr = lambda env: {names[k]: v for k, v in env.items()}  # noqa: E731
            # those that cancel out may be left out (the points tell whether they matter)
            left = set(obj.objects_declared)
            c.ok(left <= {names[k] for k in e.names}, '%s: objects of the equation %s' % (what, m), got=sorted(left))
            d = Eq(obj, None, None, left, e.desc, [(tr(env), w) for env, w in e.pts],
                   [(tr(env), w) for env, w in e.sides] if e.sides else None)
            d.e = rename(e.e, names, dst)
            d.f = rename(e.f, names, dst) if e.f is not None else None
            if rewrite:
                c.ok(getattr(dst.m, s, None) is obj or s in shorts(dst), '%s: attribute %s' % (what, s))
            dst.eqs[m] = d
            c.event('equations incorporated')
    if not rewrite:
        dst.frozen = True
        c.event('keeping names')
    return what


def rename(e, names, dst):
    if e[0] == 'q':
        n = names[e[1].name]
        for r in dst.objs.values():
            if n in r:
                return ('q', r[n])
        return e
    if e[0] == 'mm':
        return (e[0], e[1], tuple(rename(a, names, dst) for a in e[2]))
    return tuple(rename(a, names, dst) if isinstance(a, tuple) else a for a in e)


def create(c, ref, dims, taken):
    rng = c.rng
    free = [s for s in SHORT if s not in taken]
    if not free:
        return None
    s = rng.choice(free)
    kind = rng.choice(['var', 'var', 'par', 'con'])
    sp = rnd_spec(rng, kind, dims)
    q = declare(c, ref, kind, s, sp)
    setattr(ref.m, s, q.obj)
    ref.short[q.name] = s
    c.note(ref.name, 'creates', q)
    return q


def histories(c):
    from sloth.model import Model
    rng = c.rng
    dims = [X.ZERO, X.ZERO, X.rnd_dim(rng)]
    refs = []
    for mn in rng.sample(NAMES, rng.randint(2, 4)):
        r = RefModel(Model(mn), mn)
        r.short, r.frozen, r.parents = {}, False, []
        refs.append(r)
    # shorts are distinct over all models (what would collide is not asked for)
    ne = 0
    for r in refs[:-1]:
        for _ in range(rng.randint(2, 5)):
            create(c, r, dims, set().union(*[shorts(x) for x in refs]))
        for _ in range(rng.randint(1, 3)):
            ne += 1
            new_equation(c, r, ne, dims)
    for step in range(rng.randint(3, 9)):
        op = rng.choice(['incorporate', 'incorporate', 'incorporate', 'object', 'equation', 'value', 'declare'])
        ref = rng.choice(refs)
        what = op
        if op == 'incorporate':
            pairs = [(a, b) for a in refs for b in refs if a is not b and not a.frozen and not b.frozen and (shorts(a)) and not shorts(a) & shorts(b)
                     and not {n[:-1 - len(a.name)] for n in a.eqs} & {n[:-1 - len(b.name)] for n in b.eqs}]
            if not pairs:
                continue
            a, b = rng.choice(pairs)
            what = incorporate(c, a, b)
            c.event('incorporations')
        elif op == 'object':
            create(c, ref, dims, set().union(*[shorts(x) for x in refs]))
        elif op == 'equation' and ref.pool():
            ne += 1
            if new_equation(c, ref, ne, dims):
                c.event('equations on incorporated objects')
        elif op == 'value':
            used = set().union(*[e.names for r in refs for e in r.eqs.values()]) if any(r.eqs for r in refs) else set()
            pool = [q for q in ref.pool() if q.specified or q.name not in used]
            if not pool:
                continue
            q = rng.choice(pool)
            v = X.rnd_value(rng)
            q.obj.setValue(v)
            q.value, q.specified = v, True
            what = '%s = %s' % (q.name, v)
            c.event('values changed')
        elif op == 'declare' and not ref.frozen:
            ref.m()
            what = 'declare %s' % ref.name
        c.note(what)
        for r in refs:
            check_registry(c, r, what)
            for e in r.eqs.values():
                check_eq(c, e, what)
    if not any('incorporates' in l for l in c.log):
        c.trivial = True
    c.key(c.log)


def wrap(c, src, style=None, name=None):
    """A model that incorporates this one."""
    from sloth.model import Model
    rng = c.rng
    name = name or 'W' + src.name
    if (style or rng.choice(['init', 'after', 'twice'])) == 'init':
        class Wrapper(Model):
            def __init__(self, n):
                super().__init__(n, 'incorporates')
                self.incorporateFromExternalModel(src)
        w = Wrapper(name)
    elif style == 'after' or rng.random() < .6:
        w = Model(name)
        w.incorporateFromExternalModel(src)
    else:
        v = Model('V' + src.name)
        v.incorporateFromExternalModel(src)
        w = Model(name)
        w.incorporateFromExternalModel(v)
        c.event('incorporated twice over')
    if rng.random() < .5:
        w()
    return w


def systems(c):
    """Problems of models that incorporate the models of a system."""
    from sloth.problem import Problem
    rng = c.rng
    kind = rng.choice(['linear', 'nonlinear', 'flow', 'flow'])
    if kind == 'linear':
        s = S.linear(rng, nmodels=1)
        sol, models, sys_ = s.solution, None, s
    elif kind == 'nonlinear':
        s = None
        for _ in range(4):
            s = s or S.nonlinear(rng, n=rng.randint(1, 3), nmodels=1)
        if s is None:
            raise Skip('no well-conditioned system found')
        sol, sys_ = s.solution, s
    else:
        s = Flow(rng, nonlinear=rng.random() < .3)
        sol, sys_ = s.solution, s.sys
    for l in s.show():
        c.note(l)
    s.build()
    srcs = sys_.models
    ws = [wrap(c, m) for m in srcs]
    new = {}
    for m, w in zip(srcs, ws):
        for n in list(m.variables) + list(m.parameters) + list(m.constants):
            new[n] = n[:-len(m.name)] + w.name
    p = Problem('P')
    p.addModels(ws)
    if kind == 'flow':
        reg = {'var': 'variables', 'par': 'parameters', 'con': 'constants'}
        cur = lambda q: getattr(ws[q.model], reg[q.kind])[new[q.name]]  # noqa: E731
        for cn in s.conns:
            cn.make(p, ws, cur)
        c.event('connections of incorporated variables')
    with c.accepted('resolve'):
        p.resolve()
    conf = {}
    if kind == 'nonlinear' or kind == 'flow':
        conf['initial_guess'] = {new[n]: v * (1 + rng.uniform(-1, 1) * 1e-3) for n, v in sol.items()}
    with c.accepted('run of the incorporated system'):
        sim = S.simulate(p, **conf)
    got = {n: float(v) for n, v in sim.getResults('dict').items()}
    c.ok(set(got) == {new[n] for n in sol}, 'variables solved', got=sorted(got), expected=sorted(new[n] for n in sol))
    for n, v in sol.items():
        c.ok(close(got[new[n]], v, 1e-5, 1e-6) if kind != 'nonlinear' else close(got[new[n]], v, 1e-3, 1e-3), 'solution for %s' % new[n], got=got[new[n]], expected=v)
    c.event('%s systems solved' % kind)
    # the source still works
    if kind != 'flow':
        q = sys_.make_problem('source')
        if kind == 'nonlinear':
            conf['initial_guess'] = {n: v for n, v in sol.items()}
        got = S.simulate(q, **conf).getResults('dict')
        if kind == 'nonlinear':
            c13.root_ok(c, s, {n: float(v) for n, v in got.items()}, 'the source after the incorporation')
        else:
            for n, v in sol.items():
                c.ok(close(float(got[n]), v, 1e-6, 1e-7), 'solution of the source for %s' % n, got=float(got[n]), expected=v)
        c.event('sources solved')
    c.key(c.log)


def case(c):
    (histories if c.rng.random() < .7 else systems)(c)


def again(c):
    """The same model incorporated again after it has changed, by a model that does it at every declaration, or on demand."""
    from sloth.model import Model
    from sloth.problem import Problem
    from sloth.core.template_units import dimless
    rng = c.rng
    for trial in range(6):
        src = Model('A')
        x = src.createVariable('x', dimless, '')
        src.x = x
        src.k = src.createParameter('k', dimless, '', 2.)
        k0 = round(rng.uniform(1, 9), 2)
        src.k.setValue(k0)
        src.createEquation('e', '', x() - src.k() * 3.)

        class W(Model):
            def DeclareVariables(self):
                if trial % 2:
                    self.y = self.createVariable('y', dimless, '')
                self.incorporateFromExternalModel(src)

            def DeclareEquations(self):
                if trial % 2:
                    self.createEquation('own', '', self.y() - 2. * self.x())
        w = W('W')
        p = Problem('P')
        p.addModels(w)
        want = {'x_W': 3 * k0}
        bound, desc = None, ''
        for step in range(3):
            if trial % 2:
                want['y_W'] = 2 * want['x_W']
            p.resolve()
            got = S.simulate(p, linear_solver=rng.choice(['sympy', 'scipy'])).getResults('dict')
            c.ok(set(got) == set(want) and all(close(float(got[n]), want[n], 1e-7, 1e-9) for n in want),
                 'incorporated at every declaration, %d' % step, got=got, expected=want)
            v = w.variables['x_W']
            c.ok((v.upper_bound, v.description) == (bound, desc), 'incorporated at every declaration, %d: bound and description of the variable' % step,
                 got=[v.upper_bound, v.description], expected=[bound, desc])
            c.event('incorporated again')
            if rng.random() < .7:
                bound, desc = 1e6 * (step + 1), 'as of step %d' % step
                x = src.x = src.createVariable('x', dimless, desc, upper_bound=bound)
            how = rng.choice(['value', 'object', 'equation'])
            if how == 'value':
                k0 = round(rng.uniform(1, 9), 2)
                src.k.setValue(k0)
                src.createEquation('e', '', x() - src.k() * 3.)
                want['x_W'] = 3 * k0
            elif how == 'object':
                z = src.createVariable('z%d' % step, dimless, '')
                src.createEquation('ez%d' % step, '', z() - x() - 1.)
                want['z%d_W' % step] = 0
            else:
                src.createEquation('e', '', x() - src.k() * 4. + src.k())
            for n in want:
                if n.startswith('z'):
                    want[n] = want['x_W'] + 1
        c.ok(set(src.variables) == {n.replace('_W', '_A') for n in want if n != 'y_W'}, 'the source after its incorporations', got=list(src.variables))


def large(c):
    """A model of many objects and equations."""
    from sloth.model import Model
    src, dst, last = RefModel(Model('A'), 'A'), RefModel(Model('big'), 'big'), RefModel(Model('C'), 'C')
    for r in (src, dst, last):
        r.short, r.frozen, r.parents = {}, False, []
    rng = c.rng
    for i in range(42):
        kind = ['var', 'par', 'con'][i % 3]
        q = declare(c, src, kind, 'o%d' % i, rnd_spec(rng, kind, [X.ZERO]))
        src.short[q.name] = 'o%d' % i
    ne = 0
    while len(src.eqs) < 30:
        ne += 1
        new_equation(c, src, ne, [X.ZERO])
    for a, b in ((src, dst), (dst, last)):
        what = incorporate_all(c, a, b)
        for r in (src, dst, last):
            check_registry(c, r, what)
            for e in r.eqs.values():
                check_eq(c, e, what)
    c.ok(len(last.m.equations) == 30 and len(last.m.variables) == len(last.m.parameters) == len(last.m.constants) == 14, 'incorporated objects of a large model')
    c.event('large models incorporated')


def failing(c):
    """An incorporation that fails at some point: the source is as it was, and the next one is whole."""
    from sloth.model import Model
    rng = c.rng
    n = 0
    while n < 400:
        n += 1 if n < 30 else rng.randint(1, 12)
        src, dst, other = (RefModel(Model(x), x) for x in ('A', 'D', 'E'))
        for r in (src, dst, other):
            r.short, r.frozen, r.parents = {}, False, []
        for i in range(4):
            q = declare(c, src, ['var', 'par', 'con', 'var'][i], SHORT[i], rnd_spec(rng, ['var', 'par', 'con', 'var'][i], [X.ZERO]))
            setattr(src.m, SHORT[i], q.obj)
            src.short[q.name] = SHORT[i]
        ne = 0
        while len(src.eqs) < 2 and ne < 40:
            ne += 1
            new_equation(c, src, ne, [X.ZERO])
        with interrupted(n) as state:
            dst.m.incorporateFromExternalModel(src.m)
        where = 'an incorporation interrupted at call %d (%s)' % (n, state.get('where'))
        c.note(where)
        check_registry(c, src, where)
        for e in src.eqs.values():
            check_eq(c, e, where)
        for d in (dst, other):
            what = incorporate_all(c, src, d)
            for r in (src, d):
                check_registry(c, r, '%s after %s' % (what, where))
                for e in r.eqs.values():
                    check_eq(c, e, '%s after %s' % (what, where))
        if not state['raised']:
            break
        c.event('incorporations interrupted')


CHECK = Check('C08', case, 500, 20000,
              'histories of objects, equations, values and incorporations over 2-4 models (whole or selective, chained, keeping names), all '
              'registries and equations checked after every step; and systems solved through models that incorporate theirs; distinct by history',
              directed=[large, again, failing],
              need=['incorporations interrupted', 'incorporated again', 'large models incorporated', 'incorporations', 'objects incorporated', 'equations incorporated', 'evaluations', 'sides', 'values changed', 'keeping names',
                    'incorporated twice over', 'linear systems solved', 'nonlinear systems solved', 'flow systems solved', 'sources solved'])
