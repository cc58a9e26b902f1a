"""C06: registries of models. Online monitor: after every declaration the four registries of every model alive are compared
with a reference; equations with undeclared objects must be refused, leaving the registries as they were."""
from harness.core import Check
from harness import expr as X

SHORT = ['x', 'y', 'z', 'x1', 'x_1', 'x_M1', 'M1', 'T_in', 'T', 'in', 'e', 'mdot', 'P', 'a', 'aa', 'u_v', 'k', 'x_x', '_x', 'x_', '__k', '_', 'X']
MNAMES = ['M1', 'M', 'M11', 'x', 'M_1', 'tank', 'Tank', 'x_M1', '1']


class RefModel:
    def __init__(self, m, name):
        self.m, self.name = m, name
        self.objs = {'var': {}, 'par': {}, 'con': {}}
        self.eqs = {}
        self.exposed = {'input': [], 'output': []}
        self.left = None

    def pool(self):
        return [q for k in self.objs.values() for q in k.values()]


REG = {'var': 'variables', 'par': 'parameters', 'con': 'constants'}


def check_registry(c, ref, what):
    m = ref.m
    for k, attr in REG.items():
        reg = getattr(m, attr)
        c.ok(sorted(reg) == sorted(ref.objs[k]), '%s: the %s of %s are %s instead of %s' % (
            what, attr, ref.name, sorted(reg), sorted(ref.objs[k])))
        for qn, q in ref.objs[k].items():
            o = reg[qn]
            c.ok(o is q.obj, '%s: %s is registered as another object' % (what, qn))
            c.ok(o.name == qn, '%s: %s is named %s' % (what, qn, o.name))
            c.ok(X.same_dim(o.units, q.dim), '%s: the unit of %s is %s' % (what, qn, dict(o.units.dimension)))
            c.ok(o.value == q.value, '%s: the value of %s is %r instead of %r' % (what, qn, o.value, q.value))
            c.ok(bool(o.is_specified) == q.specified, '%s: %s is_specified %r' % (what, qn, o.is_specified))
            c.ok(o.description == q.desc and o.owner_model_name == ref.name, '%s: description or owner of %s' % (what, qn))
            if k == 'var':
                c.ok((o.lower_bound, o.upper_bound) == q.bounds and bool(o.is_lower_bounded) == (q.bounds[0] is not None)
                     and bool(o.is_upper_bounded) == (q.bounds[1] is not None),
                     '%s: the bounds of %s are %s' % (what, qn, (o.lower_bound, o.upper_bound)))
    for side in ('input', 'output'):
        c.ok(sorted({v.name for v in m.exposed_vars[side]}) == sorted(ref.exposed[side]),
             '%s: exposed as %s: %s' % (what, side, [v.name for v in m.exposed_vars[side]]))
    c.ok(sorted(m.equations) == sorted(ref.eqs), '%s: the equations of %s are %s instead of %s' % (
        what, ref.name, sorted(m.equations), sorted(ref.eqs)))
    for en, (eq, names, desc) in ref.eqs.items():
        c.ok(m.equations[en] is eq and eq.name == en and eq.description == desc, '%s: the equation %s' % (what, en))
        c.ok(set(eq.objects_declared) == names, '%s: the objects of the equation %s are %s instead of %s' % (
            what, en, sorted(eq.objects_declared), sorted(names)))


def declare(c, ref, kind, short, spec):
    """Create an object through the model."""
    rng = c.rng
    m = ref.m
    if ref.left is not None:
        if not ref.left:
            raise Interrupted()
        ref.left -= 1
    d = spec['dim']
    q = X.Qty('%s_%s' % (short, ref.name), kind, d, spec['value'], False)
    q.desc, q.bounds = spec['desc'], spec['bounds']
    u = X.unit(d, None)
    if kind == 'var':
        kw = {}
        if spec['bounds'][0] is not None:
            kw['lower_bound'] = spec['bounds'][0]
        if spec['bounds'][1] is not None:
            kw['upper_bound'] = spec['bounds'][1]
        if spec['exposed']:
            kw.update(is_exposed=True, type=spec['exposed'])
        q.obj = m.createVariable(short, u, spec['desc'], value=spec['value'], **kw)
        if spec['exposed'] and q.name not in ref.exposed[spec['exposed']]:
            ref.exposed[spec['exposed']].append(q.name)
    elif kind == 'par':
        q.obj = m.createParameter(short, u, spec['desc'], spec['value'])
    else:
        q.obj = m.createConstant(short, u, spec['desc'], spec['value'])
    if spec['set'] is not None:
        q.obj.setValue(spec['set'])
        q.value, q.specified = spec['set'], True
    ref.objs[kind][q.name] = q
    return q


def rnd_spec(rng, kind, dims):
    b = (None, None)
    if kind == 'var' and rng.random() < .5:
        b = (rng.choice([None, 0, 0., -3.5]), rng.choice([None, 10., 7]))
    return {'dim': rng.choice(dims), 'value': X.rnd_value(rng), 'desc': rng.choice(['', 'a description', 'd']), 'bounds': b,
            'exposed': rng.choice(['', '', 'input', 'output']) if kind == 'var' else '',
            'set': X.rnd_value(rng) if kind != 'var' and rng.random() < .5 or rng.random() < .1 else None}


def rnd_eq(c, pool, dims):
    e = X.rnd_expr(c.rng, pool, c.rng.randint(1, 3))
    if e is None:
        return None
    f = X.rnd_expr(c.rng, pool, c.rng.randint(0, 2), want=X.dim(e))
    return (e, f if f is not None and c.rng.random() < .7 else None)


def build(e, f):
    n = X.realise(e)
    return n if f is None else n == X.realise(f)


def names_of(e, f):
    return {q.name for q in X.leaves(e)} | ({q.name for q in X.leaves(f)} if f is not None else set())


def case(c):
    from sloth.model import Model
    rng = c.rng
    dims = [X.ZERO, X.ZERO, X.rnd_dim(rng)]
    refs = []
    for mn in rng.sample(MNAMES, rng.randint(1, 3)):
        refs.append(RefModel(Model(mn), mn))
        check_registry(c, refs[-1], 'new model')
    outside = X.standalone([X.Qty(n, k, rng.choice(dims), rng.choice([2., 0, 0.]), rng.random() < .3)
                            for n, k in zip(rng.sample(SHORT, 3), ('var', 'par', 'con'))])
    # a model of the same name as another, declared apart: its objects are no more declared in the first than any other's
    twin = RefModel(Model(refs[0].name), refs[0].name)
    for s in rng.sample(SHORT, 2):
        declare(c, twin, rng.choice(['var', 'par', 'con']), s, rnd_spec(rng, 'con', dims))
    ne = 0
    for step in range(rng.randint(5, 16)):
        ref = rng.choice(refs)
        op = rng.choice(['object', 'object', 'object', 'equation', 'equation', 'undeclared', 'undeclared', 'unchecked'])
        pool = ref.pool()
        if op == 'object' or not pool:
            kind = rng.choice(['var', 'var', 'par', 'con'])
            free = [s for s in SHORT if all('%s_%s' % (s, ref.name) not in r for r in ref.objs.values())]
            if not free:
                continue
            short = rng.choice(free)
            spec = rnd_spec(rng, kind, dims)
            if pool and rng.random() < .12:
                # the same name again, other unit, value and description
                old = rng.choice(pool)
                kind, short = old.kind, old.name[:-1 - len(ref.name)]
                spec = rnd_spec(rng, kind, dims)
                spec['exposed'] = ([s for s in ref.exposed if old.name in ref.exposed[s]] or [''])[0]
                c.event('declared again otherwise')
            with c.accepted('creating %s %s in %s' % (kind, short, ref.name)):
                declare(c, ref, kind, short, spec)
            what = 'creating %s %s' % (kind, short)
        elif op in ('equation', 'unchecked'):
            other = [q for r in refs if r is not ref for q in r.pool()] + outside if op == 'unchecked' else []
            ef = rnd_eq(c, pool + other, dims)
            if ef is None:
                continue
            ne += 1
            en = rng.choice(['eq%d', 'x%d', 'e_%d', 'bal_%d_M1']) % ne
            what = 'equation %s: %s' % (en, X.show(ef[0]))
            with c.accepted(what):
                kw = {'check_equation': False} if op == 'unchecked' else {}
                eq = ref.m.createEquation(en, 'desc %d' % ne, build(*ef), **kw)
            ref.eqs['%s_%s' % (en, ref.name)] = (eq, names_of(*ef), 'desc %d' % ne)
        else:
            mine = set().union(*[set(r) for r in ref.objs.values()])
            other = [q for r in refs if r is not ref for q in r.pool()] + outside + (twin.pool() if ref is refs[0] else [])
            other = [q for q in other if q.name not in mine]
            if not other:
                continue
            bad = rng.choice(other)
            ef = rnd_eq(c, pool, dims) or (('q', rng.choice(pool)), None)
            e, f = ef
            # the stranger appears once, at any place, specified or not
            place = rng.choice(['factor', 'function', 'right', 'alone', 'first'])
            w = ('q', bad)
            if place == 'factor':
                e, f = ('bin', '*', e, w), None
            elif place == 'first':
                e, f = ('bin', '/', w, ('bin', '*', w, e)), None
            elif place == 'function':
                e, f = ('bin', '*', e, ('fn', 'Sin', ('bin', '/', w, w))), None
                if not X.static_ok(e):
                    continue
            elif place == 'right':
                d = bad.dim
                mineq = [q for q in pool if q.dim == d]
                if not mineq:
                    continue
                e, f = ('q', rng.choice(mineq)), w
            else:
                e, f = w, None
            if not X.static_ok(e):
                continue
            what = 'undeclared %s in %s: %s' % (bad.name, ref.name, X.show(e))
            en = 'bad%d' % step
            if ref.eqs and rng.random() < .3:
                # under the name of an equation that is there
                en = rng.choice(sorted(ref.eqs))[:-1 - len(ref.name)]
                c.event('undeclared under a name in use')
            c.rejects(what, lambda: ref.m.createEquation(en, '', build(e, f)), ['UnexpectedObjectDeclarationError'])
            c.event('undeclared ' + ('specified' if bad.specified else 'unspecified'))
            if bad.value == 0:
                c.event('undeclared of value zero')
            if bad in twin.pool():
                c.event('undeclared of a model of the same name')
        c.event(op)
        c.note(ref.name, what)
        for r in refs:
            check_registry(c, r, what)
    c.key(c.log)


class Interrupted(Exception):
    pass


def redeclared(c):
    """Models written as classes, declared several times, alone and through problems."""
    from sloth.problem import Problem
    for k in range(40):
        rng = c.rng
        dims = [X.ZERO, X.rnd_dim(rng)]
        refs = [classmodel(c, mn, dims) for mn in rng.sample(MNAMES, rng.randint(1, 3))]
        for ref in refs:
            if rng.random() < .2:
                ref.left = rng.randint(0, 5)
                try:
                    ref.m()
                except Interrupted:
                    c.event('first declarations that failed')
                ref.left = None
            ref.m()
            check_registry(c, ref, 'first declaration')
        for t in range(3):
            ref = rng.choice(refs)
            if rng.random() < .4:
                # a declaration that ends by an error at some object
                ref.left = rng.randint(0, 8)
                try:
                    ref.m()
                except Interrupted:
                    c.event('declarations that failed')
                ref.left = None
            ref.m()
            for r in refs:
                check_registry(c, r, 'declaring %s again' % ref.name)
            c.event('redeclared')
        p = Problem('P')
        p.addModels([r.m for r in refs])
        if all(r.eqs for r in refs):
            for t in range(2):
                p.resolve()
                for r in refs:
                    check_registry(c, r, 'resolving a problem')
    c.note('40 sets of models declared again')


def long_equations(c):
    """Equations of many objects, one of them undeclared, at any place; and without it."""
    from sloth.model import Model
    rng = c.rng
    for n in (8, 13, 30, 70):
        a, b = RefModel(Model('A'), 'A'), RefModel(Model('B'), 'B')
        for k in range(n):
            declare(c, a, rng.choice(['var', 'par', 'con']), 'x%d' % k, rnd_spec(rng, 'con', [X.ZERO]))
        for k in range(3):
            declare(c, b, ('var', 'par', 'con')[k], 'z%d' % k, rnd_spec(rng, 'con', [X.ZERO]))
        for t, at in enumerate((0, n // 2, n - 1, n)):
            qs = a.pool()
            rng.shuffle(qs)
            good = X.realise(summed(qs))
            eq = a.m.createEquation('e%d' % t, 'd', good)
            a.eqs['e%d_A' % t] = (eq, {q.name for q in qs}, 'd')
            check_registry(c, a, 'equation of %d objects' % n)
            bad = rng.choice(b.pool())
            qs = qs[:at] + [bad] + qs[at:]
            c.rejects('undeclared %s at place %d of %d objects' % (bad.name, at, n + 1),
                      lambda: a.m.createEquation('bad%d' % t, '', X.realise(summed(qs))), ['UnexpectedObjectDeclarationError'])
            check_registry(c, a, 'refused equation of %d objects' % n)
            c.event('undeclared among many')
    c.note('equations of up to 70 objects')


def summed(qs):
    e = ('q', qs[0])
    for q in qs[1:]:
        e = ('bin', '+', e, ('q', q))
    return e


def classmodel(c, mn, dims):
    from sloth.model import Model
    rng = c.rng
    plan = {k: [(s, rnd_spec(rng, k, dims)) for s in names] for k, names in
            zip(('con', 'par', 'var'), split(rng, SHORT))}
    ref = RefModel(None, mn)
    eqplan = []

    class M(Model):
        def DeclareConstants(self):
            for s, sp in plan['con']:
                setattr(self, 'c_' + s, declare(c, ref, 'con', s, sp).obj)

        def DeclareParameters(self):
            for s, sp in plan['par']:
                setattr(self, 'p_' + s, declare(c, ref, 'par', s, sp).obj)

        def DeclareVariables(self):
            for s, sp in plan['var']:
                setattr(self, 'v_' + s, declare(c, ref, 'var', s, sp).obj)

        def DeclareEquations(self):
            if not eqplan:
                for i in range(rng.randint(1, 4)):
                    eqplan.append(('eq%d' % i, rng.random(), rng.sample([q.name for q in ref.pool()], min(3, len(ref.pool())))))
            byname = {q.name: q for q in ref.pool()}
            for en, r, names in eqplan:
                e = ('q', byname[names[0]])
                for n in names[1:]:
                    e = ('bin', '*' if r < .5 else '/', e, ('bin', '*', ('q', byname[n]), ('num', 2)))
                if not X.static_ok(e):
                    e = ('q', byname[names[0]])
                    names = names[:1]
                eq = self.createEquation(en, 'd', X.realise(e))
                ref.eqs['%s_%s' % (en, mn)] = (eq, set(names), 'd')

    ref.m = M(mn)
    return ref


def split(rng, names):
    names = rng.sample(names, rng.randint(4, 10))
    a, b = sorted(rng.sample(range(1, len(names)), 2))
    return names[:a], names[a:b], names[b:]


CHECK = Check('C06', case, quick=1200, thorough=20000, directed=[redeclared, long_equations],
              need=['declarations that failed', 'first declarations that failed', 'undeclared among many', 'undeclared under a name in use', 'undeclared of value zero', 'undeclared of a model of the same name', 'declared again otherwise', 'object', 'equation', 'unchecked', 'undeclared specified', 'undeclared unspecified', 'redeclared'],
              rule='random histories of 5-16 declarations over 1-3 models whose names and objects contain each other, with '
                   'objects of other models and of none; distinct by the history')
