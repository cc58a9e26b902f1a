"""C24: streams and what they feed, against a reference state, with property packages that record their evaluations."""
from harness import systems as S
from harness.core import Check, close, interrupted

STREAMS = ['HomogeneousMaterialStream', 'MaterialStream', 'MultiphasicMaterialStream']


class Phase:
    """A species that records where it is evaluated."""

    def __init__(self, MW):
        self.MW = MW
        self.calls = []
        self.T, self.P, self.rho, self.Cp = 298.15, 101325, 900., 4000.

    def calculate(self, T=None, P=None):
        self.calls.append((T, P))
        self.T, self.P = T, P


def package(rng, names=None, MW=None):
    from sloth.core.property_package import PropertyPackage
    pp = PropertyPackage(0, [])
    names = names or rng.sample(['water', 'toluene', 'f1', 'air'], rng.choice([1, 1, 2, 3]))
    MW = MW or rng.choice([18.015, 92.14, 2, 28.97, round(rng.uniform(2, 200), 4)])
    pp.number_of_phases = len(names)
    pp.phase_names = list(names)
    pp.phases = {n: Phase(MW) for n in names}
    return pp


class Ref:
    def __init__(self, s, pp):
        self.s, self.pp = s, pp
        self.v = {k: None for k in ('mdot', 'ndot', 'T', 'P', 'H')}
        self.declared = False

    def set(self, k, v):
        getattr(self.s, k).setValue(v)
        self.v[k] = v

    def declare(self, c):
        before = {n: (ph.T, ph.P) for n, ph in self.pp.phases.items()} if self.pp else {}
        self.s()
        if self.pp is None:
            c.event('without a package')
            return
        MW = list(self.pp.phases.values())[0].MW * 1e-3
        m, n = self.v['mdot'], self.v['ndot']
        if m is not None and n is None:
            self.v['ndot'] = m / MW
            c.event('mole flow from mass flow')
        elif n is not None and m is None:
            self.v['mdot'] = n * MW
            c.event('mass flow from mole flow')
        elif n is not None:
            c.event('both flows kept')
        else:
            c.event('no flow')
        T, P = self.v['T'], self.v['P']
        for name, ph in self.pp.phases.items():
            if T is None and P is None:
                c.ok((ph.T, ph.P) == before[name], 'neither T nor P is specified: the package was evaluated', calls=ph.calls[-3:])
                c.event('not evaluated')
            else:
                want = (298.15 if T is None else T, 101325 if P is None else P)
                c.ok(close(ph.T, want[0], 1e-12) and close(ph.P, want[1], 1e-12),
                     'the package (%s) is not at the T=%s and P=%s specified' % (name, T, P), calls=ph.calls[-3:],
                     before=before[name], expected=want)
                if before[name] != want and want == (298.15, 101325):
                    c.event('back to the defaults')
                c.event('evaluated at ' + ('T' if T is not None else '') + ('P' if P is not None else ''))

    def check(self, c, what):
        for k, v in self.v.items():
            q = getattr(self.s, k)
            c.ok(bool(q.is_specified) == (v is not None), '%s: %s of %s %s' % (
                what, k, self.s.name, 'is not specified' if v is not None else 'is specified'))
            if v is not None:
                c.ok(close(q.value, v, 1e-12, 0), '%s: %s of %s' % (what, k, self.s.name), got=q.value, expected=v)
            c.ok(self.s.parameters['%s_%s' % (k, self.s.name)] is q, '%s: %s is the parameter of the stream' % (what, k))
        m, n = self.s.mdot, self.s.ndot
        c.ok(m.units._check_dimensional_coherence(m.units), 'unit')


def stream(rng, name, pp, classes=STREAMS):
    import sloth.unit_op_library as L
    from sloth.core.template_units import kg  # noqa: F401
    cls = rng.choice([k for k in classes if pp is not None or k != 'MultiphasicMaterialStream'])
    if rng.random() < .5:
        class User(getattr(L, cls)):
            pass
        return Ref(User(name, property_package=pp), pp), cls
    return Ref(getattr(L, cls)(name, property_package=pp), pp), cls


def number(rng, k):
    lo, hi = {'mdot': (.01, 500), 'ndot': (.1, 4000), 'T': (200, 600), 'P': (5e4, 5e6), 'H': (-1e4, 1e4)}[k]
    if k in ('mdot', 'ndot') and rng.random() < .2:
        return rng.choice([0., 0, -rng.uniform(lo, hi), -int(hi)])  # closed, or flowing back
    if rng.random() < .3 and k in 'TP':
        return {'T': 298.15, 'P': rng.choice([101325, 101325.])}[k]  # the defaults
    v = rng.uniform(lo, hi)
    return rng.choice([v, round(v, 2), int(v) or 1, float(int(v) or 1)])


def case(c):
    rng = c.rng
    shared = package(rng)
    refs = []
    for i in range(rng.randint(1, 4)):
        pp = shared if rng.random() < .4 else package(rng)
        if rng.random() < .08:
            pp = None
        r, cls = stream(rng, rng.choice(['S%d', 'in_%d', 'HMS%d']) % i, pp)
        refs.append(r)
        c.note('%s %s with %s' % (cls, r.s.name, pp and pp.phase_names))
    for step in range(rng.randint(3, 12)):
        r = rng.choice(refs)
        act = rng.choice(['set', 'set', 'declare', 'declare', 'set and declare'])
        if act != 'declare':
            k = rng.choice(list(r.v))
            v = number(rng, k)
            if k in ('mdot', 'ndot') and r.pp is not None and rng.random() < .3:
                # close to what the other flow says
                MW = list(r.pp.phases.values())[0].MW * 1e-3
                if r.v['mdot' if k == 'ndot' else 'ndot']:
                    o = r.v['mdot'] / MW if k == 'ndot' else r.v['ndot'] * MW
                    v = o * (1 + rng.choice([1e-3, -1e-3, 1e-5, 5e-3, -.02]))
                    c.event('almost the same flows')
            r.set(k, v)
            c.note('%s.%s = %r' % (r.s.name, k, v))
        if act != 'set':
            c.note('declare %s' % r.s.name)
            if rng.random() < .2:
                # a declaration that fails, to be made again
                with interrupted(int(10 ** rng.uniform(0, 2))) as state:
                    r.s()
                c.note('interrupted at', state.get('where'))
                c.event('interrupted declarations', int(state['raised']))
            r.declare(c)
        for o in refs:
            o.check(c, act)
    # all of them declared by a problem
    if rng.random() < .4:
        from sloth.problem import Problem
        p = Problem('p')
        p.addModels([r.s for r in refs])
        for r in refs:
            r.declare(c)
        p.resolve()
        for r in refs:
            r.check(c, 'declared by a problem')
        c.event('declared by a problem')
    # a unit fed by them
    feeds(c, rng, rng.randint(1, 4) if rng.random() < .85 else rng.randint(5, 24))
    c.key(c.log)


def feeds(c, rng, n):
    import sloth.unit_op_library as L
    from sloth.model import Model
    from sloth.problem import Problem
    refs = []
    for i in range(n):
        pp = package(rng)
        r, _ = stream(rng, 'F%d' % i, pp)
        for k in ('mdot', 'T', 'P'):
            r.set(k, number(rng, k))
        if i and rng.random() < .15:
            r.set('T', refs[0].v['T'])
        if i and rng.random() < .3:
            # close to another
            r.set('T', refs[0].v['T'] + rng.choice([.4, -.4, .03, -.03, 1e-4]))
            r.set('P', refs[0].v['P'] + rng.choice([.4, -.4, 30., -30.]))
            c.event('fed by close streams')
        r.declare(c)
        refs.append(r)
    cls = rng.choice([Model, Model, L.Mixer])
    u = cls('U') if cls is Model else cls('U', property_package=package(rng, ['f1']))
    ins = [r.s for r in refs]
    order = list(range(n))
    rng.shuffle(order)
    r = rng.random()
    if r < .5 or n == 1 and r < .8:
        u._setInlets([ins[k] for k in order] if n > 1 or rng.random() < .5 else ins[0])
    elif r < .75:
        for k in order:
            u._setInlets(ins[k], 'in%d' % k)
    else:
        u._setInlets([ins[k] for k in order[:n // 2]])
        u._setInlets([ins[k] for k in order[n // 2:]])
    T, P = min(r.v['T'] for r in refs), min(r.v['P'] for r in refs)
    c.note('%s fed by T=%s P=%s' % (cls.__name__, [refs[k].v['T'] for k in order], [refs[k].v['P'] for k in order]))
    u()
    values = {'T_in_U': float(T), 'P_in_U': float(P)}
    fed = {}
    for q, v in (('T_in', T), ('P_in', P)):
        eqs = [e for e in u.equations.values() if '%s_U' % q in e.objects_declared and not any(
            o.startswith(('mdot', 'ndot', 'H', q.replace('in', 'out'))) for o in e.objects_declared)]
        c.ok(len(eqs) > 0, 'no equation gives %s of the unit fed' % q, equations=list(u.equations))
        for e in eqs:
            at = {n_: float(values.get(n_, o.value)) for n_, o in e.objects_declared.items()}
            c.ok(close(e.eval(at), 0, 0, 1e-9 * abs(v)), '%s of the unit is not the lowest of the streams' % q,
                 residual=float(e.eval(at)), lowest=v)
            for d in (.5, -.5, 40.):
                at['%s_U' % q] = v + d
                c.ok(abs(float(e.eval(at))) > 1e-3, '%s of the unit is not fixed by the streams' % q)
        fed[q] = eqs
    c.event('units fed')
    c.event('fed by %d' % n)
    if cls is Model:
        p = Problem('p')
        ms = [u] + ins
        rng.shuffle(ms)
        p.addModels(ms)
        p.resolve()
        got = S.simulate(p, sanity=False, linear_solver='sympy', nonlinear_solver='sympy').getResults('dict')
        c.ok(close(got['T_in_U'], T, 1e-9) and close(got['P_in_U'], P, 1e-9), 'T_in and P_in solved', got=got, expected=[T, P])
        c.event('solved')


def shared_states(c):
    """A package left in any state by others, then a stream with any of T and P specified, at the defaults or elsewhere."""
    rng = c.rng
    import sloth.unit_op_library as L
    states = [(298.15, 101325), (298.15, 3e5), (411.5, 101325), (345.25, 2.5e5)]
    for cls in STREAMS:
        for known in ('', 'T', 'P', 'TP'):
            for before in states:
                for want in states:
                    pp = package(rng)
                    if rng.random() < .5:
                        # what the package itself was told
                        pp.set_T(float(before[0]))
                        pp.set_P(float(before[1]))
                        c.event('packages told T and P')
                    r = Ref(getattr(L, cls)('S', property_package=pp), pp)
                    o = Ref(getattr(L, rng.choice(STREAMS))('O', property_package=pp), pp)
                    o.set('T', before[0])
                    o.set('P', before[1])
                    o.declare(c)
                    if rng.random() < .5:
                        r.set('mdot', 5.)
                    if 'T' in known:
                        r.set('T', want[0])
                    if 'P' in known:
                        r.set('P', want[1])
                    for _ in range(rng.randint(1, 2)):
                        r.declare(c)
                        r.check(c, 'after another stream')
                    o.declare(c)
                    r.check(c, 'after the other again')
                    r.declare(c)
                    c.event('states of a shared package')
    c.note('states of a shared package')


def real(c):
    """The property package of the library."""
    from sloth.core.property_package import PropertyPackage
    from sloth.problem import Problem  # noqa: F401
    import sloth.unit_op_library as L
    for cls in STREAMS:
        pp = PropertyPackage(1, ['water'])
        s = getattr(L, cls)('S', property_package=pp)
        s.mdot.setValue(36.)
        s()
        c.ok(close(s.ndot.value, 36. / (pp['*'].MW * 1e-3)) and close(s.ndot.value, 36 / .018015, 1e-3), 'mole flow of water',
             got=s.ndot.value)
        c.ok(close(pp['water'].T, 298.15) and close(pp['water'].P, 101325), 'nothing specified: the package stays')
        s.T.setValue(350.)
        s()
        c.ok(close(pp['water'].T, 350.) and close(pp['water'].P, 101325), 'T specified', got=[pp['water'].T, pp['water'].P])
        s.P.setValue(3e5)
        s()
        c.ok(close(pp['water'].T, 350.) and close(pp['water'].P, 3e5), 'T and P specified', got=[pp['water'].T, pp['water'].P])
        s2 = getattr(L, cls)('S2', property_package=pp)
        s2.P.setValue(2e5)
        s2.ndot.setValue(100.)
        s2()
        c.ok(close(pp['water'].T, 298.15) and close(pp['water'].P, 2e5), 'P specified', got=[pp['water'].T, pp['water'].P])
        c.ok(close(s2.mdot.value, 100. * pp['*'].MW * 1e-3), 'mass flow of water')
        c.event('real packages')
    c.note('water')


CHECK = Check('C24', case, 500, 20000,
              'random histories of specifying and declaring 1-4 streams of the three kinds, with own or shared property packages '
              'that record their evaluations, then a unit fed by 1-4 streams; distinct by history',
              directed=[real, shared_states],
              need=['interrupted declarations', 'without a package', 'fed by close streams', 'almost the same flows', 'back to the defaults', 'states of a shared package', 'mole flow from mass flow', 'mass flow from mole flow', 'both flows kept', 'no flow', 'not evaluated',
                    'evaluated at T', 'evaluated at P', 'evaluated at TP', 'units fed', 'solved', 'real packages',
                    'declared by a problem'])
