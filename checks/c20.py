"""C20: flowsheets of the library's unit operations. Each solved flowsheet is compared, at every port of every unit, with a
forward propagation of the conditions; the equations of each unit are also evaluated at states that satisfy the balances
and at states that break one of them."""
from harness import systems as S
from harness.core import Check, Skip, close
from checks.c24 import package

PORTS = ['mdot', 'ndot', 'T', 'P', 'H']
KINDS = ['Mixer', 'Splitter', 'Valve', 'SimplePump', 'Heater', 'Cooler']
PARAMS = {'Valve': ['Delta_P', 'perc_open'], 'SimplePump': ['Delta_P'], 'Heater': ['Q', 'Delta_P'], 'Cooler': ['Q', 'Delta_P']}


class Unit:
    def __init__(self, rng, i, pp, kind=None):
        import sloth.unit_op_library as L
        self.kind = kind or rng.choice(KINDS)
        self.name = rng.choice(['U%d', 'unit_%d', 'HX%d', 'E10%d']) % i
        cls = getattr(L, self.kind)
        ph = list(pp.phases.values())[-1]
        self.rho, self.Cp = ph.rho, ph.Cp
        if self.kind == 'Valve' and rng.random() < .5:
            # the package comes to its conditions after the valve was created
            for x in pp.phases.values():
                x.rho = self.rho * rng.choice([.5, 1.3])
        if rng.random() < .4:
            base = cls

            class cls(base):
                def __init__(self, name, description, property_package):
                    super().__init__(name, description, property_package)
            self.model = cls(self.name, 'user defined', pp)
        else:
            self.model = cls(self.name, property_package=pp) if self.kind not in ('Mixer', 'Splitter') or len(pp.phases) > 1 or rng.random() < .7 else cls(self.name)
        self.pp = pp
        for x in pp.phases.values():
            x.rho = self.rho
        self.par = {}
        for p in PARAMS.get(self.kind, []):
            self.par[p] = {'Delta_P': rng.choice([round(rng.uniform(100, 3e4), 1), 0., 5000, -round(rng.uniform(100, 3e4), 1)]),
                           'perc_open': rng.choice([round(rng.uniform(.05, 1), 3), 1, .5, rng.choice([0, 0.])]),
                           'Q': rng.choice([round(rng.uniform(10, 4e4), 1), 3600., 0]) * (-1 if self.kind == 'Cooler' and rng.random() < .8 else 1)}[p]
            getattr(self.model, p).setValue(self.par[p])
        self.state = {}

    def forward(self, s):
        """The conditions out, from the conditions in."""
        o = dict(s)
        if self.kind in ('Valve', 'Heater', 'Cooler'):
            o['P'] = s['P'] - self.par['Delta_P']
        if self.kind == 'SimplePump':
            o['P'] = s['P'] + self.par['Delta_P']
        if self.kind in ('Heater', 'Cooler'):
            o['H'] = s['H'] + self.par['Q'] / s['ndot']
            o['T'] = s['T'] + self.par['Q'] / (s['mdot'] * self.Cp)
        self.state = {'%s_in_%s' % (k, self.name): s[k] for k in PORTS}
        self.state.update({'%s_out_%s' % (k, self.name): o[k] for k in PORTS})
        if self.kind == 'Valve':
            self.state['Qdot_out_' + self.name] = self.par['perc_open'] * s['mdot'] / self.rho
        self.out = o
        return o

    def residuals(self, x):
        """Balances, each scaled; x maps the names of the variables to values."""
        g = lambda n: float(x['%s_%s' % (n, self.name)])  # noqa: E731
        dP = {'Valve': -1, 'Heater': -1, 'Cooler': -1, 'SimplePump': 1}.get(self.kind, 0) * self.par.get('Delta_P', 0)
        r = {'mass': (g('mdot_out') - g('mdot_in')) / 1., 'moles': (g('ndot_out') - g('ndot_in')) / 1.,
             'energy': (g('ndot_out') * g('H_out') - g('ndot_in') * g('H_in') - self.par.get('Q', 0)) / max(1., abs(g('ndot_in') * g('H_in'))),
             'pressure': (g('P_out') - g('P_in') - dP) / abs(g('P_in')),
             'temperature': (g('T_out') - g('T_in') - self.par.get('Q', 0) / (g('mdot_in') * self.Cp)) / g('T_in')}
        if self.kind == 'Valve':
            r['volume'] = g('Qdot_out') * self.rho / g('mdot_in') - self.par['perc_open']
        return r

    def show(self):
        return '%s %s %s rho=%s Cp=%s' % (self.kind, self.name, self.par, self.rho, self.Cp)


def conditions(rng, MW):
    """In the range where the solver is well scaled."""
    ndot = round(rng.uniform(.5, 40), 3)
    return {'ndot': ndot, 'mdot': ndot * MW * 1e-3, 'T': round(rng.uniform(260, 500), 2),
            'P': round(rng.uniform(1e5, 9e5), 1), 'H': round(rng.uniform(200, 9000) * rng.choice([1, 1, -1]), 2)}


def mk_package(rng, names=None, MW=None):
    names = names or [rng.choice(['water', 'toluene', 'f1'])]
    pp = package(rng, names, MW)
    if len(names) > 1 and rng.random() < .5:
        pp = package(rng, names[:1], MW)
        for n in names[1:]:
            pp = pp + package(rng, [n], MW)
    rho, Cp = rng.choice([1000., 867, round(rng.uniform(1, 1500), 2)]), rng.choice([4184., 2000, round(rng.uniform(800, 4200), 1)])
    for ph in pp.phases.values():
        ph.rho, ph.Cp = rho, Cp
    return pp


class Sheet:
    """A tree of units: sources, chains, junctions and splits."""

    def __init__(self, rng):
        import sloth.unit_op_library as L
        self.rng, self.units, self.joins, self.streams, self.direct = rng, [], [], [], []
        MW = rng.choice([18.015, 92.14, round(rng.uniform(2, 200), 3)])
        own = rng.random() < .5
        pp = mk_package(rng, MW=MW)
        n = rng.randint(1, 5)
        open_ = []  # (unit, fraction of its outlet still free)
        for i in range(n):
            u = Unit(rng, i, mk_package(rng, MW=MW) if own else pp)
            if open_ and rng.random() < .75:
                k = 2 if len(open_) > 1 and rng.random() < .4 else 1
                src = rng.sample(open_, k)
                takes = []
                for s in src:
                    f = 1. if rng.random() < .6 else round(rng.uniform(.2, .7), 2)
                    takes.append((s[0], f * s[1]))
                    open_.remove(s)
                    if f < 1:
                        open_.append((s[0], (1 - f) * s[1]))
                s = {q: sum(t.out[q] * f for t, f in takes) for q in ('mdot', 'ndot')}
                s['H'] = sum(t.out['ndot'] * f * t.out['H'] for t, f in takes) / s['ndot']
                for q in 'TP':
                    s[q] = min(t.out[q] for t, f in takes)
                self.joins.append(('units', takes, u))
            elif u.kind in ('Mixer', 'Splitter') or rng.random() < .65:
                ss = []
                for j in range(rng.choice([1, 1, 2, 3])):
                    x = conditions(rng, MW)
                    name = rng.choice(['S%d_%d', 'in%d_%d']) % (i, j)
                    st = getattr(L, rng.choice(['HomogeneousMaterialStream', 'MaterialStream']))(name, property_package=u.pp if rng.random() < .5 else mk_package(rng, MW=MW))
                    for q in PORTS:
                        if q == 'ndot' and rng.random() < .6:
                            continue
                        st.parameters['%s_%s' % (q, name)].setValue(x[q])
                    ss.append((st, x))
                    self.streams.append(st)
                s = {q: sum(x[q] for _, x in ss) for q in ('mdot', 'ndot')}
                s['H'] = sum(x['ndot'] * x['H'] for _, x in ss) / s['ndot']
                for q in 'TP':
                    s[q] = min(x[q] for _, x in ss)
                self.joins.append(('streams', ss, u))
            else:
                s = conditions(rng, MW)
                # the conditions may be given at the other end
                ends = {q: rng.choice(['in', 'in', 'out']) if q != 'H' else 'in' for q in PORTS}
                self.direct.append((u, ends))
            u.forward(s)
            if min(u.state['P_in_' + u.name], u.state['P_out_' + u.name]) < 1e4 or not 100 < u.out['T'] < 1500:
                raise Skip('out of range')
            self.units.append(u)
            open_.append((u, 1.))

    def build(self, c):
        from sloth.problem import Problem
        from sloth.core.equation_operators import Min
        rng = self.rng
        given = {}
        for u, ends in self.direct:
            for q, e in ends.items():
                n = '%s_%s_%s' % (q, e, u.name)
                u.model.variables[n].setValue(u.state[n])
                given[n] = u.state[n]
                c.event('given at the ' + e + 'let')
        for u in self.units:
            for _ in range(rng.choice([1, 1, 1, 2])):
                u.model()
        for s in self.streams:
            s()
        p = Problem('sheet')
        ms = [u.model for u in self.units] + self.streams
        rng.shuffle(ms)
        if rng.random() < .5:
            p.addModels(ms)
        else:
            for m in ms:
                p.addModels(m)
        for kind, src, u in self.joins:
            m = u.model
            if kind == 'units' and len(src) == 1 and src[0][1] == 1.:
                for q in PORTS:
                    a, b = getattr(src[0][0].model, q + '_out'), getattr(m, q + '_in')
                    if q != 'H' or rng.random() < .5:
                        if rng.random() < .5:
                            p.createConnection(src[0][0].model, m, a, b)
                        else:
                            p.createConnection(src[0][0].model, m, [a], [b])
                    else:
                        p.createConnection('energy', m, m.ndot_out() * b(), m.ndot_out() * a())
                c.event('chained')
                continue
            g = (lambda q: [getattr(s, q)() for s, _ in src]) if kind == 'streams' else (
                lambda q: [getattr(s.model, q + '_out')() for s, _ in src])
            w = [1.] * len(src) if kind == 'streams' else [f for _, f in src]

            def total(xs):
                t = None
                for x, f in zip(xs, w):
                    x = x if f == 1. else x * f
                    t = x if t is None else t + x
                return t
            for q in 'TP':
                xs = g(q)
                p.createConnection('', m, Min(*xs) if len(xs) > 1 or kind == 'streams' and rng.random() < .3 else xs[0], getattr(m, q + '_in')())
            for q in ('mdot', 'ndot'):
                p.createConnection('', m, total(g(q)), getattr(m, q + '_in')())
            p.createConnection('', m, total([n * h for n, h in zip(g('ndot'), g('H'))]), m.ndot_in() * m.H_in())
            c.event('junction of %d %s' % (len(src), kind))
        self.problem, self.given = p, given
        return p


def case(c):
    rng = c.rng
    sh = Sheet(rng)
    for u in sh.units:
        c.note(u.show(), '->', {k: v for k, v in u.state.items()})
    for kind, src, u in sh.joins:
        c.note('%s <- %s %s' % (u.name, kind, [(getattr(s, 'name', s), f if kind == 'units' else {k: v for k, v in f.items()}) for s, f in src]))
    c.note('given at: %s' % [(u.name, e) for u, e in sh.direct])
    with c.accepted('flowsheet'):
        p = sh.build(c)
        p.resolve()
        if rng.random() < .2:
            p.resolve()
    want = {}
    for u in sh.units:
        want.update(u.state)
    unknown = {k: v for k, v in want.items() if k not in sh.given}
    # an error of the guess of up to some percent
    d = rng.choice([0., 0., .001, .05])
    guess = {k: v * (1 + d * rng.uniform(-1, 1)) for k, v in unknown.items()}
    got = None
    try:
        sim = S.simulate(p, initial_guess=guess)
        got = dict(sim.getResults('dict'))
    except Exception as ex:
        what = '%s: %s' % (type(ex).__name__, ex)
        c.ok(d > .01 and 'onverge' in what, 'the well-posed flowsheet was not solved from the solution (error %s): %s' % (d, what))
        c.event('not converged')
    if got is not None:
        c.ok(set(got) == set(unknown), 'variables solved', got=sorted(got), expected=sorted(unknown))
        full = dict(got)
        full.update(sh.given)
        for u in sh.units:
            for k, r in u.residuals(full).items():
                c.ok(abs(r) < 1e-6, 'balance of %s broken in %s (%s)' % (k, u.name, u.kind), residual=r,
                     state={n: full[n] for n in u.state}, expected=u.state)
            c.event(u.kind + ' solved')
        for k, v in unknown.items():
            c.ok(close(got[k], v, 1e-6, 1e-9), 'value of %s' % k, got=float(got[k]), expected=v)
        c.event('solved')
        c.event('solved with %d units' % len(sh.units))
    equations(c, sh.units)
    c.key(c.log)


def evaluate(e, x):
    at = {}
    for n, o in e.objects_declared.items():
        at[n] = float(x[n]) if n in x else float(o.value)
    spec = [n for n, o in e.objects_declared.items() if o.is_specified is True]
    return float(e.eval({n: v for n, v in at.items() if n not in spec}))


def wild(c, u, eqs):
    """The balances hold the equations for flows and enthalpies of any magnitude too."""
    s = conditions(c.rng, 1e3 * u.state['mdot_in_' + u.name] / u.state['ndot_in_' + u.name])
    k, h = 10**c.rng.uniform(-2, 5), 10**c.rng.uniform(-1, 3)
    s.update(ndot=s['ndot'] * k, mdot=s['mdot'] * k, H=s['H'] * h, P=s['P'] * 10**c.rng.uniform(0, 3))
    kept = u.state, u.out
    u.forward(s)
    x = dict(u.state)
    u.state, u.out = kept
    if min(x['T_out_' + u.name], x['P_out_' + u.name]) <= 0:
        return
    for e in eqs:
        big = max(abs(x[n]) for n in e.objects_declared if n in x)
        if any(n.startswith('H_') for n in e.objects_declared):
            big *= max(abs(x[n]) for n in e.objects_declared if n.startswith('ndot'))
        r = evaluate(e, x)
        c.ok(abs(r) <= 1e-9 * big + 1e-300, 'equation %s of %s (%s) does not hold where the balances do' % (e.name, u.name, u.kind), residual=r, state=x)
    c.event('flows of any magnitude')


def equations(c, units):
    """A state satisfies all the equations of a unit if and only if the balances hold."""
    rng = c.rng
    for u in units:
        if any(v.is_specified is True for v in u.model.variables.values()):
            continue
        x = dict(u.state)
        names = sorted(x)
        eqs = [e for e in u.model.equations.values() if set(e.objects_declared) <= set(x) | set(u.model.parameters)]
        wild(c, u, eqs)
        scale = {}
        for e in eqs:
            big = max(abs(x[n]) for n in e.objects_declared if n in x)
            if any(n.startswith('H_') for n in e.objects_declared):
                big *= max(abs(x[n]) for n in e.objects_declared if n.startswith('ndot'))
            scale[e.name] = max(1e-30, big)
            r = evaluate(e, x)
            c.ok(abs(r) <= 1e-9 * scale[e.name] + 1e-300, 'equation %s of %s (%s) does not hold where the balances do' % (e.name, u.name, u.kind), residual=r, state=x)
        for _ in range(3):
            n = rng.choice(names)
            y = dict(x)
            y[n] = x[n] * rng.choice([1.1, .9, 1.01, 2])
            broken = max(abs(r) for r in u.residuals(y).values())
            if broken < 1e-4:
                continue
            seen = [e.name for e in eqs if abs(evaluate(e, y)) > 1e-7 * scale[e.name]]
            c.ok(bool(seen), 'the equations of %s (%s) hold although a balance is broken by %s' % (u.name, u.kind, n), state=y)
            c.event('broken balance seen')


def multiphase(c):
    """Mixers and pumps of several species keep the fractions."""
    from sloth.problem import Problem
    import sloth.unit_op_library as L
    rng = c.rng
    for round_ in range(12):
        names = rng.sample(['water', 'toluene', 'f1', 'air', 'f2'], rng.choice([2, 2, 3, 4]))
        pp = mk_package(rng, names, 20.)
        us = [Unit(rng, i, pp, rng.choice(['Mixer', 'Splitter', 'SimplePump'])) for i in range(rng.randint(1, 3))]
        x = conditions(rng, 20.)
        fr = {}
        for k in 'zw':
            f = [rng.uniform(.1, 1) for _ in names]
            fr[k] = {n: a / sum(f) for n, a in zip(names, f)}
        s = x
        for u in us:
            s = u.forward(s)
        st = L.MultiphasicMaterialStream('feed', property_package=pp)
        for q in PORTS:
            getattr(st, q).setValue(x[q])
        for k in 'zw':
            for n in names:
                getattr(st, '%s_%s' % (k, n)).setValue(fr[k][n])
        st()
        for v in us:
            v.model()
        p = Problem('multiphase')
        p.addModels([v.model for v in us] + [st])
        for a, b in zip([None] + us, us):
            for q in PORTS:
                if a is None:
                    p.createConnection('', b.model, getattr(st, q)(), getattr(b.model, q + '_in')())
                else:
                    p.createConnection(a.model, b.model, getattr(a.model, q + '_out'), getattr(b.model, q + '_in'))
            for k in 'zw':
                for n in (names if b.kind == 'SimplePump' else names[:-1]):
                    src = getattr(st, '%s_%s' % (k, n)) if a is None else getattr(a.model, '%s_%s_out' % (k, n))
                    p.createConnection('', b.model, src(), getattr(b.model, '%s_%s_in' % (k, n))())
        p.resolve()
        want = {}
        for v in us:
            want.update(v.state)
            for k in 'zw':
                for n in names:
                    for e in ('in', 'out'):
                        want['%s_%s_%s_%s' % (k, n, e, v.name)] = fr[k][n]
        unknown = want
        c.note([v.show() for v in us], names)
        got = dict(S.simulate(p, initial_guess={k: v * 1.001 for k, v in unknown.items()}).getResults('dict'))
        c.ok(set(got) == set(unknown), 'variables solved', got=sorted(got), expected=sorted(unknown))
        for k, v in unknown.items():
            c.ok(close(got[k], v, 1e-6, 1e-9), 'value of %s (several species)' % k, got=float(got[k]), expected=v)
        c.event('several species solved')


def real(c):
    """Water of the library's own property package."""
    from sloth.core.property_package import PropertyPackage
    from sloth.problem import Problem
    import sloth.unit_op_library as L
    pp = PropertyPackage(1, ['water'])
    st = L.HomogeneousMaterialStream('S', property_package=pp)
    for q, v in (('mdot', 1.8), ('T', 320.), ('P', 4e5), ('H', 500.)):
        getattr(st, q).setValue(v)
    st()
    h, v = L.Heater('HE', property_package=pp), L.Valve('VA', property_package=pp)
    h.Q.setValue(2e4)
    h.Delta_P.setValue(1e3)
    v.Delta_P.setValue(2e3)
    v.perc_open.setValue(.4)
    h()
    v()
    p = Problem('water')
    p.addModels([st, h, v])
    for q in PORTS:
        p.createConnection('', h, getattr(st, q)(), getattr(h, q + '_in')())
        p.createConnection(h, v, getattr(h, q + '_out'), getattr(v, q + '_in'))
    p.resolve()
    n = 1.8 / .01801528
    T = 320. + 2e4 / (1.8 * pp['water'].Cp)
    want = {'T_out_VA': T, 'P_out_VA': 3.97e5, 'mdot_out_VA': 1.8, 'ndot_out_VA': n, 'H_out_VA': 500. + 2e4 / n,
            'Qdot_out_VA': .4 * 1.8 / pp['water'].rho}
    guess = {k + x + m: {'T': 320., 'P': 4e5, 'H': 600., 'mdot': 1.8, 'ndot': 99.}[k] for k in PORTS
             for x in ('_in', '_out') for m in ('_HE', '_VA')}
    guess['Qdot_out_VA'] = 1e-3
    got = S.simulate(p, initial_guess=guess).getResults('dict')
    c.ok(4100 < pp['water'].Cp < 4300 and 900 < pp['water'].rho < 1010, 'properties of water')
    for k, w in want.items():
        c.ok(close(got[k], w, 1e-4), 'water: %s' % k, got=float(got[k]), expected=w)
    c.note('water heated and throttled')


CHECK = Check('C20', case, 400, 6000,
              'random flowsheets (trees of 1-5 mixers, splitters, valves, pumps, heaters and coolers with junctions and splits, '
              'fed by streams or by specified conditions) solved and compared port by port with a forward propagation; equations '
              'evaluated at balanced and broken states; distinct by flowsheet',
              directed=[multiphase, real],
              need=['solved', 'broken balance seen', 'several species solved', 'chained', 'given at the outlet'] + [k + ' solved' for k in KINDS],
              assumptions=['the density and heat capacity come from a stand-in for the species of the property package'])
