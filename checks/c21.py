"""C21: reports. The printed tables are parsed and compared with the generated models, row by row."""
import contextlib
import io

from harness import expr as X
from harness import systems as S
from harness.core import Check, interrupted
from checks.c05 import hostile, linear_expr, must_be_linear

HEAD = ['Equation name', 'Description', 'Representation', 'Variables', 'Parameters', 'Constants', 'Equation type']
DESC = ['', 'Mass balance', 'a (b) [c], d', 'Energy - balance = 0', 'eq. nº 1', 'x_M1 and y_M1', '100 %', 'linear', '(*)', '[a--->b]', '*', '[SI] (kg/s)', 'None', '0', '-']


def parse(text):
    """Rows of a table as lists of cells (None if there is no such table)."""
    rows = [l for l in text.split('\n') if l.startswith('|')]
    cells = [[x.strip() for x in l.strip().strip('|').split('|')] for l in rows]
    if not cells:
        return None, []
    return cells[0], cells[1:]


def names(cell):
    return [x for x in cell.split(', ') if x]


class Row:
    def __init__(self, name, desc, e, elementary=False):
        self.name, self.desc, self.e, self.elementary = name, desc, e, elementary

    def kind(self):
        if X.has_diff(self.e):
            return ['differential']
        return ['linear'] if must_be_linear(self.e) else ['linear', 'nonlinear']


def defined(rng, e):
    """The formula has a value somewhere (it is not log(u/u)**-1)."""
    for _ in range(8):
        try:
            X.value(e, {q.name: X.rnd_value(rng) for q in X.leaves(e) if not q.specified})
            return True
        except X.Domain:
            pass
    return False


def gen_model(rng, name):
    """A model with random objects and equations, declared in one of the usual ways, and its expected rows."""
    from sloth.model import Model
    from sloth.core.domain import Domain
    pool = X.rnd_pool(rng, rng.randint(2, 7), dims=[X.ZERO, X.ZERO, X.rnd_dim(rng)])
    time = None
    if rng.random() < .3:
        time = X.Qty('t', 'var', X.mkdim({'s': 1}), 0., False)
        pool = [q for q in pool if q.name != 't']
    for q in pool:
        if q.specified and q.kind != 'var' and rng.random() < .15:
            q.value = rng.choice([0., 0])
        if q.kind == 'var' and time is None and rng.random() < .15:
            q.specified = True          # (a known variable is still listed)
    rows = []
    for i in range(rng.choice([0, 1, 1, 2, 3, 5])):
        r = rng.random()
        e = None
        if r < .35:
            e = linear_expr(rng, pool, rng.randint(1, 4))
        elif r < .6:
            e = hostile(rng, pool)
        else:
            e = X.rnd_expr(rng, pool, rng.randint(1, 4), time=time)
        if e is None or not X.static_ok(e) or X.is_num(e) or not list(X.leaves(e)):
            continue
        try:
            X.dim(e)
        except (X.Incoherent, X.Domain):
            continue
        f = None
        if rng.random() < .5:
            f = linear_expr(rng, pool, rng.randint(0, 2), X.dim(e)) or X.rnd_expr(rng, pool, 1, want=X.dim(e))
        if f is not None and not X.static_ok(('bin', '-', e, f)):
            f = None
        if not X.has_diff(e) and not defined(rng, e if f is None else ('bin', '-', e, f)):
            continue
        row = Row('%s%d' % (rng.choice(['eq', 'balance_', 'e']), i), rng.choice(DESC), e if f is None else ('bin', '-', e, f),
                  f is not None and rng.random() < .5)
        row.sides = (e, f)
        rows.append(row)

    def objects(m, kinds):
        for q in ([time] if time is not None and 'var' in kinds else []) + [q for q in pool if q.kind in kinds]:
            make = {'var': m.createVariable, 'par': m.createParameter, 'con': m.createConstant}[q.kind]
            q.obj = make(q.name, X.unit(q.dim), 'desc')
            if q.specified:
                q.obj.setValue(q.value)
        if 'var' in kinds and time is not None:
            dom = Domain('dom', time.obj.units, time.obj, 'd')
            for q in pool:
                if q.kind == 'var':
                    q.obj.distributeOnDomain(dom)

    def equations(m):
        for row in rows:
            a, b = row.sides
            n = X.realise(a)
            if b is not None:
                b = X.realise(b)
                n = n == b if row.elementary else n - b
            m.createEquation(row.name, row.desc, n)
    style = rng.choice(['class', 'init', 'direct'])
    if style == 'class':
        class Gen(Model):
            def DeclareConstants(self):
                objects(self, ('con',))

            def DeclareParameters(self):
                objects(self, ('par',))

            def DeclareVariables(self):
                objects(self, ('var',))

            def DeclareEquations(self):
                equations(self)
        m = Gen(name, 'generated')
        for _ in range(rng.choice([1, 1, 2])):
            m()
    elif style == 'init':
        class Gen2(Model):
            def __init__(self, *a):
                super().__init__(*a)
                objects(self, ('con', 'par', 'var'))

            def DeclareEquations(self):
                equations(self)
        m = Gen2(name, 'generated')
        m()
    else:
        m = Model(name, 'generated')
        objects(m, ('con', 'par', 'var'))
        equations(m)
    m.rows_expected = rows
    m.pool_ = pool + ([time] if time is not None else [])
    return m


def qualified(m, q):
    return '%s_%s' % (q.name, m.name)


def judge(c, m, text, what):
    head, rows = parse(text)
    c.ok(head == HEAD, '%s: header' % what, got=head)
    want = list(m.rows_expected)
    c.ok(len(rows) == len(want), '%s: %d rows for %d equations' % (what, len(rows), len(want)), text=text)
    by = {}
    for r in rows:
        c.ok(len(r) == 7, '%s: malformed row' % what, row=r)
        c.ok(r[0] not in by, '%s: equation %s twice' % (what, r[0]))
        by[r[0]] = r
    for w in want:
        r = by.get('%s_%s' % (w.name, m.name))
        c.ok(r is not None, '%s: equation %s is missing' % (what, w.name), got=sorted(by))
        d = '%s, equation %s (%s)' % (what, w.name, X.show(w.e))
        c.ok(r[1] == w.desc.strip(), '%s: description' % d, got=r[1], expected=w.desc)
        c.ok(len(r[2]) > 0, '%s: representation' % d)
        ql = {q.name: q for q in X.leaves(w.e)}.values()
        for col, kind in ((3, 'var'), (4, 'par'), (5, 'con')):
            exp = sorted(qualified(m, q) + ('(*)' if kind != 'var' and q.obj.is_specified is True else '') for q in ql if q.kind == kind)
            c.ok(sorted(names(r[col])) == exp, '%s: %s' % (d, HEAD[col].lower()), got=names(r[col]), expected=exp)
            if exp:
                c.event('rows with ' + HEAD[col].lower())
            if any(q.kind == kind and kind != 'var' and q.specified and q.value == 0 for q in ql):
                c.event('specified as zero')
            if any(q.kind == 'var' and q.specified for q in ql):
                c.event('known variables')
            if any('(*)' in x for x in exp):
                c.event('specified marked')
            if any('(*)' not in x for x in exp) and kind == 'par':
                c.event('unspecified not marked')
        c.ok(r[6] in w.kind(), '%s: classified as %s' % (d, r[6]), expected=w.kind())
        c.ok(r[6] == m.equations['%s_%s' % (w.name, m.name)].type, '%s: classification of the equation and of the report differ' % d)
        c.event('rows ' + r[6])
    c.event('model reports')
    if not want:
        c.event('empty reports')


def snapshot(ms):
    out = []
    for m in ms:
        out.append((m.name, [(n, id(o), o.name, repr(o.value), o.is_specified, sorted(o.units.dimension.items())) for d in (m.variables, m.parameters, m.constants)
                             for n, o in d.items()],
                    [(n, id(e), e.name, e.type, repr(e.equation_expression), sorted(e.objects_declared), str(e.equation_expression.symbolic_object),
                      sorted(e.equation_expression.symbolic_map), sorted(e.equation_expression.variable_map)) for n, e in m.equations.items()],
                    sorted(m.exposed_vars), [len(v) for v in m.exposed_vars.values()]))
    return out


def printed(sim, o):
    f = io.StringIO()
    with contextlib.redirect_stdout(f):
        sim.report(o)
    return f.getvalue()


def case(c):
    from sloth.analysis import Analysis
    from sloth.problem import Problem
    from sloth.simulation import Simulation
    rng = c.rng
    ms = [gen_model(rng, n) for n in rng.sample(S.MODEL_NAMES, rng.randint(1, 3))]
    for m in ms:
        c.note(m.name, [(r.name, r.desc, X.show(r.e)) for r in m.rows_expected], m.pool_)
    # assignments after the equations were written
    for m in ms:
        for q in m.pool_:
            if q.kind == 'par' and rng.random() < .2:
                q.obj.setValue(round(rng.uniform(1, 3), 2))
                c.event('specified afterwards')
    before = snapshot(ms)
    an, sim = Analysis(), Simulation('S')
    for m in rng.sample(ms, len(ms)):
        with c.accepted('report of %s' % m.name):
            text = an.modelReport(m) if rng.random() < .5 else printed(sim, m)
        judge(c, m, str(text), 'report of ' + m.name)
        c.ok(snapshot(ms) == before, 'the report of %s changed a model' % m.name)
        if rng.random() < .5:
            with interrupted(int(10 ** rng.uniform(0, 2.5))) as state:
                rng.choice([an.modelReport, sim.report])(m)
            c.event('interrupted reports', int(state['raised']))
            c.ok(snapshot(ms) == before, 'a report of %s, interrupted, changed a model' % m.name, at=state.get('where'))
        c.ok(str(an.modelReport(m)).strip() == str(text).strip(), 'the second report of %s differs' % m.name)
    kinds = [m.equations['%s_%s' % (r.name, m.name)].type for m in ms for r in m.rows_expected]
    if kinds:
        p = Problem(rng.choice(['P', 'my problem', 'Problem_1']), 'd')
        order = rng.sample(ms, len(ms))
        p.addModels(order)
        if any(m.pool_ and m.pool_[-1].name == 't' for m in ms):
            p.setTimeVariableName(['t_' + m.name for m in ms if m.pool_ and m.pool_[-1].name == 't'])
        p.resolve()
        # resolving declares the models again
        after = snapshot(ms)
        eb = [(e.name, id(e)) for e in p.equation_block.equations]
        if rng.random() < .5:
            with interrupted(int(10 ** rng.uniform(0, 2.5))) as state:
                rng.choice([an.problemReport, sim.report])(p)
            c.event('interrupted reports of problems', int(state['raised']))
            c.ok(snapshot(ms) == after, 'a report of the problem, interrupted, changed a model', at=state.get('where'))
        with c.accepted('report of the problem'):
            text = an.problemReport(p) if rng.random() < .5 else printed(sim, p)
        c.ok(snapshot(ms) == after, 'the report of the problem changed a model')
        c.ok(eb == [(e.name, id(e)) for e in p.equation_block.equations], 'the report changed the problem')
        kinds = [m.equations['%s_%s' % (r.name, m.name)].type for m in ms for r in m.rows_expected]
        d = 'differential' in kinds
        want = ('differential-algebraic' if len(set(kinds)) > 1 else 'differential') if d else (
            'nonlinear' if 'nonlinear' in kinds else 'linear')
        parts = text.split('\nModel: ')
        c.ok(parts[0].strip() == 'Problem: %s (%s)' % (p.name, want), 'head of the report', got=parts[0], expected=want)
        got = [x.split('\n', 1) for x in parts[1:]]
        c.ok(sorted(x[0].strip() for x in got) == sorted(m.name for m in ms), 'models of the report', got=[x[0] for x in got])
        for x in got:
            judge(c, [m for m in ms if m.name == x[0].strip()][0], x[1], 'report of the problem, model ' + x[0])
        c.event('problem reports')
        c.event('problem reports ' + want)
    for bad in ({}, 'M', 3, None, an):
        if rng.random() < .1:
            c.rejects('report of %r' % (bad,), lambda: sim.report(bad), ['UnexpectedValueError'])
    c.key(c.log)
    c.trivial = not any(m.rows_expected for m in ms)


def connected(c):
    """Equations of connections, of incorporated models and of the library's units are reported too."""
    from sloth.analysis import Analysis
    from sloth.model import Model
    from sloth.problem import Problem
    from sloth.core.template_units import dimless
    from sloth.unit_op_library import Mixer, Valve
    from checks.c24 import package
    a, b = Model('A'), Model('B')
    x = a.createVariable('x', dimless, is_exposed=True, type='output')
    y = b.createVariable('y', dimless, is_exposed=True, type='input')
    k = b.createParameter('k', dimless)
    k.setValue(2.)
    a.createEquation('e', 'gives x', x() - 3)
    p = Problem('P')
    p.addModels([a, b])
    p.createConnection(a, b, x, y)
    p.createConnection('outside', b, k() * x(), b.createVariable('z', dimless, is_exposed=True, type='input')())
    p.resolve()
    text = Analysis().problemReport(p)
    tables = dict(t.split('\n', 1) for t in text.split('\nModel: ')[1:])
    rows = [r for t in tables.values() for r in parse(t)[1]]
    c.ok(len(rows) == 3 and len({r[0] for r in rows}) == 3, 'rows of the connected problem', rows=rows)
    c.ok(sorted(map(tuple, (sorted(names(r[3])) for r in rows))) == [('x_A',), ('x_A', 'y_B'), ('x_A', 'z_B')], 'variables of the connections', rows=rows)
    c.ok([r[4] for r in rows if 'z_B' in r[3]] == ['k_B(*)'], 'parameters of the connections', rows=rows)
    c.ok(all(r[6] == 'linear' for r in rows), 'types of the connections', rows=rows)
    m = Model('C')
    m.incorporateFromExternalModel(a)
    _, rows = parse(str(Analysis().modelReport(m)))
    c.ok(len(rows) == len(m.equations) == 1, 'rows of an incorporating model', rows=rows)
    c.ok('x_C' in {n for r in rows for n in names(r[3])}, 'variables of an incorporating model', rows=rows)
    mix, v = Mixer('M', property_package=package(c.rng, ['water'])), Valve('V', property_package=package(c.rng, ['water']))
    v.Delta_P.setValue(3.)
    v()
    for u, n in ((mix, 5), (v, 6)):
        _, rows = parse(str(Analysis().modelReport(u)))
        c.ok(len(rows) == n, 'rows of %s' % u.name, rows=rows)
    by = {r[0]: r for r in rows}
    c.ok(sorted(names(by['vol_flux_balance_V'][4])) == ['mix_rho_V(*)', 'perc_open_V'], 'parameters of a valve', rows=rows)
    c.ok(names(by['mechanical_equilibrium_V'][4]) == ['Delta_P_V(*)'], 'parameters of a valve', rows=rows)
    c.ok(by['isoenthalpy_V'][6] == 'nonlinear' and by['mechanical_equilibrium_V'][6] == 'linear', 'types of a valve', rows=rows)
    c.note('connections, incorporation and library units')


def large(c):
    """A model of many equations and objects, and a problem of many models."""
    from sloth.analysis import Analysis
    from sloth.model import Model
    from sloth.problem import Problem
    rng = c.rng

    def model(name, n):
        m = Model(name)
        vs = [X.Qty('x%d' % i, 'var', X.ZERO, 0., False) for i in range(n)]
        ps = [X.Qty('p%d' % i, 'par', X.ZERO, 1.5, i % 3 == 0) for i in range(n)]
        cs = [X.Qty('c%d' % i, 'con', X.ZERO, 2.5, True) for i in range(n)]
        for q in vs + ps + cs:
            q.obj = {'var': m.createVariable, 'par': m.createParameter, 'con': m.createConstant}[q.kind](q.name, X.unit(q.dim))
            if q.specified:
                q.obj.setValue(q.value)
        m.rows_expected = []
        for i in range(n):
            e = ('q', vs[i])
            for k in rng.sample(range(n), 12 if i == n - 1 and n > 12 else min(n, 2)):
                e = ('bin', '-', e, ('bin', '*', ('q', ps[k]), ('bin', '*', ('q', cs[n - 1 - k]), ('q', vs[k]))))
            e = ('bin', '-', e, ('fn', 'Exp', ('q', vs[0])) if i == n - 2 else ('num', 3.))
            r = Row('e%d' % i if i % 5 else 'balance_of_what_is_held_in_the_vessel_and_in_its_pipes_%d' % i,
                    'equation %d' % i if i % 4 else ', '.join('term %d of equation %d' % (j, i) for j in range(2 * i + 1)), e)
            m.createEquation(r.name, r.desc, X.realise(e))
            m.rows_expected.append(r)
        return m
    a = model('A', 42)
    judge(c, a, str(Analysis().modelReport(a)), 'report of a large model')
    c.ok([e for n, e in a.equations.items() if '40_' in n][0].type == 'nonlinear', 'type of an exponential')
    p = Problem('P', 'd')
    ms = [model('M%d' % i, rng.randint(2, 4)) for i in range(13)] + [a]
    p.addModels(ms)
    p.resolve()
    text = Analysis().problemReport(p)
    got = dict(x.split('\n', 1) for x in text.split('\nModel: ')[1:])
    got = {k.strip(): v for k, v in got.items()}
    c.ok(sorted(got) == sorted(m.name for m in ms), 'models of a large report', got=sorted(got))
    for m in ms:
        judge(c, m, got[m.name], 'large report of the problem, model ' + m.name)
    c.ok(text.split('\nModel: ')[0].strip() == 'Problem: P (nonlinear)', 'head of a large report', got=text[:60])
    c.event('large reports')
    c.note('large reports')


CHECK = Check('C21', case, 700, 20000,
              'random models declared in three styles, with 0-5 random equations, alone and in problems of 1-3 models, their reports '
              'parsed and compared; distinct by models; non-trivial: at least one equation',
              directed=[connected, large],
              need=['interrupted reports', 'interrupted reports of problems', 'large reports', 'model reports', 'problem reports', 'rows linear', 'rows nonlinear', 'rows differential', 'specified marked',
                    'unspecified not marked', 'rows with constants', 'empty reports', 'specified afterwards',
                    'problem reports differential-algebraic', 'problem reports nonlinear', 'problem reports linear'])
