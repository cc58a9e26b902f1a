"""C18: results and configurations. All the forms in which a run gives its results are compared with one another, and
with the oracle of the run; configurations go through a file."""
import contextlib
import io
import json
import os

import numpy as np

from harness import systems as S
from harness.core import Check, close
from checks.c17 import Algebraic, Differential, Linear, Nonlinear
from checks.c21 import parse


def captured(fn):
    f = io.StringIO()
    with contextlib.redirect_stdout(f):
        fn()
    return f.getvalue()


def cell(text):
    try:
        return float(text)
    except ValueError:
        import sympy
        return float(sympy.sympify(text))  # exact solutions are shown as they are: 1/2


def values_algebraic(c, st, sim, k, what):
    st.judge(sim, k, what)
    d = sim.getResults('dict')
    l = sim.getResults('list') if c.rng.random() < .5 else sim.getResults()
    c.ok(isinstance(d, dict) and all(isinstance(n, str) for n in d), '%s: dictionary of results' % what, got=repr(d))
    c.ok(isinstance(l, list) and len(l) == len(d), '%s: list of results' % what, got=repr(l))
    c.ok(np.allclose(sorted(map(float, l)), sorted(map(float, d.values())), rtol=1e-12, atol=0), '%s: the list and the dictionary differ' % what,
         list=l, dict={n: float(v) for n, v in d.items()})
    # the table
    text = captured(sim.showResults)
    head, rows = parse(text)
    c.ok(head == ['Variable', 'Unit', 'Value'], '%s: head of the table' % what, got=head)
    c.ok(len(rows) == len(d) and {r[0] for r in rows} == set(d), '%s: variables of the table' % what, got=rows)
    cur = {}
    for m in st.s.models:
        cur.update(m.variables)
    for i, r in enumerate(rows):
        c.ok(close(cell(r[2]), d[r[0]], 1e-6, 1e-300), '%s: value of %s in the table' % (what, r[0]), got=r[2], expected=float(d[r[0]]))
        c.ok(close(cell(r[2]), l[i], 1e-6, 1e-300), '%s: the table and the list are in different orders' % what, got=rows, list=l)
        c.ok(r[1] == str(cur[r[0]].units).strip(), '%s: unit of %s in the table' % (what, r[0]), got=r[1], expected=str(cur[r[0]].units))
    c.event('tables')
    return {n: float(v) for n, v in d.items()}


def values_dynamic(c, st, sim, k, what, headers):
    st.judge(sim, k, what)
    tn = st.s.time.name
    d = sim.getResults('dict')
    l = sim.getResults('list') if c.rng.random() < .5 else sim.getResults()
    df = st.s.domain.values[tn]
    c.ok(len(l) == 1 and list(d) == [tn], '%s: one independent variable' % what)
    names = list(d[tn])
    c.ok(names == list(df.columns), '%s: columns of the dictionary and of the domain' % what, got=names, domain=list(df.columns))
    A = np.asarray(l[0], float)
    c.ok(A.shape == (len(df), len(names)), '%s: shape of the list' % what)
    for j, n in enumerate(names):
        c.ok(np.array_equal(A[:, j], np.asarray(d[tn][n], float)) and np.array_equal(A[:, j], np.asarray(df[n].values, float)),
             '%s: %s differs in the list, the dictionary and the domain' % (what, n))
    text = captured(sim.showResults)
    head, rows = parse(text)
    c.ok(head == headers, '%s: head of the table' % what, got=head, expected=headers)
    c.ok(len(rows) == len(A), '%s: rows of the table' % what, got=len(rows), expected=len(A))
    for i, r in enumerate(rows):
        x = [float(v) for v in r]
        c.ok(close(x[0], A[i, names.index(st.refs[k][2][tn]) if st.refs[k][2] else names.index(tn)], 1e-6, 1e-9), '%s: time in row %d of the table' % (what, i), got=r)
        c.ok(np.allclose(sorted(x), sorted(A[i]), rtol=1e-6, atol=1e-9), '%s: row %d of the table' % (what, i), got=r, expected=A[i].tolist())
    c.event('tables of trajectories')
    return {n: np.asarray(d[tn][n], float).copy() for n in names}


def continued(c, st, sim):
    """Run again without emptying the domain: the list, the dictionary and the domain keep telling the same rows."""
    tn = st.s.time.name
    n0 = len(st.s.domain.values[tn])
    with c.accepted('run without a reset'):
        sim.runSimulation(show_output_msg=False, show_final_residuals=False)
    df = st.s.domain.values[tn]
    d, l = sim.getResults('dict'), sim.getResults('list')
    c.ok(list(d) == [tn] and list(d[tn]) == list(df.columns) and len(df) == 2 * n0, 'run without a reset: rows and columns')
    A = np.asarray(l[0], float)
    c.ok(A.shape == df.shape, 'run without a reset: shape of the list')
    for j, n in enumerate(df.columns):
        v, w = np.asarray(d[tn][n], float), np.asarray(df[n].values, float)
        c.ok(v.shape == w.shape and np.array_equal(v, w) and np.array_equal(A[:, j], w),
             'run without a reset: %s differs in the list, the dictionary and the domain' % n, dict=len(v), domain=len(w))
    c.event('continued')


def alter(c, sim, dynamic):
    """Spoil everything that was returned."""
    d, l = sim.getResults('dict'), sim.getResults('list')
    if dynamic:
        for cols in d.values():
            for n in list(cols):
                for i in range(len(cols[n])):
                    cols[n][i] = 1e9
                cols[n].append(7.)
                if c.rng.random() < .5:
                    del cols[n]
            cols['more'] = [1.]
        d.clear()
        for a in l:
            try:
                a[:] = -1e9
            except ValueError:
                c.event('read only')
        del l[:]
    else:
        for n in list(d):
            d[n] = 1e9
        d['more'] = 1.
        del d[sorted(d)[0]]
        for i in range(len(l)):
            l[i] = -1e9
        l.append(3.)
    c.event('altered')


def same(a, b):
    return set(a) == set(b) and all(np.array_equal(np.asarray(a[n], float), np.asarray(b[n], float)) for n in a)


def case(c):
    from sloth.simulation import Simulation
    rng = c.rng
    st = rng.choice([Linear, Linear, Nonlinear, Nonlinear, Differential, Algebraic])(c)
    sim = Simulation('S')
    for k in range(len(st.confs)):
        what = '%s, configuration %d' % (type(st).__name__, k)
        if st.dynamic:
            n = 1 + len(st.refs[k][4])
            headers = ['Time'] + rng.sample(['a(t)', 'b (K)', 'C', 'd', 'e e'], n - 1)
            st.confs[k]['output_headers'] = headers
            st.confs[k]['print_output'] = rng.random() < .4
            sim = Simulation('S%d' % k)
        told = captured(lambda: st.run(sim, k))
        if st.dynamic and st.confs[k]['print_output']:
            c.ok(parse(told) == parse(captured(sim.showResults)), '%s: the table printed by the run is not that of the results' % what, got=told[-600:])
            c.event('tables printed by the run')
        else:
            c.ok(parse(told) == (None, []), '%s: a table was printed without being asked' % what, got=told[-600:])
        look = (lambda: values_dynamic(c, st, sim, k, what, headers)) if st.dynamic else (lambda: values_algebraic(c, st, sim, k, what))
        first = look()
        again = look()
        c.ok(same(first, again), '%s: asked again, other results' % what)
        c.event('asked twice')
        alter(c, sim, st.dynamic)
        c.ok(same(look(), first), '%s: altering what was returned altered the results' % what)
        c.rejects('results as a tuple', lambda: sim.getResults(rng.choice(['tuple', 'lists', 3])), ['UnexpectedValueError'])
        if st.dynamic:
            trip(c, st, sim, k, None)
            if not st.refs[k][2]:
                continued(c, st, sim)
        else:
            printed(c, st, sim, k, what)
            residuals(c, st, sim, k, what)
            trip(c, st, sim, k, first)
    c.key(c.log)


def number(text):
    try:
        return complex(text.replace('*I', 'j').replace(' ', ''))
    except ValueError:
        return None


def printed(c, st, sim, k, what):
    """The messages at the end of a run."""
    text = captured(lambda: sim.runSimulation(show_output_msg=True, show_final_residuals=True))
    head, rows = parse(text[text.index('Final residuals'):])
    c.ok('ended sucessfully' in text or 'ended successfully' in text, '%s: the end of the run is not told' % what)
    c.ok(head == ['Equation', 'Residual'], '%s: head of the residuals' % what, got=head)
    want = sorted(e.name for m in st.s.models for e in m.equations.values())
    c.ok(sorted(r[0] for r in rows) == want, '%s: equations in the table of residuals' % what, got=rows, expected=want)
    big = max([1.] + [abs(float(v)) for v in sim.getResults('dict').values()])
    for r in rows:
        v = number(r[1])
        if v is None:
            c.event('symbolic residuals')
        else:
            c.ok(abs(v) < 1e-4 * big ** 3, '%s: final residual of %s' % (what, r[0]), got=r[1])
    c.event('final residuals')


@contextlib.contextmanager
def disturbed(rng):
    """What the solvers return is moved away from the solution."""
    from sloth import solvers
    done = []

    def off(solve):
        def f(self, *a, **kw):
            out = solve(self, *a, **kw)
            done.append(1)
            return type(out)((n, float(v) + rng.uniform(.1, .9) * (1 + abs(float(v))) * .1) for n, v in out.items())
        return f
    keep = [(cls, cls.__dict__['solve']) for cls in (solvers.LASolver, solvers.NLASolver) if 'solve' in cls.__dict__]
    for cls, solve in keep:
        cls.solve = off(solve)
    try:
        yield done
    finally:
        for cls, solve in keep:
            cls.solve = solve


def residuals(c, st, sim, k, what):
    """Results that are not a solution: the residuals told are those of each equation."""
    from sloth.simulation import Simulation
    other = Simulation('disturbed')
    other.setProblem(st.p)
    other.setConfigurations(**st.confs[k])
    with disturbed(c.rng) as done:
        text = captured(lambda: other.runSimulation(show_output_msg=True, show_final_residuals=True))
    if not done:
        return
    at = {n: float(v) for n, v in other.getResults('dict').items()}
    true = {n: float(v) for n, v in sim.getResults('dict').items()}
    c.ok(set(at) == set(true) and all(abs(at[n] - true[n]) > 1e-3 for n in at), '%s: the results are not what the solver returned' % what, got=at, solution=true)
    head, rows = parse(text[text.index('Final residuals'):])
    eqs = {e.name: e for m in st.s.models for e in m.equations.values()}
    c.ok(sorted(r[0] for r in rows) == sorted(eqs), '%s: equations in the table of residuals' % what, got=rows)
    for r in rows:
        v = number(r[1])
        if v is None:
            c.event('symbolic residuals')
            continue
        want = eqs[r[0]].eval({n: at.get(n, q.value) for n, q in eqs[r[0]].objects_declared.items()})
        if not want.is_real:
            continue
        c.ok(close(v.real, float(want), 1e-6, 1e-9) and abs(v.imag) < 1e-9, '%s: residual of %s' % (what, r[0]), got=r[1], expected=float(want))
        if abs(want) > 1e-3:
            c.event('residuals of what is not a solution')


class Many(Linear):
    """A linear problem of many unknowns."""

    def draw(self, rng):
        self.s = S.linear(rng, rng.randint(33, 45))


def large(c):
    from sloth.simulation import Simulation
    st = Many(c)
    sim = Simulation('large')
    what = 'large'
    st.confs[0] = {'linear_solver': c.rng.choice(['symbolicsys', 'scipy'])}
    st.run(sim, 0)
    first = values_algebraic(c, st, sim, 0, what)
    printed(c, st, sim, 0, what)
    residuals(c, st, sim, 0, what)
    trip(c, st, sim, 0, first)
    c.event('many unknowns')


def normal(o):
    return json.loads(json.dumps(o))


def trip(c, st, sim, k, first):
    """Through a file, into another simulation."""
    from sloth.simulation import Simulation
    rng = c.rng
    src = sim
    extra = {}
    if first is None:
        # without the domain, which is not JSON
        src = Simulation('dyn')
        src.setProblem(st.p)
        conf = dict(st.confs[k])
        if conf.get('times_for_solution') is not None:
            conf['times_for_solution'] = [float(v) for v in conf['times_for_solution']]
        if st.refs[k][2]:
            conf['variable_name_map'] = dict(st.refs[k][2])
        src.setConfigurations(**conf)
    elif rng.random() < .5:
        extra = {'verbosity_solver': rng.choice([0, 10]), 'print_output': rng.random() < .5, 'variable_name_map': {'a': 'b c', 'é': 'ü'},
                 'number_of_time_steps': rng.randint(1, 9), 'output_headers': ['x', 'y'], 'end_time': rng.choice([None, 3., 1e-300]), 'differential_solver': rng.choice([None, 'CVODE', 'ODEINT']), 'initial_guess_solver': rng.choice([None, 'hybr']),
                 'problem_type': None, 'number_parameters_to_optimize': rng.choice([0, 0, 1, 3]), 'args': rng.choice([[], [1, 2.5]]), 'initial_time': rng.choice([0., -1.5]),
                 'configuration_args': {'u': [1, 2.5, None, {'v': True}]}}
        src = Simulation(rng.choice(['other', 'my sim', 's_1', 'run.1', 'v2.0 (b)']))
        src.setProblem(st.p)
        src.setConfigurations(**dict(st.confs[k], **extra))
    before = normal(src.configurations)
    if rng.random() < .5:
        f = rng.choice(['conf.json', 'a b.json', 'c.txt'])
        if rng.random() < .5:
            # over a longer file
            with open(f, 'w') as out:
                json.dump({'x%d' % j: [1.] * 40 for j in range(200)}, out)
            c.event('written over another file')
        src.dumpConfigurations(f)
    else:
        f = src.name + '-conf.json'
        src.dumpConfigurations()
    if rng.random() < .5:
        # another simulation, of a name close to that, writes its own
        near = Simulation(rng.choice([src.name + '2', src.name[:-1], src.name + '.2', src.name.upper() + '.', src.name.split('.')[0] + '.9']))
        if near.name and near.name != src.name and not near.name.startswith('.'):
            near.setProblem(st.p)
            near.setConfigurations(end_time=77., initial_guess={'zz': 3.})
            there = set(os.listdir('.'))
            near.dumpConfigurations()
            for g in set(os.listdir('.')) - there:
                os.remove(g)
            c.event('others written')
    c.ok(os.path.isfile(f), 'the configurations were not written to %s' % f)
    c.ok(normal(src.configurations) == before, 'dumping changed the configurations')
    other = Simulation('loaded')
    other.setProblem(st.p)
    if rng.random() < .4:
        # over other ones
        other.setConfigurations(linear_solver='nothing', end_time=77., initial_guess={'zz': 3.})
    other.setConfigurations(configurations_file=f)
    os.remove(f)
    c.ok(normal(other.configurations) == before, 'the configurations loaded are not those dumped',
         diff=[(n, before.get(n), other.configurations.get(n)) for n in set(before) | set(other.configurations) if before.get(n, '-') != normal(other.configurations.get(n, '-'))])
    c.event('configurations through a file')
    other.configurations['number_parameters_to_optimize'] = 0
    if first is None:
        # the domain is not in the file
        other.configurations['domain'] = st.s.domain
        st.prepare(other, st.start(k))
        with c.accepted('run with the configurations loaded'):
            other.runSimulation(show_output_msg=False, show_final_residuals=False)
        st.judge(other, k, 'configurations loaded')
        c.event('trajectories with loaded configurations')
    else:
        with c.accepted('run with the configurations loaded'):
            other.runSimulation(show_output_msg=False, show_final_residuals=False)
        got = {n: float(v) for n, v in other.getResults('dict').items()}
        c.ok(set(got) == set(first) and all(close(got[n], first[n], 1e-12, 1e-14) for n in got), 'the configurations loaded give other results',
             got=got, expected=first)
        c.event('results with loaded configurations')
        # as a dictionary
        third = Simulation('third')
        third.setProblem(st.p)
        d = dict(st.confs[k]) if rng.random() < .5 else dict(src.configurations)
        keep = normal(d)
        third.setConfigurations(definition_dict=d)
        told = normal(third.configurations)
        for n, v in keep.items():
            c.ok(told[n] == v, 'configuration %s of the dictionary' % n, got=told[n], expected=v)
        third.runSimulation(show_output_msg=False, show_final_residuals=False)
        c.ok(normal(d) == keep, 'the dictionary of configurations was changed')
        got = {n: float(v) for n, v in third.getResults('dict').items()}
        c.ok(set(got) == set(first) and all(close(got[n], first[n], 1e-12, 1e-14) for n in got), 'the dictionary of configurations gives other results',
             got=got, expected=first)
        c.event('results with a dictionary of configurations')


CHECK = Check('C18', case, 240, 8000,
              'random problems of the four types, each under 1-3 configurations: results as list, dictionary, table and domain, asked '
              'again and after spoiling the answers; configurations through files and dictionaries; distinct by problem and configurations',
              directed=[large],
              need=['tables', 'many unknowns', 'residuals of what is not a solution', 'written over another file', 'others written', 'trajectories with loaded configurations', 'tables printed by the run', 'continued', 'tables of trajectories', 'asked twice', 'altered', 'final residuals', 'configurations through a file',
                    'results with loaded configurations', 'results with a dictionary of configurations', 'Linear runs', 'Nonlinear runs',
                    'Differential runs', 'Algebraic runs'],
              assumptions=['CVODE and IDA are replaced by the stand-ins of harness/assimulo_stub.py'])
