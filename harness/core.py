"""Runner shared by all checks: seeded cases, monitors that count what they observed, replay files,
known findings, evidence."""
import contextlib
import hashlib
import io
import json
import multiprocessing
import os
import pickle
import random
import signal
import sys
import time
import traceback

from . import env

VERIF = env.VERIF


class Violation(Exception):
    """The monitor saw the property broken."""

    def __init__(self, msg, **detail):
        super().__init__(msg)
        self.msg = msg
        self.detail = detail


class Skip(Exception):
    """The generated case falls outside the quantifier of the property (counted, never silently)."""


class Interrupt(Exception):
    """Raised inside the code under test by interrupted()."""


@contextlib.contextmanager
def interrupted(after):
    """The code under test ends by an error at its after-th call (a failure at an arbitrary point). What is caught is told
    by the flag yielded: 'done' (an error came out), or False (it ended before, or went on)."""
    import sloth
    src = os.path.dirname(os.path.abspath(sloth.__file__))
    left, state = [after], {'raised': False, 'out': False}

    def prof(frame, event, arg):
        if event == 'call' and frame.f_code.co_filename.startswith(src) and frame.f_code.co_name[0] != '<':
            left[0] -= 1
            if left[0] == 0:
                sys.setprofile(None)
                state['raised'], state['where'] = True, frame.f_code.co_name
                raise Interrupt('call %d: %s' % (after, frame.f_code.co_name))
    sys.setprofile(prof)
    try:
        yield state
    except Violation:
        raise
    except Exception:
        state['out'] = True
    finally:
        sys.setprofile(None)


class _Null(io.TextIOBase):
    def write(self, s):
        return len(s)


@contextlib.contextmanager
def quiet():
    """The library prints a lot: keep stdout for the verdict."""
    n = _Null()
    with contextlib.redirect_stdout(n), contextlib.redirect_stderr(n):
        yield


class Case:
    """What a case sees: its own random generator, and the monitor."""

    def __init__(self, check, seed, index):
        self.check = check
        self.seed = seed
        self.index = index
        self.rng = random.Random('%s|%s|%s' % (check.id, seed, index))
        self.log = []
        self.keys = []
        self.trivial = False

    # -- monitor ---------------------------------------------------------
    def event(self, kind, n=1):
        self.check.events[kind] = self.check.events.get(kind, 0) + n

    def ok(self, cond, msg, **detail):
        """One observation judged by the oracle."""
        self.event('observations')
        if not cond:
            raise Violation(msg, **detail)

    def note(self, *a):
        """A line of the history of this case, for the replay file and the samples."""
        self.log.append(' '.join(str(x) for x in a))

    def key(self, *a):
        """What makes this case distinct from another."""
        self.keys.append(repr(a))

    @contextlib.contextmanager
    def accepted(self, what):
        """The library must accept this: any exception is a violation."""
        try:
            yield
        except (Violation, Skip):
            raise
        except Exception as ex:
            raise Violation('%s: rejected with %s: %s' % (what, type(ex).__name__, str_of(ex)[:300]),
                            traceback=traceback.format_exc()[-2500:])

    def rejects(self, what, fn, types=None):
        """The library must refuse this. Returns the exception."""
        self.event('observations')
        try:
            fn()
        except (Violation, Skip):
            raise
        except Exception as ex:
            if types is not None and type(ex).__name__ not in types and not any(
                    b.__name__ in types for b in type(ex).__mro__):
                raise Violation('%s: refused with %s instead of %s' % (what, type(ex).__name__, '/'.join(types)))
            return ex
        raise Violation('%s: accepted, but it must be refused' % what)


def str_of(ex):
    try:
        return str(ex)
    except Exception:
        return '<unprintable %s>' % type(ex).__name__


CASE_SECONDS = 240


class _Hang(BaseException):
    pass


def _hang(*a):
    raise _Hang()


signal.signal(signal.SIGALRM, _hang)


def from_library(ex):
    src = os.path.realpath(os.path.join(env.REPO, 'src'))
    tb = ex.__traceback__
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(src):
            return True
        tb = tb.tb_next
    return False


class Check:
    def __init__(self, id, cases, quick, thorough, rule, directed=(), need=(), time_limit=(300, 3000),
                 assumptions=()):
        """cases: function(case) generating and running one random case.
        directed: list of functions(case), run first, always.
        need: event kinds that must have been observed for the run to count."""
        self.id, self.case_fn, self.directed = id, cases, list(directed)
        self.n = {'quick': quick, 'thorough': thorough}
        self.rule, self.need, self.time_limit = rule, list(need), time_limit
        self.assumptions = list(assumptions)
        self.events = {}
        self.samples = []
        self.distinct = set()
        self.evaluations = self.skipped = 0
        self.rejected_reasons = {}

    # -- one case ----------------------------------------------------------
    def run_one(self, seed, index):
        case = Case(self, seed, index)
        fn = self.case_fn
        if isinstance(index, str):
            fn = {f.__name__: f for f in self.directed}[index]
        try:
            signal.alarm(CASE_SECONDS)
            with quiet():
                fn(case)
        except Skip as s:
            self.skipped += 1
            r = str(s)
            self.rejected_reasons[r] = self.rejected_reasons.get(r, 0) + 1
            return None
        except Violation as v:
            v.case = case
            return v
        except _Hang:
            v = Violation('the case did not end within %d s' % CASE_SECONDS)
            v.case = case
            return v
        except Exception as ex:
            # raised by the code under test, where the case expects no exception, or by the monitor on something
            # it obtained from it (an answer of another type, a missing name): not raised on the unchanged tree
            if not from_library(ex) and isinstance(ex, (AssertionError, ImportError, NameError, OSError, MemoryError)):
                raise
            v = Violation('unexpected %s: %s' % (type(ex).__name__, str_of(ex)[:300]),
                          traceback=traceback.format_exc()[-2500:])
            v.case = case
            return v
        finally:
            signal.alarm(0)
        self.evaluations += 1
        if not case.trivial:
            h = hashlib.sha1(('|'.join(case.keys) or '|'.join(case.log) or str(index)).encode()).hexdigest()
            if h not in self.distinct:
                self.distinct.add(h)
                if len(self.samples) < 1 or (len(self.samples) < 3 and case.rng.random() < .02):
                    self.samples.append({'case': index, 'history': case.log[:25]})
        return None

    # -- whole run -----------------------------------------------------------
    def main(self, argv=None):
        argv = sys.argv[1:] if argv is None else argv
        tier = os.environ.get('VERIF_TIER', 'quick')
        if '--thorough' in argv:
            tier = 'thorough'
        if '--quick' in argv:
            tier = 'quick'
        seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        if '--replay' in argv:
            path = os.path.join(VERIF, argv[argv.index('--replay') + 1])
            with open(path) as f:
                r = json.load(f)
            v = self.run_one(r['seed'], r['case'])
            if v is None:
                print('replay: the property held')
                return 0
            print('VIOLATION property=%s replay=%s' % (self.id, path))
            print(v.msg)
            print(json.dumps(v.detail, indent=1, default=str))
            print('\n'.join(v.case.log))
            return 1
        t0 = time.time()
        limit = self.time_limit[0 if tier == 'quick' else 1]
        known = load_known(self.id)
        seen_known = {}
        plan = [f.__name__ for f in self.directed] + list(range(self.n[tier]))
        workers = max(1, min(8, os.cpu_count() or 1, len(plan)))
        stop = multiprocessing.get_context('fork').Event()
        pipes = []
        sys.stdout.flush()
        sys.stderr.flush()
        for w in range(workers):
            r, wfd = os.pipe()
            pid = os.fork()
            if pid == 0:
                rc = 70
                try:
                    os.close(r)
                    for other, _ in pipes:
                        os.close(other)
                    d = os.path.join(os.getcwd(), 'w%d' % w)
                    os.makedirs(d, exist_ok=True)
                    os.chdir(d)
                    res = self.work(plan[w::workers], seed, tier, known, t0, limit, stop)
                    with os.fdopen(wfd, 'wb') as f:
                        pickle.dump(res, f)
                    rc = 0
                except BaseException:
                    traceback.print_exc()
                finally:
                    sys.stdout.flush()
                    sys.stderr.flush()
                    os._exit(rc)
            os.close(wfd)
            pipes.append((r, pid))
        violations, truncated, broken = [], False, None
        for r, pid in pipes:
            with os.fdopen(r, 'rb') as f:
                data = f.read()
            _, status = os.waitpid(pid, 0)
            if status != 0 or not data:
                broken = broken or 'a worker ended with status %s' % status
                continue
            res = pickle.loads(data)
            broken = broken or res['broken']
            truncated = truncated or res['truncated']
            violations += res['violations']
            for k, n in res['events'].items():
                self.events[k] = self.events.get(k, 0) + n
            for k, n in res['rejected_reasons'].items():
                self.rejected_reasons[k] = self.rejected_reasons.get(k, 0) + n
            for k, n in res['seen_known'].items():
                seen_known[k] = seen_known.get(k, 0) + n
            self.distinct |= res['distinct']
            self.samples += res['samples']
            self.evaluations += res['evaluations']
            self.skipped += res['skipped']
        self.samples = self.samples[:10]
        rank = {c: i for i, c in enumerate(plan)}
        violations.sort(key=lambda v: rank[v['case']])
        if broken and not violations:
            print('%s: error in the machinery: %s' % (self.id, broken))
            return 3
        violations = violations[:1 if tier == 'quick' else 3]
        wall = time.time() - t0
        for w in seen_known:
            print('KNOWN-FINDING: property=%s %s' % (self.id, w))
        self.write_evidence(tier, seed, wall, len(violations), truncated, seen_known)
        for v in violations:
            path = self.write_replay(v, seed, tier)
            print('VIOLATION property=%s replay=%s' % (self.id, path))
            print('  ' + v['msg'].replace('\n', '\n  '))
            for l in v['log'][-15:]:
                print('    | ' + l[:300])
        if violations:
            return 1
        lacking = [k for k in self.need if not self.events.get(k)]
        if lacking or self.evaluations == 0:
            print('%s: the monitor never observed: %s' % (self.id, lacking))
            return 4
        print('%s: held on %d cases (%d distinct), %d observations, %.1f s' % (
            self.id, self.evaluations, len(self.distinct), self.events.get('observations', 0), wall))
        return 0

    def work(self, plan, seed, tier, known, t0, limit, stop):
        """The cases of one worker process."""
        violations, seen_known, truncated, broken = [], {}, False, None
        for index in plan:
            if stop.is_set():
                break
            if time.time() - t0 > limit:
                truncated = True
                break
            try:
                v = self.run_one(seed, index)
            except Exception:
                broken = 'case %s, seed %s\n%s' % (index, seed, traceback.format_exc())
                break
            if v is None:
                continue
            self.evaluations += 1
            k = match_known(known, v)
            if k is not None:
                seen_known[k['what']] = seen_known.get(k['what'], 0) + 1
                continue
            violations.append({'case': index, 'msg': v.msg, 'log': v.case.log,
                               'detail': json.loads(json.dumps(v.detail, default=str))})
            if len(violations) >= 3 or tier == 'quick':
                stop.set()
                break
        return {'violations': violations, 'seen_known': seen_known, 'truncated': truncated, 'broken': broken,
                'events': self.events, 'distinct': self.distinct, 'samples': self.samples,
                'evaluations': self.evaluations, 'skipped': self.skipped,
                'rejected_reasons': self.rejected_reasons}

    def write_replay(self, v, seed, tier):
        d = os.environ.get('VERIF_REPLAYS') or os.path.join(VERIF, 'replays')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-%s-%s.json' % (self.id, seed, v['case']))
        with open(path, 'w') as f:
            json.dump({'property': self.id, 'seed': seed, 'tier': tier, 'case': v['case'], 'message': v['msg'],
                       'detail': v['detail'], 'history': v['log'],
                       'how': 'bin/check %s --replay %s' % (self.id, path)}, f, indent=1, default=str)
        return path

    def write_evidence(self, tier, seed, wall, nviol, truncated, seen_known):
        d = os.environ.get('VERIF_EVIDENCE') or os.path.join(VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        cov = {'evaluations': self.evaluations, 'distinct_nontrivial': len(self.distinct), 'rule': self.rule,
               'samples': self.samples or [{'case': 'none', 'history': []}],
               'observed_events': dict(sorted(self.events.items())), 'skipped_cases': self.skipped,
               'skip_reasons': self.rejected_reasons, 'truncated_by_time': truncated,
               'planned_cases': self.n[tier] + len(self.directed)}
        if seen_known:
            cov['known_findings_seen'] = seen_known
        ev = {'property': self.id, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov,
              'wall_s': round(wall, 2), 'violations': nviol, 'assumptions': self.assumptions}
        tmp = os.path.join(d, '.%s.tmp' % self.id)
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(tmp, os.path.join(d, '%s.json' % self.id))


def load_known(pid):
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        k = json.load(f)
    return [x for x in k.get('findings', []) if x['property'] == pid]


def match_known(known, v):
    """A finding names the directed case that exhibits it, and what the monitor says about it."""
    for k in known:
        if k.get('case') == v.case.index and k.get('message', '') in v.msg:
            return k
    return None


def close(a, b, rtol=1e-7, atol=1e-9):
    try:
        a, b = float(a), float(b)
    except Exception:
        return False
    if a != a or b != b:
        return False
    return abs(a - b) <= atol + rtol * max(abs(a), abs(b))
