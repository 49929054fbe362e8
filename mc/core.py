"""Explorer: enumerates the spaces of a property completely, in parallel, and checks every case.

A property module (mc/props/cXX.py) offers

    ID, LEVEL_RULE
    def spaces(tier): -> list of Space

A Space is a named finite set of cases (a generator of JSON-able values, simplest first) together with the
function that executes one case against the real code and compares it with the reference model.  The cases
of all spaces are dealt out to forked workers (case i goes to worker i mod n), so the explored set does not
depend on the number of workers, on VERIF_SEED or on timing.
"""
import gc
import importlib
import json
import mmap
import os
import pickle
import resource
import shutil
import signal
import struct
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NPROC = int(os.environ.get('MC_PROCS', '8'))
CPU_LIMIT = 15.0       # CPU seconds for one case
REAL_LIMIT = 120.0     # wall clock seconds for one case (blocked threads)
AS_LIMIT = 3 << 30
MAX_STATES = 1500000   # per worker; past that, states are still explored, only no longer counted


class Violation(Exception):
    pass


class Hang(BaseException):
    pass


class Space(object):
    def __init__(self, name, gen, run, what, needs=()):
        self.name = name
        self.gen = gen            # callable -> iterator of JSON-able cases
        self.run = run            # run(case, ctx)
        self.what = what
        self.needs = tuple(needs)  # outcome labels that must occur (guards against vacuous spaces)


class Ctx(object):
    def __init__(self):
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.outcomes = {}

    def state(self, *key):
        if len(self.states) < MAX_STATES:
            try:
                self.states.add(hash(key))
            except TypeError:
                self.states.add(hash(repr(key)))

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, label):
        self.outcomes[label] = self.outcomes.get(label, 0) + 1

    def fail(self, msg, *args):
        raise Violation(msg % args if args else msg)

    def eq(self, got, want, what):
        if not (got == want):
            raise Violation("%s: got %s, expected %s" % (what, short(got), short(want)))

    def true(self, cond, what):
        if not cond:
            raise Violation(what)

    def rejects(self, func, what):
        """func must raise; returns the exception."""
        try:
            result = func()
        except Violation:
            raise
        except Exception as e:
            self.outcome('rejected')
            return e
        raise Violation("%s: expected an error, but got %s" % (what, short(result)))


def short(obj, n=300):
    try:
        s = repr(obj)
    except Exception as e:
        s = '<repr failed: %r>' % (e,)
    return s if len(s) <= n else s[:n] + '...'


def spaces_of(module, tier):
    spaces = module.spaces(tier)
    if hasattr(module, 'LARGE'):
        from mc import large
        spaces.append(large.space(module.LARGE, tier))
    return spaces


def run_case(space, case, ctx):
    """Returns None or the message of the violation."""
    _watch.begin()
    try:
        space.run(case, ctx)
        return None
    except Violation as e:
        return str(e)
    except Hang as e:
        return "hang: " + str(e)
    except MemoryError:
        return "unbounded memory use"
    except RecursionError:
        return "unexpected RecursionError\n" + '\n'.join(traceback.format_exc(limit=6).splitlines()[-14:])
    except Exception:
        return "unexpected exception\n" + '\n'.join(traceback.format_exc().splitlines()[-14:])
    finally:
        _watch.end()


class Watch(object):
    """Interrupts a case that does not end."""

    def __init__(self):
        self.active = False
        self.t = self.c = 0

    def install(self):
        signal.signal(signal.SIGALRM, self._tick)
        signal.setitimer(signal.ITIMER_REAL, 2, 2)

    def begin(self):
        self.c = None
        self.active = True

    def end(self):
        self.active = False

    def _tick(self, *_):
        if not self.active:
            return
        cpu, now = time.process_time(), time.time()
        if self.c is None:
            self.c, self.t = cpu, now
            return
        if cpu - self.c > CPU_LIMIT or now - self.t > REAL_LIMIT:
            self.active = False
            raise Hang("no result after %.0f s of CPU, %.0f s of time" % (cpu - self.c, now - self.t))


_watch = Watch()


# ---------------------------------------------------------------- known findings

def load_known():
    known = []
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            if line.startswith('known: '):
                known.append(json.loads(line[len('known: '):]))
    return known


def is_known(known, prop, space, case):
    text = json.dumps(case)
    for k in known:
        if k['property'] == prop and k['space'] == space and json.dumps(k['case']) == text:
            return k
    return None


# ---------------------------------------------------------------- workers

EVERY = int(os.environ.get('MC_EVERY', '1'))      # a part of the cases only: for the first pass of tools/mutants.py
HEADER = struct.Struct('qq')     # (space index, case index) of the current / worst case


def worker(prop, spaces, k, n, tmp, shared, known, start):
    gc.enable()
    try:
        resource.setrlimit(resource.RLIMIT_AS, (AS_LIMIT, AS_LIMIT))
    except (ValueError, OSError):
        pass
    _watch.install()
    ctx = Ctx()
    out = dict(violation=None, known=[], evals={}, samples=[], complete=True, secs={})
    for si, space in enumerate(spaces):
        if si < start[0]:
            continue
        evals = 0
        t0 = time.time()
        sub = dict(ctx.outcomes)
        ctx.outcomes = {}
        stop = False
        for i, case in enumerate(space.gen()):
            if i % n != k or (si == start[0] and i < start[1]) or (EVERY > 1 and i and (i * 2654435761 >> 9) % EVERY):
                continue
            best = HEADER.unpack_from(shared, 0)
            if (si, i) > best:
                stop = True
                break
            HEADER.pack_into(shared, HEADER.size * (k + 1), si, i)
            msg = run_case(space, case, ctx)
            evals += 1
            if evals <= 1 and k == i % n and i < 3:
                out['samples'].append([space.name, case])
            if msg is not None:
                hit = is_known(known, prop, space.name, case)
                if hit:
                    out['known'].append([space.name, case, hit.get('what', '')])
                    continue
                out['violation'] = [si, i, space.name, case, msg]
                if (si, i) < HEADER.unpack_from(shared, 0):
                    HEADER.pack_into(shared, 0, si, i)
                stop = True
                break
        out['evals'][space.name] = [evals, ctx.outcomes]
        out['secs'][space.name] = time.time() - t0
        if stop:
            out['complete'] = False
            break
    out.update(states=ctx.states, transitions=ctx.transitions, traces=ctx.traces)
    with open(os.path.join(tmp, '%d.pkl' % k), 'wb') as f:
        pickle.dump(out, f, 2)


def spawn(prop, spaces, k, n, tmp, shared, known, start):
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            worker(prop, spaces, k, n, tmp, shared, known, start)
            code = 0
        except BaseException:
            traceback.print_exc()
        finally:
            sys.stderr.flush()
            os._exit(code)
    return pid


def isolated(space, case):
    """Re-executes one case in its own process. -> (reproduced, message)"""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            resource.setrlimit(resource.RLIMIT_AS, (AS_LIMIT, AS_LIMIT))
            _watch.install()
            msg = run_case(space, case, Ctx())
            os.write(w, pickle.dumps(msg, 2)[:60000] if msg is None or len(msg) < 50000 else pickle.dumps(msg[:50000], 2))
            os._exit(0)
        except BaseException:
            os._exit(3)
    os.close(w)
    data = b''
    while True:
        chunk = os.read(r, 65536)
        if not chunk:
            break
        data += chunk
    os.close(r)
    _, status = os.waitpid(pid, 0)
    if status != 0 or not data:
        return True, 'the process ended with status %d' % status
    msg = pickle.loads(data)
    return msg is not None, msg


def explore(prop, spaces, known):
    tmp = tempfile.mkdtemp(prefix='mc-%s-' % prop)
    try:
        n = NPROC
        shared = mmap.mmap(-1, HEADER.size * (n + 1))
        HEADER.pack_into(shared, 0, 1 << 60, 1 << 60)
        pids = {}
        restarts = {}
        for k in range(n):
            HEADER.pack_into(shared, HEADER.size * (k + 1), 0, -1)
            pids[spawn(prop, spaces, k, n, tmp, shared, known, (0, 0))] = k
        crashed = []
        while pids:
            pid, status = os.wait()
            if pid not in pids:
                continue
            k = pids.pop(pid)
            if status != 0:
                si, i = HEADER.unpack_from(shared, HEADER.size * (k + 1))
                if i < 0:
                    raise RuntimeError("worker %d failed before its first case" % k)
                case = next(c for j, c in enumerate(spaces[si].gen()) if j == i)
                again, msg = isolated(spaces[si], case)
                if again:
                    crashed.append([si, i, spaces[si].name, case, msg])
                    if (si, i) < HEADER.unpack_from(shared, 0):
                        HEADER.pack_into(shared, 0, si, i)
                else:
                    restarts[k] = restarts.get(k, 0) + 1
                    if restarts[k] > 3:
                        raise RuntimeError("worker %d keeps failing near %s %r" % (k, spaces[si].name, case))
                    pids[spawn(prop, spaces, k, n, tmp, shared, known, (si, i))] = k
        results = []
        for k in range(n):
            path = os.path.join(tmp, '%d.pkl' % k)
            if os.path.exists(path):
                with open(path, 'rb') as f:
                    results.append(pickle.load(f))
        return results, crashed
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


# ---------------------------------------------------------------- commands

def load(prop):
    return importlib.import_module('mc.props.%s' % prop.lower())


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    module = load(prop)
    spaces = spaces_of(module, tier)
    only = os.environ.get('MC_SPACE')
    if only:
        spaces = [s for s in spaces if s.name in only.split(',')]
    known = load_known()
    results, crashed = explore(prop, spaces, known)
    violations = sorted([r['violation'] for r in results if r['violation']] + crashed, key=lambda v: (v[0], v[1]))

    states = set()
    for r in results:
        states |= r['states']
    per_space = []
    vacuous = []
    for s in spaces:
        evals, outcomes, secs = 0, {}, 0
        for r in results:
            e, o = r['evals'].get(s.name, (0, {}))
            evals += e
            secs += r['secs'].get(s.name, 0)
            for label, c in o.items():
                outcomes[label] = outcomes.get(label, 0) + c
        per_space.append(dict(space=s.name, what=s.what, cases=evals, outcomes=outcomes, cpu_s=round(secs, 1)))
        missing = [x for x in s.needs if not outcomes.get(x)]
        if missing or not evals:
            vacuous.append((s.name, missing))
    samples = []
    for r in results:
        samples.extend(r['samples'])
    samples = samples[:12] or [['none', None]]
    coverage = dict(states=len(states), transitions=sum(r['transitions'] for r in results),
                    traces_validated_against_impl=sum(r['traces'] for r in results),
                    samples=samples, spaces=per_space,
                    exhaustive=not violations and all(r['complete'] for r in results),
                    evaluations=sum(p['cases'] for p in per_space),
                    rule=getattr(module, 'RULE', ''))
    evidence = dict(property=prop, tier=tier, seed=seed, level='model_checking', coverage=coverage,
                    assumptions=getattr(module, 'ASSUMPTIONS', []), wall_s=round(time.time() - t0, 2),
                    violations=len(violations))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1, default=repr)

    seen = set()
    for r in results:
        for space, case, what in r['known']:
            line = "KNOWN-FINDING: property=%s %s" % (prop, what)
            if line not in seen:
                seen.add(line)
                print(line)
    for p in per_space:
        print("%s %-28s cases=%-8d cpu=%5.1fs %s" % (prop, p['space'], p['cases'], p['cpu_s'], p['outcomes']))
    print("%s %s: %d states, %d transitions, %d traces validated, %.1f s" %
          (prop, tier, coverage['states'], coverage['transitions'], coverage['traces_validated_against_impl'],
           time.time() - t0))
    if violations:
        si, i, name, case, msg = violations[0]
        space = [s for s in spaces if s.name == name][0]
        runs = [isolated(space, case) for _ in range(2)]
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        path = os.path.join(VERIF, 'replays', '%s.json' % prop)
        with open(path, 'w') as f:
            json.dump(dict(property=prop, tier=tier, space=name, case=case, index=i, message=msg,
                           reproduced_alone=[r[0] for r in runs],
                           history=None if runs[0][0] else dict(shard=i % NPROC, of=NPROC)), f, indent=1, default=repr)
        print("space=%s case=%s" % (name, short(case, 600)))
        print(msg)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if vacuous and EVERY == 1:
        # Only reachable when the code under test never shows a behaviour that the space is about.
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        path = os.path.join(VERIF, 'replays', '%s.json' % prop)
        with open(path, 'w') as f:
            json.dump(dict(property=prop, tier=tier, missing_outcomes=vacuous), f)
        print("expected behaviours never occurred: %r" % (vacuous,))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    return 0


def replay(path):
    with open(path) as f:
        d = json.load(f)
    if 'case' not in d:
        return check(d['property'], d['tier'])
    space = [s for s in spaces_of(load(d['property']), d['tier']) if s.name == d['space']][0]
    _watch.install()
    if d.get('history'):
        cases = [(i, c) for i, c in enumerate(space.gen()) if i % d['history']['of'] == d['history']['shard']
                 and i <= d['index']]
    else:
        cases = [(d['index'], d['case'])]
    for i, case in cases:
        msg = run_case(space, case, Ctx())
        if msg is not None:
            print("space=%s case=%s" % (space.name, short(case, 600)))
            print(msg)
            print("VIOLATION property=%s replay=%s" % (d['property'], path))
            return 1
    print("not reproduced")
    return 0


def main(argv):
    if argv and argv[0] == 'replay':
        return replay(argv[1])
    prop = argv[0].upper()
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    return check(prop, tier)
