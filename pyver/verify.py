"""
Runs the contract targets of one property and collects the obligations.

Every target is run in a forked process of its own (the modules of /repo are parsed
and executed once in the parent, before any solver is used).  A target that does not
finish before the deadline, that crashes, or whose contract is vacuous counts as
undecided; nothing that is undecided is ever reported as a violation or as proved.
"""
import os
import pickle
import select
import signal
import tempfile
import time
import traceback
from pyver import sym

WORKERS = 8
TRUSTED = [
    'z3 5.3.2 (linear and non-linear arithmetic), cvc5 for what z3 leaves open',
    'pyver.cas: exact polynomial / rational function arithmetic',
    'pyver.sym / pyver.load: path exploration by running the unmodified source text of /repo under CPython 3.12 '
    'with symbolic numbers and library stand-ins',
]


class Ob:
    """an obligation, as it came back from a worker"""
    def __init__(self, d):
        self.__dict__.update(d)

    def describe(self):
        return {'obligation': self.name, 'status': self.status, 'note': self.note, 'path_decisions': self.path,
                'model': self.model, 'vcs': self.vcs, 'extra': self.extra}


def pack(o):
    return {k: getattr(o, k) for k in ('name', 'status', 'vcs', 'ok', 'note', 'model', 'path', 'how', 'cases')} | \
        {'extra': None if o.extra is None else str(o.extra)[:3000]}


class Result:
    def __init__(self, pid):
        self.pid = pid
        self.obs = []
        self.functions = set()
        self.executed = set()
        self.used = set()
        self.stats = {'paths': 0, 'solver_seconds': 0.0, 'solver_calls': 0}
        self.backends = {}
        self.per_target = []
        self.extra_assumptions = []
        self.extra_trusted = []
        self.notes = []

    def refuted(self):
        return [o for o in self.obs if o.status == 'refuted']

    def undecided(self):
        return [o for o in self.obs if o.status == 'undecided']

    def coverage(self):
        return {
            'obligations': len(self.obs),
            'discharged': sum(o.status == 'discharged' for o in self.obs),
            'verification_conditions': sum(o.vcs for o in self.obs),
            'verification_conditions_by_back_end': dict(sorted(self.backends.items())),
            'functions_under_contract': sorted(self.functions),
            'functions_executed_inline_in_obligations': sorted(
                f for f in self.executed if 'delayed_image.' + f not in self.functions and '<' not in f.rpartition('.')[2]),
            'paths': self.stats['paths'],
            'solver_seconds': round(self.stats['solver_seconds'], 1),
            'solver_calls': self.stats['solver_calls'],
            'targets': self.per_target,
            'obligation_names': [o.name + ('' if o.status == 'discharged' else ' [' + o.status + ']') for o in self.obs][:400],
            'not_run': self.notes,
        }

    def trusted(self):
        return TRUSTED + self.extra_trusted + sorted(u for u in self.used if u.startswith('trusted'))

    def assumptions(self):
        return self.extra_assumptions + sorted(u for u in self.used if not u.startswith('trusted'))


def run_target(t, w, props, deadline, tier):
    """in a worker: explore one target"""
    e = sym.Engine(t.name, max_paths=getattr(t, 'max_paths', 40000), deadline=deadline)
    t0 = time.time()
    err = None
    executed = watch(w)
    try:
        e.explore(lambda e: t.run(e, w, props))
    except Exception:
        err = traceback.format_exc()
    obs = [pack(o) for o in e.obs.values()]
    if err:
        obs.append(undecided(t.name + ': verifier', 'internal error: ' + err.strip().splitlines()[-1], err))
    elif not obs and not getattr(t, 'optional', False):
        obs.append(undecided(t.name + ': vacuous', 'no obligation was generated'))
    elif obs and not e.covered:
        obs.append(undecided(t.name + ': vacuous', 'no path reaches the end of the function'))
    return {'obs': obs, 'used': e.used, 'paths': e.paths, 'solver': e.solver_time, 'calls': e.solver_calls,
            'backends': e.backends, 'covered': sorted(e.covered), 'functions': t.functions(w) if obs else [], 'executed': sorted(executed),
            'seconds': round(time.time() - t0, 1)}


def watch(w):
    """names of the functions of /repo that are executed, recorded by the interpreter"""
    import sys
    out = set()
    root = os.path.realpath(w.env.repo) + os.sep
    mon = sys.monitoring
    mon.use_tool_id(3, 'pyver')

    def start(code, offset):
        f = code.co_filename
        if os.path.realpath(f).startswith(root):
            out.add('{}.{}'.format(os.path.basename(f)[:-3], code.co_qualname))
        return mon.DISABLE
    mon.register_callback(3, mon.events.PY_START, start)
    mon.set_events(3, mon.events.PY_START)
    return out


def undecided(name, note, extra=None):
    return dict(name=name, status='undecided', vcs=1, ok=0, note=note, model=None, path=None, how={}, extra=extra, cases=[])


def run_contracts(cm, pid, tier, repo, deadline, seed):
    res = Result(pid)
    res.extra_assumptions = list(getattr(cm, 'ASSUMPTIONS', []))
    res.extra_trusted = list(getattr(cm, 'TRUSTED', []))
    props = getattr(cm, 'PROPS', [pid])
    targets = list(cm.targets(tier))
    worlds = {}

    def world(t):
        k = getattr(t, 'world', None) or default_world
        if k not in worlds:
            worlds[k] = k(repo)
        return worlds[k]
    ready = []
    for t in targets:
        try:
            ready.append((t, world(t)))
        except Exception as ex:
            res.obs.append(Ob(undecided(t.name + ': loading', '%s: %s' % (type(ex).__name__, ex), traceback.format_exc())))
        except sym.Control as ex:
            res.obs.append(Ob(undecided(t.name + ': loading', 'unsupported: %s' % ex)))
    tmp = tempfile.mkdtemp(prefix='pyver')
    todo = list(ready)
    running = {}
    try:
        while todo or running:
            while todo and len(running) < WORKERS:
                t, w = todo.pop(0)
                path = os.path.join(tmp, '%d' % len(todo))
                pid_ = os.fork()
                if pid_ == 0:
                    try:
                        os.setpgid(0, 0)
                        out = run_target(t, w, props, deadline - 15, tier)
                        with open(path + '.part', 'wb') as f:
                            pickle.dump(out, f)
                        os.rename(path + '.part', path)
                    except BaseException:
                        with open(path + '.err', 'w') as f:
                            f.write(traceback.format_exc())
                    finally:
                        os._exit(0)
                running[pid_] = (t, path, time.time())
            done = [p for p in running if os.waitpid(p, os.WNOHANG)[0]]
            if not done:
                if time.time() > deadline:
                    for p in running:
                        kill(p)
                        os.waitpid(p, 0)
                    done = list(running)
                    todo_left, todo = todo, []
                    for t, w in todo_left:
                        res.obs.append(Ob(undecided(t.name + ': time', 'not started before the deadline')))
                else:
                    time.sleep(.02)
            for p in done:
                t, path, t0 = running.pop(p)
                kill(p)
                if not os.path.exists(path):
                    why = 'no result before the deadline'
                    if os.path.exists(path + '.err'):
                        why = open(path + '.err').read().strip()[-300:]
                    res.obs.append(Ob(undecided(t.name + ': time', why)))
                    continue
                merge(res, t, pickle.load(open(path, 'rb')))
    finally:
        for p in running:
            kill(p)
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)
    res.obs.sort(key=lambda o: o.name)
    if not res.obs:
        res.obs.append(Ob(undecided(pid + ': vacuous', 'no obligation was generated')))
    return res


def kill(p):
    try:
        os.killpg(p, signal.SIGKILL)
    except OSError:
        pass


def merge(res, t, out):
    if not out['obs']:
        res.notes.append(t.name + ': the function does not exist in this tree')
    res.obs += [Ob(o) for o in out['obs']]
    res.functions |= set(out['functions'])
    res.executed |= set(out['executed'])
    res.used |= out['used']
    res.stats['paths'] += out['paths']
    res.stats['solver_seconds'] += out['solver']
    res.stats['solver_calls'] += out['calls']
    for k, v in out['backends'].items():
        res.backends[k] = res.backends.get(k, 0) + v
    res.per_target.append({'target': t.name, 'obligations': len(out['obs']),
                           'discharged': sum(o['status'] == 'discharged' for o in out['obs']),
                           'paths': out['paths'], 'seconds': out['seconds']})


def default_world(repo):
    from pyver import nodes
    return nodes.World(repo)
