"""Runs one check: deductive layer, bounded layer, verdict and evidence"""
import importlib
import json
import os
import random
import subprocess
import time
import traceback


def known_findings(here, pid):
    out = []
    path = os.path.join(here, 'KNOWN_FINDINGS.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('finding: property={} '.format(pid)):
                out.append(line[len('finding: property={} '.format(pid)):])
    return out


def run_bounded(pid, modname, seed, seconds, deadline):
    """returns dict(result) with first failing (shrunk) case if any"""
    import view
    mod = importlib.import_module(modname)
    P = getattr(mod, pid)()
    res = {'evaluations': 0, 'fixed': 0, 'random': 0, 'fail': None, 'samples': []}
    seen = set()
    t0 = time.time()

    def go(case):
        res['evaluations'] += 1
        seen.add(json.dumps(case, sort_keys=True, default=str))
        return view.guarded(P.check, case)

    def fail(case, msg):
        try:
            t1 = time.time()

            def fails(c):
                if time.time() - t1 > 30:
                    return False
                try:
                    return bool(view.guarded(P.check, c))
                except Exception:
                    return False
            small = P.shrink(case, fails)
            m2 = view.guarded(P.check, small)
            if m2:
                case, msg = small, m2
        except Exception:
            pass
        res['fail'] = (case, msg)

    for case in P.fixed():
        msg = go(case)
        res['fixed'] += 1
        if msg:
            fail(case, msg)
            break
        if time.time() > deadline:
            break
    rng = random.Random(seed)
    if not res['fail']:
        while time.time() - t0 < seconds and time.time() < deadline:
            case = json.loads(json.dumps(P.gen(rng)))
            res['random'] += 1
            if len(res['samples']) < 3:
                res['samples'].append(case)
            msg = go(case)
            if msg:
                fail(case, msg)
                break
    res['distinct'] = len(seen)
    res['seconds'] = round(time.time() - t0, 2)
    return res


def run(pid, tier, seed, t0, here, repo, modname, budget, hard):
    deadline = t0 + hard
    lines = []

    def say(s):
        lines.append(s)
        print(s, flush=True)

    # ---------------------------------------------------- deductive layer
    ded = None
    ded_error = None
    try:
        cm = importlib.import_module('contracts.' + pid)
    except ModuleNotFoundError as ex:
        if 'contracts' not in str(ex):
            raise
        cm = None
    if cm is not None:
        from pyver import verify
        try:
            ded = verify.run_contracts(cm, pid, tier, repo, t0 + hard * .6, seed)
        except Exception:
            ded_error = traceback.format_exc()
            say('NOTE {}: the deductive layer failed to run on this tree: {}'.format(
                pid, ded_error.strip().splitlines()[-1]))
    # ---------------------------------------------------- bounded layer
    secs = budget
    refuted = ded.refuted() if ded else []
    undecided = ded.undecided() if ded else []
    fail = None
    # counterexamples first: concretised and replayed on the real code
    if refuted:
        import view
        mod = importlib.import_module(modname)
        P = getattr(mod, pid)()
        for ob in refuted[:40]:
            for case in ob.cases:
                try:
                    msg = view.guarded(P.check, case)
                except Exception:
                    msg = None
                if msg:
                    fail = (case, msg, ob)
                    break
            if fail:
                break
    if refuted or undecided or ded_error:
        secs = max(secs, min(240, secs * 4))
    b = None
    if not fail:
        b = run_bounded(pid, modname, seed, secs, deadline)
        if b['fail']:
            fail = b['fail'] + (refuted[0] if refuted else None,)
    # ---------------------------------------------------- verdict
    evdir = os.environ.get('VERIF_EVIDENCE') or os.path.join(here, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    code = 0
    for k in known_findings(here, pid):
        say('KNOWN-FINDING: property={} {}'.format(pid, k))
    if fail:
        path = os.path.join(evdir, '{}.replay.json'.format(pid))
        case, msg, ob = fail
        with open(path, 'w') as f:
            json.dump({'property': pid, 'case': case, 'message': msg,
                       'obligation': ob.describe() if ob else None,
                       'rerun': '/opt/venv/bin/python {}/check.py {} --replay {}'.format(here, pid, path)},
                      f, indent=1, default=str)
        say('{}: {}'.format(pid, msg))
        if ob:
            say('failed obligation: {}'.format(ob.name))
        say('VIOLATION property={} replay={}'.format(pid, path))
        code = 1
    elif refuted:
        path = os.path.join(evdir, '{}.replay.json'.format(pid))
        with open(path, 'w') as f:
            json.dump({'property': pid, 'obligations': [o.describe() for o in refuted[:10]]},
                      f, indent=1, default=str)
        for o in refuted[:5]:
            say('failed obligation: {}'.format(o.name))
        say('VIOLATION property={} replay={} no-failing-input-found'.format(pid, path))
        code = 1
    if undecided:
        for o in undecided[:8]:
            say('NOTE {}: undecided obligation {} ({}); decided by the bounded layer only'.format(pid, o.name, o.note))
    # ---------------------------------------------------- evidence
    cov = {}
    assumptions = []
    level = 'exploration'
    if ded is not None:
        level = cm.LEVEL if not undecided and not refuted else 'exploration'
        cov.update(ded.coverage())
        cov['checker_cmd'] = 'cd {} && {} check.py {}'.format(here, '/opt/venv/bin/python', pid)
        cov['trusted_base'] = ded.trusted()
        assumptions = ded.assumptions()
        say('{}: {} obligations, {} discharged, {} refuted, {} undecided; {} functions under contract; {} paths; solver {:.1f}s'.format(
            pid, cov['obligations'], cov['discharged'], len(refuted), len(undecided),
            len(cov['functions_under_contract']), cov['paths'], cov['solver_seconds']))
    if b is not None:
        cov['evaluations'] = b['evaluations']
        cov['distinct_nontrivial'] = b['distinct']
        cov['rule'] = ('bounded layer (not counted as proved): fixed small cases plus seeded random cases on the real '
                       'code against an independent oracle; distinct by their JSON text')
        cov['samples'] = b['samples'] or ['none']
        cov['bounded_fixed_cases'] = b['fixed']
        cov['bounded_random_cases'] = b['random']
        say('{}: bounded layer {} cases ({} fixed, {} random) in {}s'.format(
            pid, b['evaluations'], b['fixed'], b['random'], b['seconds']))
    else:
        cov.update({'evaluations': 1, 'distinct_nontrivial': 1, 'rule': 'replay of a counterexample', 'samples': [fail[0]]})
    if ded_error:
        cov['deductive_layer_error'] = ded_error[-1500:]
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': assumptions, 'wall_s': round(time.time() - t0, 2), 'violations': code}
    with open(os.path.join(evdir, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    if code == 0:
        say('{}: holds on everything explored'.format(pid))
    return code
