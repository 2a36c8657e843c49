"""Mutation study (a development tool, no check runs it):  mutate.py OUTDIR N SEED [file:regex ...]

Generates small source mutants of /repo in scratch copies, drops those that fail the stable tests, and
runs the bounded layer of the properties on the rest.  Survivors are to be read by hand."""
import ast
import json
import multiprocessing as mp
import os
import random
import re
import shutil
import subprocess
import sys
import time

REPO = '/repo'
FILES = ['delayed_nodes.py', 'delayed_leafs.py', 'delayed_base.py', 'helpers.py', 'lazy_loaders.py']
SKIP = re.compile(r'print|network_text|_validate|demo|nesting|__nice__|__repr__|__str__|DEBUG|debug|TRACE|rich|_opt_logs|_version|coordinate_crop')
SWAP = {'x': 'y', 'w': 'h', 'width': 'height', 'start': 'stop', 'inner': 'outer', 'sx': 'sy', 'tx': 'ty', 'min': 'max', 'ceil': 'floor',
        'xstart': 'ystart', 'sub_w': 'sub_h', 'lt_x': 'lt_y', 'rb_x': 'rb_y', 'padw': 'padh', 'tf1': 'tf2', 'any': 'all', 'src': 'dst'}
SWAP.update({v: k for k, v in list(SWAP.items())})


def offset(src):
    starts = [0]
    for line in src.split('\n'):
        starts.append(starts[-1] + len(line.encode()) + 1)
    return lambda l, c: starts[l - 1] + c


def mutants(name):
    src = open(os.path.join(REPO, 'delayed_image', name)).read()
    raw = src.encode()
    pos = offset(src)
    tree = ast.parse(src)
    out = []

    def seg(n):
        return pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)

    def rep(n, text, what):
        a, b = seg(n)
        old = raw[a:b].decode()
        if old != text:
            out.append((name, cur[-1], n.lineno, a, b, text, '%s: %s -> %s' % (what, old[:90], text[:90])))

    def txt(n):
        a, b = seg(n)
        return raw[a:b].decode()
    cur = ['<module>']

    def visit(n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            if SKIP.search(n.name):
                return
            cur.append(cur[-1] + '.' + n.name)
            for c in n.body:
                visit(c)
            cur.pop()
            return
        infn = '.' in cur[-1]
        if isinstance(n, ast.stmt) and SKIP.search(txt(n).split('\n')[0]):
            return
        if isinstance(n, ast.stmt) and infn:
            if isinstance(n, (ast.Assign, ast.AugAssign)) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
                tgt = n.targets[0] if isinstance(n, ast.Assign) else None
                if tgt is None or not isinstance(tgt, ast.Name):
                    rep(n, 'pass', 'drop')
            if isinstance(n, (ast.Continue, ast.Break)):
                rep(n, 'pass', 'drop')
        if infn and isinstance(n, ast.expr):
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                m = {ast.Lt: ['<=', '>'], ast.LtE: ['<'], ast.Gt: ['>='], ast.GtE: ['>'], ast.Eq: ['!='], ast.NotEq: ['=='], ast.Is: ['is not'],
                     ast.IsNot: ['is'], ast.In: ['not in'], ast.NotIn: ['in']}[type(n.ops[0])]
                for o in m:
                    rep(n, '%s %s %s' % (txt(n.left), o, txt(n.comparators[0])), 'cmp')
            if isinstance(n, ast.BoolOp):
                o = ' or ' if isinstance(n.op, ast.And) else ' and '
                rep(n, '(' + o.join('(%s)' % txt(v) for v in n.values) + ')', 'bool')
                for i in range(len(n.values)):
                    o = ' and ' if isinstance(n.op, ast.And) else ' or '
                    rep(n, '(' + o.join('(%s)' % txt(v) for j, v in enumerate(n.values) if j != i) + ')', 'dropterm')
            if isinstance(n, ast.UnaryOp):
                rep(n, '(%s)' % txt(n.operand), 'unary')
            if isinstance(n, ast.BinOp):
                m = {ast.Add: ['-'], ast.Sub: ['+'], ast.Mult: ['/'], ast.Div: ['*', '//'], ast.FloorDiv: ['/'], ast.MatMult: ['SW']}.get(type(n.op), [])
                for o in m:
                    if o == 'SW':
                        rep(n, '(%s) @ (%s)' % (txt(n.right), txt(n.left)), 'swap')
                    else:
                        rep(n, '(%s) %s (%s)' % (txt(n.left), o, txt(n.right)), 'arith')
                if m:
                    rep(n, '(%s)' % txt(n.left), 'left')
            if isinstance(n, ast.IfExp):
                rep(n, '(%s)' % txt(n.body), 'ifexp')
                rep(n, '(%s)' % txt(n.orelse), 'ifexp')
            if isinstance(n, ast.Constant) and type(n.value) in (int, float, bool):
                v = n.value
                rep(n, repr(not v) if type(v) is bool else repr(v + 1), 'const')
                if v == 1 and type(v) is int:
                    rep(n, '0', 'const')
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                for k, v in SWAP.items():
                    if n.id == k or n.id.endswith('_' + k) or n.id.startswith(k + '_'):
                        new = v if n.id == k else (n.id[:-len(k)] + v if n.id.endswith('_' + k) else v + n.id[len(k):])
                        if re.search(r'\b%s\b' % re.escape(new), src):
                            rep(n, new, 'name')
            if isinstance(n, ast.Attribute) and n.attr in SWAP and isinstance(n.ctx, ast.Load):
                rep(n, '%s.%s' % (txt(n.value), SWAP[n.attr]), 'attr')
            if isinstance(n, ast.Call):
                if isinstance(n.func, ast.Attribute) and n.func.attr in ('copy', 'inv', 'decompose', 'ravel', 'normalize', 'concise', 'quantize') and not n.args:
                    rep(n, txt(n.func.value), 'dropcall')
                if len(n.args) == 2 and not n.keywords:
                    rep(n, '%s(%s, %s)' % (txt(n.func), txt(n.args[1]), txt(n.args[0])), 'args')
                for k in n.keywords:
                    if k.arg:
                        a, b = seg(k)
                        rest = raw[b:b + 40].decode(errors='ignore')
                        m2 = re.match(r'\s*,\s*', rest)
                        out.append((name, cur[-1], n.lineno, a, b + (m2.end() if m2 else 0), '', 'kw: drop %s' % raw[a:b].decode()[:60]))
        if isinstance(n, ast.If) and infn:
            rep(n.test, 'True', 'if')
            rep(n.test, 'False', 'if')
        if isinstance(n, (ast.Dict, ast.List, ast.Tuple)) and infn and len(getattr(n, 'elts', getattr(n, 'keys', []))) == 2 and isinstance(n, (ast.List, ast.Tuple)) and isinstance(n.ctx, ast.Load):
            rep(n, ('(%s, %s)' if isinstance(n, ast.Tuple) else '[%s, %s]') % (txt(n.elts[1]), txt(n.elts[0])), 'swap2')
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.arguments, ast.keyword, ast.expr, ast.stmt, ast.comprehension, ast.ExceptHandler)) and not (isinstance(n, ast.arg)):
                visit(c)
    for c in tree.body:
        visit(c)
    good = []
    for m in out:
        new = raw[:m[3]] + m[5].encode() + raw[m[4]:]
        try:
            ast.parse(new)
        except SyntaxError:
            continue
        good.append(m)
    return good


PROPS = ['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C12', 'C13', 'C14', 'C15', 'C16', 'C17', 'C18']
BOUNDED = r'''
import sys, os, json, time, warnings
warnings.simplefilter('ignore')
repo, secs, props = sys.argv[1], float(sys.argv[2]), sys.argv[3:]
sys.path[:0] = [repo, '/verif', '/verif/bounded']
import trees
s = trees.scratch()
os.environ['XDG_CACHE_HOME'] = os.path.join(s, 'cache'); os.environ['TMPDIR'] = s
import delayed_image
assert delayed_image.__file__.startswith(repo + '/')
from pyver import driver
M = {'C12': 'data', 'C13': 'data', 'C14': 'data'}
for p in props:
    try:
        r = driver.run_bounded(p, M.get(p, 'view'), 1, secs, time.time() + 3 * secs + 60)
    except BaseException as ex:
        print('CAUGHT', p, 'exception', repr(ex)[:200]); sys.exit()
    if r['fail']:
        print('CAUGHT', p, str(r['fail'][1])[:200]); sys.exit()
print('SURVIVED')
'''


def worker(args):
    i, m, outdir, secs = args
    k = mp.current_process()._identity[0]
    d = '%s/w%d' % (outdir, k)
    if not os.path.exists(d):
        shutil.copytree(outdir + '/base', d + '/repo')
    path = '%s/repo/delayed_image/%s' % (d, m[0])
    src = open(os.path.join(outdir, 'base', 'delayed_image', m[0]), 'rb').read()
    res = {'i': i, 'm': m}
    try:
        open(path, 'wb').write(src[:m[3]] + m[5].encode() + src[m[4]:])
        cache = d + '/cache'
        if not os.path.exists(cache):
            shutil.copytree(outdir + '/cache', cache)
        shutil.rmtree(d + '/tmp', ignore_errors=True)
        os.makedirs(d + '/tmp')
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', XDG_CACHE_HOME=cache, TMPDIR=d + '/tmp',
                   PYTHONPATH=d + '/repo', XDG_CONFIG_HOME=d + '/config', XDG_DATA_HOME=d + '/data', OMP_NUM_THREADS='2')
        t = time.time()
        try:
            p = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--timeout=120'] + json.load(open(outdir + '/deselect.json'))
                               + ['delayed_image', 'tests'], cwd=d + '/repo', env=env, capture_output=True, text=True, timeout=240)
            ok = p.returncode == 0
            res['tests'] = p.stdout[-300:] if not ok else 'pass'
        except subprocess.TimeoutExpired:
            ok = False
            res['tests'] = 'timeout'
        res['ttest'] = time.time() - t
        if ok:
            env['PYTHONHASHSEED'] = '0'
            env.pop('PYTHONPATH')
            t = time.time()
            try:
                p = subprocess.run(['/opt/venv/bin/python', '-c', BOUNDED, d + '/repo', str(secs)] + PROPS, cwd=d, env=env, capture_output=True, text=True, timeout=1500)
                res['bounded'] = (p.stdout.strip().split('\n') or [''])[-1] or p.stderr[-300:]
            except subprocess.TimeoutExpired:
                res['bounded'] = 'CAUGHT timeout'
            res['tb'] = time.time() - t
    finally:
        open(path, 'wb').write(src)
    return res


def main():
    outdir, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    pats = sys.argv[4:]
    os.makedirs(outdir, exist_ok=True)
    shutil.copytree(REPO, outdir + '/base', ignore=shutil.ignore_patterns('.git', '__pycache__'))
    ms = [m for f in FILES for m in mutants(f)]
    if pats:
        ms = [m for m in ms if any(re.search(p, m[0] + ':' + m[1]) for p in pats)]
    print(len(ms), 'mutants')
    random.Random(seed).shuffle(ms)
    ms = ms[:n]
    secs = float(os.environ.get('SECS', 6))
    done = 0
    with mp.Pool(int(os.environ.get('JOBS', 7))) as pool, open(outdir + '/results.jsonl', 'a') as f:
        for r in pool.imap_unordered(worker, [(i, m, outdir, secs) for i, m in enumerate(ms)]):
            f.write(json.dumps(r) + '\n')
            f.flush()
            done += 1
    print('done', done)


if __name__ == '__main__':
    main()
