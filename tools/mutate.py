"""Mutation campaign (a development aid, not a check): syntactic mutants of the
toolkit, each run against the checks of its file.
usage: mutate.py FILE[,FILE] PER_FILE OFFSET OUT [jobs]"""
import ast
import json
import os
import re
import shutil
import subprocess
import sys
from multiprocessing import Pool

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
MAP = {'glib': 'P01 P02 P03 P22', 'glibShapes': 'P04 P03 P22', 'gShapeGL': 'P05 P22', 'pg2Multi': 'P06 P22', 'translations': 'P07 P22', 'translationRecurs': 'P07 P22',
       'rotations': 'P08 P22', 'multipoleLib': 'P11 P10 P09 P22', 'clebschGordan': 'P12 P22', 'qlm': 'P13 P21', 'qlmACH': 'P14 P21', 'bigQlm': 'P15 P21',
       'bigQlmNum': 'P15 P21', 'qlmNum': 'P16 P21', 'read_multiFor': 'P18 P17', 'shapes': 'P19', 'genCAD': 'P20'}
SKIP = {'transl_yuk_z_SR_recurs', 'transl_yuk_z_RR_recurs', 'display_points', 'cyl_mom_', 'multipole_force_m_'}
NAMES = {'sin': 'cos', 'cos': 'sin', 'tan': 'sin', 'conj': 'real', 'abs': 'real', 'sum': 'prod', 'max': 'min', 'min': 'max', 'arctan2': 'hypot', 'real': 'imag', 'any': 'all', 'all': 'any',
         'floor': 'ceil', 'ones': 'zeros', 'gammaln': 'gamma', 'copy': 'array', 'sqrt': 'abs'}


def sites(src, skipmod=''):
    tree = ast.parse(src)
    lines = src.split('\n')
    off = [0]
    for l in lines:
        off.append(off[-1]+len(l.encode())+1)
    b = src.encode()

    def span(n):
        return off[n.lineno-1]+n.col_offset, off[n.end_lineno-1]+n.end_col_offset
    out = []

    def add(n, new, kind, s=None):
        a, z = s or span(n)
        out.append((a, z, new, kind, fn[-1] if fn else '<module>'))
    fn = []

    def opsite(l, r, old, new, kind):
        a, z = span(l)[1], span(r)[0]
        t = b[a:z].decode()
        k = t.find(old)
        if k >= 0:
            out.append((a+k, a+k+len(old), new, kind, fn[-1] if fn else '<module>'))

    def visit(n):
        if isinstance(n, ast.FunctionDef):
            if n.name in SKIP or (n.name == 'cyl_mom' and skipmod == 'qlm'):
                return
            fn.append(n.name)
            for c in n.body[(1 if ast.get_docstring(n) else 0):]:
                visit(c)
            fn.pop()
            return
        if isinstance(n, ast.ClassDef):
            fn.append(n.name)
            for c in n.body:
                visit(c)
            fn.pop()
            return
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and getattr(n.value.func, 'id', '') == 'print':
            return
        if isinstance(n, ast.Raise):
            return
        if isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool):
                add(n, repr(not v), 'bool')
            elif isinstance(v, int):
                add(n, repr(v+1), 'int+')
                if v > 1:
                    add(n, repr(v-1), 'int-')
            elif isinstance(v, float):
                add(n, repr(v*1.001+(v == 0)*1e-3), 'float')
            return
        if isinstance(n, ast.BinOp):
            m = {ast.Add: ('+', '-'), ast.Sub: ('-', '+'), ast.Mult: ('*', '/'), ast.Div: ('/', '*')}.get(type(n.op))
            if m:
                opsite(n.left, n.right, *m, 'op'+m[0])
        if isinstance(n, ast.AugAssign):
            m = {ast.Add: ('+=', '-='), ast.Sub: ('-=', '+='), ast.Mult: ('*=', '/='), ast.Div: ('/=', '*=')}.get(type(n.op))
            if m:
                opsite(n.target, n.value, *m, 'aug')
            add(n, 'pass', 'delete')
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Subscript, ast.Attribute)):
            add(n, 'pass', 'delete')
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            m = {ast.Lt: ('<', '<='), ast.LtE: ('<=', '<'), ast.Gt: ('>', '>='), ast.GtE: ('>=', '>'), ast.Eq: ('==', '!='), ast.NotEq: ('!=', '==')}.get(type(n.ops[0]))
            if m:
                opsite(n.left, n.comparators[0], *m, 'cmp')
        if isinstance(n, ast.BoolOp):
            old, new = ('and', 'or') if isinstance(n.op, ast.And) else ('or', 'and')
            opsite(n.values[0], n.values[1], old, new, 'bool')
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            a, z = span(n)
            add(n, '+', 'neg', (a, a+1))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            a, z = span(n)
            add(n, '', 'not', (a, a+4))
        if isinstance(n, (ast.If, ast.While)):
            if isinstance(n, ast.If):
                add(n.test, 'False', 'if')
                add(n.test, 'True', 'if')
        if isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Attribute) and f.attr in NAMES:
                a, z = span(f)
                add(f, NAMES[f.attr], 'name', (z-len(f.attr), z))
            for x, y in zip(n.args, n.args[1:]):
                if not isinstance(x, ast.Starred) and not isinstance(y, ast.Starred):
                    (a, z), (c, d) = span(x), span(y)
                    add(n, b[c:d].decode()+b[z:c].decode()+b[a:z].decode(), 'swap', (a, d))
        for c in ast.iter_child_nodes(n):
            visit(c)
    for n in tree.body:
        visit(n)
    seen, res = set(), []
    for s in out:
        if s[:3] not in seen and b[s[0]:s[1]].decode() != s[2]:
            seen.add(s[:3])
            res.append(s)
    return res


def msites(src):
    """Octave: textual"""
    out = []
    pos = 0
    for line in src.split('\n'):
        code = line.split('%')[0]
        if not line.startswith(('%', '#')) and not code.strip().startswith(('function', "'", 'tic', 'toc', 'error', 'xlabel', 'plot')):
            for m in re.finditer(r'(?<=[\w\)\s])[-+*/](?=[\s\w\(])|\d+\.?\d*(e-?\d+)?|\b(cos|sin|min|max|sqrt|rows|columns|floor)\b|<=|>=|<|>|==', code):
                t = m.group(0)
                new = {'+': '-', '-': '+', '*': '/', '/': '*', 'cos': 'sin', 'sin': 'cos', 'min': 'max', 'max': 'min', 'sqrt': 'abs', 'rows': 'columns', 'columns': 'rows', 'floor': 'ceil',
                       '<': '<=', '>': '>=', '<=': '<', '>=': '>', '==': '!='}.get(t)
                if new is None:
                    new = str(int(t)+1) if t.isdigit() else repr(float(t)*1.01)
                out.append((pos+m.start(), pos+m.end(), new, 'oct', line.strip()[:40]))
        pos += len(line)+1
    return out


def one(job):
    rel, site, pids, w = job
    wid = os.getpid()
    root = f'/tmp/mut/{wid}'
    if not os.path.exists(root):
        os.makedirs(root)
        shutil.copytree(REPO+'/newt', root+'/r/newt', ignore=shutil.ignore_patterns('tests', 'docs', '__pycache__'))
        shutil.copytree(REPO+'/matlab-src', root+'/r/matlab-src')
        shutil.copytree(HERE+'/mc', root+'/v/mc', ignore=shutil.ignore_patterns('__pycache__'))
        shutil.copy(HERE+'/known_findings.txt', root+'/v/')
    src = open(f'{REPO}/{rel}', 'rb').read()
    a, z, new, kind, fn = site
    mut = src[:a]+new.encode()+src[z:]
    ln = src[:a].count(b'\n')
    desc = dict(file=rel, line=ln+1, fn=fn, kind=kind, old=src[a:z].decode(), new=new, before=src.split(b'\n')[ln].decode().strip(), site=[a, z, new])
    if rel.endswith('.py'):
        try:
            compile(mut, rel, 'exec')
        except SyntaxError:
            desc['result'] = 'syntax'
            return desc
    with open(f'{root}/r/{rel}', 'wb') as f:
        f.write(mut)
    env = dict(os.environ, PYTHONPATH=f'{root}/r:{root}/v', PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MPLBACKEND='Agg', PYTHONHASHSEED='0', PYTHONWARNINGS='ignore')
    desc['result'] = 'SURVIVED'
    try:
        for pid in pids:
            tries = [['--only', fn]] if pid == 'P22' else [['--only', fn], []] if rel.endswith('.py') else [[]]
            for extra in tries:
                try:
                    p = subprocess.run(['/opt/venv/bin/python', '-m', 'mc.main', pid, '--jobs', '1', '--failfast', *extra], env=env, cwd=root, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=900)
                except subprocess.TimeoutExpired:
                    desc['result'] = 'timeout '+pid
                    return desc
                if p.returncode == 1:
                    desc['result'] = 'caught '+pid
                    return desc
                if p.returncode != 0:
                    desc['result'] = f'exit {p.returncode} {pid}'
                    desc['out'] = p.stdout.decode()[-300:]
                    return desc
    finally:
        with open(f'{root}/r/{rel}', 'wb') as f:
            f.write(src)
    return desc


def main():
    files, per, offset, out = sys.argv[1].split(','), int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    jobs = int(sys.argv[5]) if len(sys.argv) > 5 else 8
    work = []
    for f in files:
        if f.endswith('.m'):
            rel = 'matlab-src/'+f
            s = msites(open(f'{REPO}/{rel}').read())
            pids = ['P23']
        else:
            rel = f'newt/{f}.py'
            s = sites(open(f'{REPO}/{rel}').read(), f)
            pids = MAP[f].split()
        step = max(1, len(s)//per)
        pick = s[offset % step::step]
        print(f, len(s), 'sites', len(pick), 'picked')
        work += [(rel, x, pids, 0) for x in pick]
    n = {}
    with Pool(jobs) as p, open(out, 'a') as g:
        for d in p.imap_unordered(one, work, chunksize=1):
            g.write(json.dumps(d)+'\n')
            g.flush()
            n[d['result']] = n.get(d['result'], 0)+1
    print(n)


if __name__ == '__main__':
    main()
