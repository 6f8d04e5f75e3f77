"""Systematic mutants of weac: which ones pass the tests, and which check reports them.

    python3 tools/mutate.py list OUT.json                all mutants
    python3 tools/mutate.py tests IN.json OUT.json       keep those that pass the tests
    python3 tools/mutate.py checks IN.json OUT.json [--scale X] [--order C05,C01,..]

Mutants live in scratch copies under /tmp only.
"""
import argparse
import ast
import json
import os
import shutil
import subprocess
import sys
import tempfile
import threading
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = ['eigensystem', 'mixins', 'tools', 'inverse', 'layered', 'plot']
SWAP = {'kn': 'kt', 'kt': 'kn', 'h': 't', 't': 'h', 'A11': 'B11', 'B11': 'D11', 'D11': 'A11', 'zs': 'h', 'a': 'td', 'td': 'a',
        'ewC': 'ewR', 'sC': 'sR', 'qn': 'qt', 'qt': 'qn', 'pn': 'pt', 'pt': 'pn', 'sin': 'cos', 'cos': 'sin',
        'sig': 'tau', 'tau': 'sig', 'w': 'psi', 'psi': 'w', 'N': 'V', 'V': 'N', 'M': 'V'}
OPS = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.Pow: '*', ast.FloorDiv: '/', ast.BitAnd: '|', ast.BitOr: '&'}
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.In: 'not in', ast.NotIn: 'in',
       ast.Is: 'is not', ast.IsNot: 'is'}


# checks to try first
NEAR = {'plot': ['C22', 'C28'], 'tools': ['C25', 'C24', 'C19', 'C01', 'C14'], 'inverse': ['C20'], 'layered': ['C01', 'C20'],
        'eigensystem': ['C05', 'C01', 'C02', 'C03', 'C26']}
MIXINS = [(300, ['C15', 'C05', 'C11', 'C14']), (365, ['C11', 'C12', 'C15']), (460, ['C03', 'C13']),
          (830, ['C17', 'C27', 'C16', 'C19', 'C04']),
          (978, ['C05', 'C04', 'C21']), (1090, ['C27', 'C05']), (1310, ['C05', 'C21', 'C24', 'C04']), (1364, ['C10']),
          (1415, ['C12']), (1480, ['C11']), (1515, ['C26', 'C13']), (1660, ['C13']), (1800, ['C14', 'C21']),
          (1940, ['C23']), (9999, ['C15'])]


def mutants(name):
    path = f'/repo/weac/{name}.py'
    src = open(path).read()
    lines = src.splitlines(keepends=True)
    start = [0]
    for l in lines:
        start.append(start[-1] + len(l.encode()))
    raw = src.encode()
    pos = lambda l, c: start[l - 1] + c
    out = []

    def add(a, b, new, what, line):
        out.append({'file': name, 'a': a, 'b': b, 'new': new, 'what': what, 'line': line,
                    'text': lines[line - 1].strip()})

    tree = ast.parse(src)
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.FunctionDef, ast.ClassDef)) and n.body and isinstance(n.body[0], ast.Expr):
            doc.add(id(n.body[0]))
            doc.add(id(n.body[0].value))
    ann = set()
    for n in ast.walk(tree):
        for f in ('annotation', 'returns'):
            v = getattr(n, f, None)
            if isinstance(v, ast.AST):
                ann |= {id(x) for x in ast.walk(v)}
    for n in ast.walk(tree):
        if id(n) in doc or id(n) in ann:
            continue
        if isinstance(n, ast.BinOp) and type(n.op) in OPS:
            a, b = pos(n.left.end_lineno, n.left.end_col_offset), pos(n.right.lineno, n.right.col_offset)
            gap = raw[a:b].decode()
            sym = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.Pow: '**', ast.FloorDiv: '//',
                   ast.BitAnd: '&', ast.BitOr: '|'}[type(n.op)]
            if gap.count(sym) >= 1 and '#' not in gap:
                add(a, b, gap.replace(sym, OPS[type(n.op)], 1), f'{sym} -> {OPS[type(n.op)]}', n.left.end_lineno)
        elif isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            a, b = pos(n.left.end_lineno, n.left.end_col_offset), pos(n.comparators[0].lineno, n.comparators[0].col_offset)
            gap = raw[a:b].decode()
            if '(' not in gap and ')' not in gap:
                add(a, b, f' {CMP[type(n.ops[0])]} ', f'{gap.strip()} -> {CMP[type(n.ops[0])]}', n.lineno)
        elif isinstance(n, ast.BoolOp):
            a, b = pos(n.values[0].end_lineno, n.values[0].end_col_offset), pos(n.values[1].lineno, n.values[1].col_offset)
            gap = raw[a:b].decode()
            for x, y in (('and', 'or'), ('or', 'and')):
                if x in gap:
                    add(a, b, gap.replace(x, y), f'{x} -> {y}', n.lineno)
                    break
        elif isinstance(n, ast.UnaryOp):
            a, b = pos(n.lineno, n.col_offset), pos(n.operand.lineno, n.operand.col_offset)
            add(a, b, '', 'drop ' + raw[a:b].decode().strip(), n.lineno)
        elif isinstance(n, ast.Constant) and not isinstance(n.value, (str, bytes)) and n.value is not None and n.value is not Ellipsis:
            a, b = pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)
            v = n.value
            new = [str(not v)] if isinstance(v, bool) else [str(v + 1)] if isinstance(v, int) else [repr(v * 1.1)]
            for w in new:
                add(a, b, w, f'{v} -> {w}', n.lineno)
        elif isinstance(n, ast.Attribute) and n.attr in SWAP and isinstance(n.ctx, ast.Load):
            b = pos(n.end_lineno, n.end_col_offset)
            add(b - len(n.attr), b, SWAP[n.attr], f'{n.attr} -> {SWAP[n.attr]}', n.end_lineno)
        elif isinstance(n, ast.Name) and n.id in SWAP and isinstance(n.ctx, ast.Load):
            a, b = pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)
            add(a, b, SWAP[n.id], f'{n.id} -> {SWAP[n.id]}', n.lineno)
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise)) and not (
                isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name)):
            a, b = pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)
            add(a, b, 'pass', 'drop statement', n.lineno)
        elif isinstance(n, ast.If):
            a, b = pos(n.test.lineno, n.test.col_offset), pos(n.test.end_lineno, n.test.end_col_offset)
            add(a, b, 'True', 'if True', n.lineno)
            add(a, b, 'False', 'if False', n.lineno)
    good = []
    for k, m in enumerate(out):
        new = (raw[:m['a']] + m['new'].encode() + raw[m['b']:]).decode()
        try:
            ast.parse(new)
        except SyntaxError:
            continue
        m['id'] = f'{name}-{k:04d}'
        good.append(m)
    return good


def apply(m, d):
    raw = open(f'/repo/weac/{m["file"]}.py').read().encode()
    new = raw[:m['a']] + m['new'].encode() + raw[m['b']:]
    for f in FILES:
        shutil.copy(f'/repo/weac/{f}.py', f'{d}/weac/{f}.py')
    with open(f'{d}/weac/{m["file"]}.py', 'wb') as f:
        f.write(new)


class Pool:
    def __init__(self, n):
        self.n, self.free, self.lock = n, [], threading.Lock()
        for _ in range(n):
            d = tempfile.mkdtemp(prefix='mutant-')
            subprocess.run(['cp', '-a', '/repo/.', d], check=True)
            shutil.rmtree(d + '/.git', ignore_errors=True)
            self.free.append(d)
        self.all = list(self.free)

    def run(self, f, items):
        def one(m):
            with self.lock:
                d = self.free.pop()
            try:
                apply(m, d)
                return f(m, d)
            finally:
                with self.lock:
                    self.free.append(d)
        try:
            with ThreadPoolExecutor(self.n) as ex:
                return list(ex.map(one, items))
        finally:
            for d in self.all:
                shutil.rmtree(d, ignore_errors=True)


def tests(m, d):
    env = {**os.environ, 'PYTHONDONTWRITEBYTECODE': '1', 'MPLBACKEND': 'Agg', 'OMP_NUM_THREADS': '1', 'PYTHONPATH': d}
    try:
        r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'tests'], cwd=d, env=env,
                           capture_output=True, timeout=120)
        return r.returncode == 0
    except subprocess.TimeoutExpired:
        return False


def main():
    p = argparse.ArgumentParser()
    p.add_argument('mode')
    p.add_argument('files', nargs='+')
    p.add_argument('--scale', default='0.15')
    p.add_argument('--jobs', default='1')
    p.add_argument('--near', action='store_true')
    p.add_argument('--only', action='store_true', help='only the checks of --order')
    p.add_argument('--par', type=int, default=8)
    p.add_argument('--order', default='C05,C15,C01,C13,C10,C02,C21,C12,C11,C03,C14,C23,C16,C04,C25,C28,C22,C27,C26,C24,C19,C20,C17,C18,C30,'
                                      'C06,C07,C08,C09,C29,C31')
    a = p.parse_args()
    if a.mode == 'list':
        ms = [m for f in FILES for m in mutants(f)]
        json.dump(ms, open(a.files[0], 'w'))
        print(len(ms))
        return
    ms = json.load(open(a.files[0]))
    if a.mode == 'tests':
        ok = Pool(a.par).run(tests, ms)
        ms = [m for m, o in zip(ms, ok) if o]
        json.dump(ms, open(a.files[1], 'w'))
        print(len(ms))
        return
    order = a.order.split(',')

    def checks(m, d):
        env = {**os.environ, 'WEAC_REPO': d, 'VERIF_NO_WRITE': '1', 'VERIF_FAST': '1'}
        m['by'] = None
        near = [] if a.only else NEAR.get(m['file']) or next(v for k, v in MIXINS if m['line'] < k)
        for c in (near if a.near else near + [c for c in order if c not in near]):
            try:
                r = subprocess.run([f'{HERE}/check', c, '--jobs', a.jobs, '--scale', a.scale], env=env, capture_output=True,
                                   text=True, cwd=HERE, timeout=1500)
            except subprocess.TimeoutExpired:
                m['by'] = c + ' (time)'
                break
            if r.returncode:
                m['by'] = c + ('' if r.returncode == 1 else f' ({r.returncode})')
                break
        print(m['id'], m['by'], '' if m['by'] else f"{m['line']}: {m['what']} | {m['text']}", flush=True)
        return m
    ms = Pool(a.par).run(checks, ms)
    json.dump(ms, open(a.files[1], 'w'))
    print(sum(m['by'] is None for m in ms), 'of', len(ms), 'not reported')


if __name__ == '__main__':
    sys.exit(main())
