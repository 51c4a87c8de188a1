#!/usr/bin/env python3
"""Mutation campaign over zcollection.

mutate.py --out FILE [--seed N --count N --files a,b --worker i/n]

Small syntactic changes are made one at a time in a scratch copy of /repo.  A
mutant that the stable tests accept is given to the checks of its file, until
one reports it.  Those nobody reports are listed for review (equivalent
change, or a gap of the checks).
"""
import argparse, ast, json, os, pathlib, random, shutil, subprocess, sys, tempfile

V = pathlib.Path(__file__).resolve().parent.parent
FILES = {
    'zcollection/partitioning/abc.py': 'C02 C03 C04',
    'zcollection/partitioning/date.py': 'C02 C03',
    'zcollection/partitioning/sequence.py': 'C02 C03',
    'zcollection/partitioning/registry.py': 'C16 C03',
    'zcollection/merging/__init__.py': 'C12 C06 C05 C04 C30 C14',
    'zcollection/merging/time_series.py': 'C05',
    'zcollection/merging/period.py': 'C27 C05',
    'zcollection/collection/__init__.py': 'C04 C08 C12 C14 C07 C13 C15 C16 C23 C24 C25 C26 C30 C01 C06',
    'zcollection/collection/abc.py': 'C01 C10 C09 C07 C24 C26 C30 C16 C03',
    'zcollection/collection/detail.py': 'C08 C09 C10 C12 C06 C24 C01 C26 C04',
    'zcollection/compressed_array.py': 'C22',
    'zcollection/dask_utils.py': 'C26 C08',
    'zcollection/dataset.py': 'C19 C21 C20 C01 C28 C22 C16 C30 C04',
    'zcollection/expression.py': 'C28 C07',
    'zcollection/fs_utils.py': 'C29 C15 C16',
    'zcollection/indexing/abc.py': 'C11',
    'zcollection/meta.py': 'C16 C14 C19 C30 C04',
    'zcollection/storage.py': 'C01 C14 C12 C08 C23 C25 C16 C20 C04',
    'zcollection/sync.py': 'C25',
    'zcollection/variable/abc.py': 'C20 C19 C21 C01 C22 C16',
    'zcollection/variable/array.py': 'C20 C19 C01 C21',
    'zcollection/variable/delayed_array.py': 'C20 C19 C01 C21 C22',
    'zcollection/view/__init__.py': 'C17 C18 C10 C25 C13 C30',
    'zcollection/view/detail.py': 'C17 C18 C10 C25 C13',
    'zcollection/convenience/collection.py': 'C16 C13',
    'zcollection/convenience/view.py': 'C17 C16',
}
SKIP_FUNCS = {'__repr__', '__str__', '_repr_html_', '_dataset_repr', '_dask_repr', '_variable_repr', 'to_zarr'}
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==',
       ast.In: 'not in', ast.NotIn: 'in', ast.Is: 'is not', ast.IsNot: 'is'}


def mutants(path):
    src = pathlib.Path('/repo', path).read_text()
    base = subprocess.run(['git', 'show', f'6c42bd0:{path}'], cwd='/repo', capture_output=True, text=True).stdout
    base_lines = set(base.splitlines())
    lines = src.splitlines(keepends=True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l))
    tree = ast.parse(src)

    def pos(line, col):
        return off[line - 1] + len(lines[line - 1].encode()[:col].decode())

    def span(n):
        return pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)

    out = []

    def add(n, a, b, new, kind):
        out.append((n.lineno, kind, a, b, new))

    def visit(node, skip):
        if isinstance(node, (ast.FunctionDef, ast.ClassDef)) and node.name in SKIP_FUNCS:
            return
        if isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant):
            return
        text = ast.get_source_segment(src, node) if hasattr(node, 'lineno') else ''
        if isinstance(node, (ast.Expr, ast.With)) and ('_LOGGER' in (text or '') [:9] or 'warnings.warn' in (text or '')[:15]):
            return
        if isinstance(node, (ast.Import, ast.ImportFrom, ast.arguments)):
            return
        if isinstance(node, ast.AnnAssign):
            if node.value is not None:
                visit(node.value, skip)
            return
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            l, r = node.left, node.comparators[0]
            a, b = span(l)[1], span(r)[0]
            seg = src[a:b]
            if '#' not in seg and '(' not in seg and ')' not in seg:
                add(node, a, b, f' {CMP[type(node.ops[0])]} ', 'cmp')
        if isinstance(node, ast.BoolOp):
            a, b = span(node.values[0])[1], span(node.values[1])[0]
            seg = src[a:b]
            old, new = ('and', 'or') if isinstance(node.op, ast.And) else ('or', 'and')
            if old in seg:
                add(node, a, b, seg.replace(old, new, 1), 'bool')
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            a, b = span(node)
            c, d = span(node.operand)
            add(node, a, b, src[c:d], 'not')
        if isinstance(node, ast.BinOp) and isinstance(node.op, (ast.Add, ast.Sub)):
            a, b = span(node.left)[1], span(node.right)[0]
            seg = src[a:b]
            o, n2 = ('+', '-') if isinstance(node.op, ast.Add) else ('-', '+')
            if o in seg and "'" not in text:
                add(node, a, b, seg.replace(o, n2, 1), 'arith')
        if isinstance(node, ast.Constant) and type(node.value) is int:
            a, b = span(node)
            add(node, a, b, str(node.value + 1), 'const')
        if isinstance(node, ast.Constant) and type(node.value) is bool:
            a, b = span(node)
            add(node, a, b, str(not node.value), 'flag')
        if isinstance(node, ast.Call):
            for k in node.keywords:
                if k.arg is None:
                    continue
                a = pos(k.lineno, k.col_offset)
                b = span(k.value)[1]
                rest = src[b:]
                st = rest.lstrip()
                if st.startswith(','):
                    b += len(rest) - len(st) + 1
                add(k.value, a, b, '', 'kwarg')
        if isinstance(node, ast.IfExp):
            a, b = span(node)
            for part in (node.body, node.orelse):
                c, d = span(part)
                add(node, a, b, '(' + src[c:d] + ')', 'ifexp')
        if isinstance(node, (ast.If, ast.While)):
            a, b = span(node.test)
            for v in ('True', 'False'):
                add(node.test, a, b, v, 'cond')
        if isinstance(node, ast.Expr) and isinstance(node.value, ast.Call) and 'invalidate_cache' not in text:
            a, b = span(node)
            add(node, a, b, 'pass', 'stmt')
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Attribute):
            a, b = span(node)
            add(node, a, b, 'pass', 'assign')
        if isinstance(node, ast.Raise):
            a, b = span(node)
            add(node, a, b, 'pass', 'raise')
        if isinstance(node, ast.Return) and isinstance(node.value, ast.Call):
            pass
        for child in ast.iter_child_nodes(node):
            visit(child, skip)

    visit(tree, False)
    res = []
    for line, kind, a, b, new in out:
        if lines[line - 1].rstrip('\n') not in base_lines:
            continue
        mod = src[:a] + new + src[b:]
        try:
            if ast.dump(ast.parse(mod)) == ast.dump(tree):
                continue
        except SyntaxError:
            continue
        res.append((path, line, kind, src[a:b], new, mod))
    return res


def run(cmd, cwd, env=None, timeout=None):
    p = subprocess.Popen(cmd, cwd=cwd, env=dict(os.environ, **(env or {})), stdout=subprocess.PIPE,
                         stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return 'timeout', ''


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--out', required=True)
    ap.add_argument('--seed', type=int, default=0)
    ap.add_argument('--count', type=int, default=10**6)
    ap.add_argument('--files', default='')
    ap.add_argument('--worker', default='0/1')
    ap.add_argument('--list', action='store_true')
    a = ap.parse_args()
    todo = []
    for f in FILES:
        if not a.files or any(x in f for x in a.files.split(',')):
            todo += mutants(f)
    random.Random(a.seed).shuffle(todo)
    todo = todo[:a.count]
    if a.list:
        print(len(todo))
        return
    i, n = map(int, a.worker.split('/'))
    done = set()
    out = pathlib.Path(a.out)
    if out.exists():
        done = {tuple(json.loads(l)['id']) for l in out.read_text().splitlines()}
    work = pathlib.Path(tempfile.mkdtemp(prefix='mut_'))
    copy = work / 'repo'
    shutil.copytree('/repo', copy, symlinks=True)
    try:
        for path, line, kind, old, new, mod in todo[i::n]:
            ident = (path, line, kind, old, new)
            if ident in done:
                continue
            target = copy / path
            keep = target.read_text()
            target.write_text(mod)
            rec = dict(id=ident)
            rc, text = run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '-n', '4',
                            '--timeout=60', f'--basetemp={work}/tmp', '--processes', '--n_workers', '1',
                            '--threads_per_worker', '1'], copy,
                           {'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0', 'OMP_NUM_THREADS': '1'}, 600)
            rec['tests'] = rc == 0
            if rc == 0:
                rec['caught'] = None
                for prop in FILES[path].split():
                    rc, text = run(['./check.sh', prop], V, {'ZV_REPO': str(copy)}, 800)
                    if rc != 0:
                        rec['caught'] = prop if rc == 1 else f'{prop}:{rc}'
                        break
            with out.open('a') as s:
                s.write(json.dumps(rec) + '\n')
            target.write_text(keep)
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == '__main__':
    main()
