"""Mutation testing of the checks. usage: mutate.py OUT.jsonl [--sample N] [--seed S] [--jobs J] [--scale X] [FILE ...]

Makes small changes to the source in scratch copies, runs the checks of the properties anchored there, and lists the changes no
check notices. Those are then looked at by hand: they either do not change behaviour or show what the checks miss.
"""
import argparse
import ast
import concurrent.futures as cf
import json
import os
import pathlib
import random
import shutil
import subprocess
import threading

ROOT = pathlib.Path(__file__).resolve().parents[1]
REPO = pathlib.Path('/repo')
M, ON = 'moirae/models/', 'moirae/estimators/online/'
WHERE = {
    M + 'base.py': 'C01 C02 C03 C04 C05 C10', M + 'utils.py': 'C04 C05', M + 'ecm/__init__.py': 'C07 C09 C08 C10 C11',
    M + 'ecm/advancedSOH.py': 'C33 C12 C05', M + 'ecm/components.py': 'C06 C33 C12 C05', M + 'ecm/transient.py': 'C33 C03 C04',
    M + 'ecm/ins_outs.py': 'C03 C04', M + 'ecm/utils.py': 'C06 C07 C08 C33 C10', M + 'thevenin/__init__.py': 'C30',
    M + 'thevenin/components.py': 'C32 C30', M + 'thevenin/state.py': 'C30 C05', M + 'thevenin/ins_outs.py': 'C30',
    'moirae/simulator.py': 'C13 C14 C34', ON + '__init__.py': 'C20 C21 C24 C34', ON + 'joint.py': 'C20 C31 C23', ON + 'dual.py': 'C21 C31 C23',
    ON + 'filters/base.py': 'C17 C19 C31', ON + 'filters/conversions.py': 'C15 C20 C22', ON + 'filters/distributions.py': 'C16 C17',
    ON + 'filters/kalman/unscented.py': 'C17 C19 C18 C31', ON + 'filters/kalman/utils.py': 'C19 C18 C17',
    ON + 'utils/model.py': 'C22 C20 C21 C31 C34', 'moirae/interface/__init__.py': 'C24 C25', 'moirae/interface/hdf5.py': 'C25 C24',
    'moirae/estimators/offline/__init__.py': 'C27', 'moirae/estimators/offline/loss.py': 'C26 C27',
    'moirae/estimators/offline/scipy.py': 'C27', 'moirae/extractors/base.py': 'C28 C29', 'moirae/extractors/ecm.py': 'C28 C29'}
CMP = {ast.Lt: ['<='], ast.LtE: ['<'], ast.Gt: ['>='], ast.GtE: ['>'], ast.Eq: ['!='], ast.NotEq: ['=='], ast.Is: ['is not'],
       ast.IsNot: ['is'], ast.In: ['not in'], ast.NotIn: ['in']}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.MatMult: None, ast.Mod: '//', ast.Pow: '*'}


def mutants(text):
    """Yields (line, description, changed text)"""
    tree = ast.parse(text)
    lines = text.split('\n')
    starts = [0]
    for ln in lines:
        starts.append(starts[-1] + len(ln.encode()) + 1)
    raw = text.encode()

    def pos(node, end=False):
        return starts[(node.end_lineno if end else node.lineno) - 1] + (node.end_col_offset if end else node.col_offset)

    def src(node):
        return raw[pos(node):pos(node, True)].decode()

    def put(node, new):
        return (raw[:pos(node)] + new.encode() + raw[pos(node, True):]).decode()
    skip = set()
    for node in ast.walk(tree):  # Annotations, docstrings and messages are left alone
        for ann in ([node.annotation] if isinstance(node, (ast.arg, ast.AnnAssign)) and node.annotation is not None else []) + (
                [node.returns] if isinstance(node, ast.FunctionDef) and node.returns else []):
            skip.update(id(x) for x in ast.walk(ann))
        if isinstance(node, (ast.Raise, ast.JoinedStr, ast.Import, ast.ImportFrom)):
            skip.update(id(x) for x in ast.walk(node))
    for node in ast.walk(tree):
        if id(node) in skip:
            if isinstance(node, ast.Raise):
                yield node.lineno, 'raise -> pass', put(node, 'pass')
            continue
        out = []
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            for op in CMP.get(type(node.ops[0]), []):
                out.append(f'{src(node.left)} {op} {src(node.comparators[0])}')
        elif isinstance(node, ast.BinOp):
            op = BIN.get(type(node.op))
            if op:
                out.append(f'{src(node.left)} {op} {src(node.right)}')
            if isinstance(node.op, (ast.Add, ast.Mult, ast.Sub)):
                out += [src(node.left), src(node.right)]
        elif isinstance(node, ast.UnaryOp):
            out.append(f'({src(node.operand)})')
        elif isinstance(node, ast.BoolOp):
            out += [src(v) for v in node.values]
        elif isinstance(node, ast.Constant):
            v = node.value
            if isinstance(v, bool):
                out.append(str(not v))
            elif isinstance(v, int):
                out += [str(v + 1), str(v - 1)] if v else ['1']
            elif isinstance(v, float):
                out += [repr(v * 1.1), '0.'] if v else ['0.5']
        elif isinstance(node, (ast.If, ast.IfExp, ast.While)) and not isinstance(node, ast.While):
            for x in ('True', 'False'):
                yield node.lineno, f'if {src(node.test)} -> {x}', put(node.test, x)
        elif isinstance(node, ast.Call):
            f = node.func
            if isinstance(f, ast.Attribute) and f.attr in ('copy', 'flatten', 'reset_index', 'sort_values', 'squeeze'):
                out.append(src(f.value))
            if isinstance(f, ast.Attribute) and f.attr == 'model_copy':
                out += [src(f.value), src(f.value) + '.model_copy()']
            if isinstance(f, ast.Name) and f.id == 'deepcopy':
                out.append(src(node.args[0]))
            if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == 'np' and len(node.args) == 1 and f.attr in (
                    'array', 'abs', 'sort', 'atleast_2d', 'squeeze', 'atleast_1d', 'sign', 'diag', 'mean', 'unique'):
                out.append(src(node.args[0]))
            for k, kw in enumerate(node.keywords):
                if kw.arg:
                    s = src(node)
                    piece = src(kw)
                    new = s.replace(', ' + piece, '', 1)
                    if new == s:
                        new = s.replace(piece + ', ', '', 1)
                    if new == s:
                        new = s.replace(piece, '', 1)
                    out.append(new)
            if len(node.args) >= 2 and not isinstance(node.args[0], ast.Starred):
                a, b = node.args[:2]
                s = raw[pos(a):pos(b, True)].decode()
                mid = raw[pos(a, True):pos(b)].decode()
                full = raw[:pos(a)] + (src(b) + mid + src(a)).encode() + raw[pos(b, True):]
                yield node.lineno, f'swap {s}', full.decode()
        elif isinstance(node, ast.Attribute) and node.attr == 'T':
            out.append(src(node.value))
        elif isinstance(node, (ast.Expr, ast.Assign, ast.AugAssign, ast.Continue, ast.Return)):
            if isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant):
                continue
            if isinstance(node, ast.Return) and node.value is None:
                continue
            if isinstance(node, ast.Assign) and node.col_offset == 0:
                continue
            if not isinstance(node, ast.Return):
                yield node.lineno, f'remove {src(node)}', put(node, 'pass')
        for new in out:
            if new != src(node):
                yield node.lineno, f'{src(node)} -> {new}', put(node, new)


def judge(slot, file, text, crlf, scale):
    copy = pathlib.Path(f'/tmp/mut/{slot}')
    target = copy / file
    original = target.read_bytes()
    try:
        target.write_bytes((text.replace('\n', '\r\n') if crlf else text).encode())
        for pid in WHERE[file].split():
            try:
                c = subprocess.run(['./check.sh', pid], cwd=ROOT, capture_output=True, text=True, timeout=600, env={
                    **os.environ, 'MOIRAE_REPO': str(copy), 'VERIF_SEED': '1', 'VERIF_TIER': 'quick', 'PBT_SCALE': str(scale), 'PBT_SHRINK': '0'})
                if c.returncode == 1 and 'VIOLATION' in c.stdout:
                    return pid, c.stdout.split('\n')[0][:150]
                if c.returncode != 0:
                    return 'error ' + pid, (c.stdout + c.stderr)[-150:]
            except subprocess.TimeoutExpired:
                return 'timeout ' + pid, ''
        return None, ''
    finally:
        target.write_bytes(original)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('out')
    ap.add_argument('files', nargs='*')
    ap.add_argument('--sample', type=int, default=0)
    ap.add_argument('--seed', type=int, default=0)
    ap.add_argument('--jobs', type=int, default=2)
    ap.add_argument('--scale', type=float, default=0.4)
    args = ap.parse_args()
    todo = []
    for file in args.files or WHERE:
        raw = (REPO / file).read_bytes().decode()
        crlf = '\r\n' in raw
        text = raw.replace('\r\n', '\n')
        for line, what, new in mutants(text):
            try:
                compile(new, file, 'exec')
            except SyntaxError:
                continue
            todo.append((file, line, what, new, crlf))
    random.Random(args.seed).shuffle(todo)
    if args.sample:
        todo = todo[:args.sample]
    print(len(todo), 'changes', flush=True)
    slots = list(range(args.jobs))
    for s in slots:
        shutil.rmtree(f'/tmp/mut/{s}', ignore_errors=True)
        shutil.copytree(REPO / 'moirae', f'/tmp/mut/{s}/moirae')
    lock = threading.Lock()

    def one(item):
        file, line, what, new, crlf = item
        with lock:
            slot = slots.pop()
        try:
            by, msg = judge(slot, file, new, crlf, args.scale)
        finally:
            with lock:
                slots.append(slot)
        with lock, open(args.out, 'a') as f:
            f.write(json.dumps({'file': file, 'line': line, 'what': what, 'by': by, 'msg': msg}) + '\n')
    with cf.ThreadPoolExecutor(args.jobs) as pool:
        list(pool.map(one, todo))


if __name__ == '__main__':
    main()
