"""Mutation sweep: which small edits of the sources does no quick check notice?

    mutate.py OUT.jsonl [-j N] [FILE...]

Every mutant is one edit (operator, comparison, constant, dropped statement, negated condition, dropped copy, keyword, index or argument order)
of one expression in a scratch copy of the repository. Checks run in an order suited to the file until one of them fails.
"""
import ast, json, os, random, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path
import queue

ORDER = {
    'ecm/__init__': 'C02 C01 C03 C04', 'ecm/utils': 'C19 C02 C07 C04', 'ecm/components': 'C19 C03 C07', 'ecm/advancedSOH': 'C19 C18', 'ecm/transient': 'C06 C18 C19',
    'models/base': 'C05 C06 C07', 'online/utils/model': 'C12 C21 C11 C18', 'kalman/unscented': 'C08 C09 C18', 'kalman/utils': 'C09 C08', 'distributions': 'C10 C18',
    'conversions': 'C10 C11', 'online/__init__': 'C12 C18 C14', 'joint': 'C12 C11 C14 C18 C09', 'dual': 'C12 C11 C14 C18 C21 C09', 'interface/__init__': 'C14 C15', 'hdf5': 'C15', 'extractors': 'C17',
    'offline': 'C16', 'simulator': 'C13 C21 C18', 'thevenin': 'C20', 'filters/base': 'C11 C08 C12', 'models/utils': 'C21'}
REST = bool(os.environ.get('MUTATE_REST'))  # also run the checks not listed for the file
ALL = [f'C{i:02d}' for i in range(1, 22)]


def order(path):
    for k, v in ORDER.items():
        if k in path:
            first = v.split()
            return first + ([p for p in ALL if p not in first] if REST else [])
    return ALL


BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.Pow: '*', ast.Mod: '*'}
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in', ast.NotIn: 'in'}


def mutants(src):
    tree = ast.parse(src)
    lines = src.split('\n')
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()) + 1)
    b = src.encode()

    def pos(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        s, e = pos(n)
        return b[s:e].decode()

    out = []

    def add(n, new, kind):
        s, e = pos(n)
        if b[s:e].decode() != new:
            out.append((s, e, new, kind, n.lineno, b[s:e].decode()))

    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, str):
            doc.add(id(n.value))
            doc.add(id(n))
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Raise,)) or (isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'Annotated'):
            skip.update(id(c) for c in ast.walk(n))
        if isinstance(n, (ast.FunctionDef,)):
            for a in (n.args.args + n.args.kwonlyargs):
                if a.annotation:
                    skip.update(id(c) for c in ast.walk(a.annotation))
            if n.returns:
                skip.update(id(c) for c in ast.walk(n.returns))
        if isinstance(n, ast.AnnAssign):
            skip.update(id(c) for c in ast.walk(n.annotation))
        if isinstance(n, ast.Assert) and n.msg:
            skip.update(id(c) for c in ast.walk(n.msg))
        if isinstance(n, ast.JoinedStr):
            skip.update(id(c) for c in ast.walk(n) if c is not n)
        if isinstance(n, ast.keyword) and n.arg in ('description', 'total', 'disable'):
            skip.update(id(c) for c in ast.walk(n.value))
    for n in ast.walk(tree):
        if id(n) in skip or id(n) in doc:
            continue
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            add(n, f'({text(n.left)} {BIN[type(n.op)]} {text(n.right)})', 'binop')
        elif isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            add(n, f'({text(n.left)} {CMP[type(n.ops[0])]} {text(n.comparators[0])})', 'compare')
        elif isinstance(n, ast.BoolOp):
            for v in n.values:
                add(n, f'({text(v)})', 'boolop')
            op = ' or ' if isinstance(n.op, ast.And) else ' and '
            add(n, '(' + op.join(f'({text(v)})' for v in n.values) + ')', 'boolop')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            add(n, f'({text(n.operand)})', 'unary')
        elif isinstance(n, ast.Constant) and not isinstance(n.value, (str, bytes)) and n.value is not None and n.value is not Ellipsis:
            if isinstance(n.value, bool):
                add(n, str(not n.value), 'bool')
            elif isinstance(n.value, (int, float)):
                add(n, repr(n.value + 1), 'const')
                if n.value not in (0, 1):
                    add(n, repr(n.value * 1.01 if isinstance(n.value, float) else n.value - 1), 'const')
        elif isinstance(n, ast.IfExp):
            add(n, f'({text(n.body)})', 'ifexp')
            add(n, f'({text(n.orelse)})', 'ifexp')
        elif isinstance(n, (ast.If, ast.While)):
            add(n.test, 'True', 'cond')
            add(n.test, 'False', 'cond')
        elif isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Attribute) and f.attr in ('copy', 'model_copy', 'flatten', 'squeeze', 'get_mean'):
                if f.attr == 'model_copy':
                    add(n, f'{text(f.value)}.model_copy()', 'shallow')
                if f.attr != 'get_mean':
                    add(n, text(f.value), 'nocall')
            if isinstance(f, ast.Attribute) and f.attr in ('max', 'min', 'any', 'all', 'maximum', 'minimum', 'sum', 'mean'):
                swap = dict(max='min', min='max', any='all', all='any', maximum='minimum', minimum='maximum', sum='mean', mean='sum')
                add(n, f'{text(f.value)}.{swap[f.attr]}({", ".join(text(a) for a in n.args + [])}{", " if n.args and n.keywords else ""}{", ".join((k.arg + "=" if k.arg else "**") + text(k.value) for k in n.keywords)})', 'callswap')
            if isinstance(f, ast.Name) and f.id in ('max', 'min'):
                add(f, 'min' if f.id == 'max' else 'max', 'callswap')
            if len(n.args) == 2 and not any(isinstance(a, ast.Starred) for a in n.args) and not (isinstance(f, ast.Name) and f.id in ('isinstance', 'getattr')):
                s = text(n)
                add(n, f'{text(f)}({text(n.args[1])}, {text(n.args[0])}{"".join(", " + (k.arg + "=" if k.arg else "**") + text(k.value) for k in n.keywords)})', 'argswap')
            for k in n.keywords:
                if k.arg is not None and not isinstance(f, ast.Name) or (k.arg is not None and isinstance(f, ast.Name) and f.id not in ('Field',)):
                    rest = [text(a) for a in n.args] + [(q.arg + '=' if q.arg else '**') + text(q.value) for q in n.keywords if q is not k]
                    add(n, f'{text(f)}({", ".join(rest)})', 'dropkw')
        elif isinstance(n, ast.Attribute) and n.attr == 'T' and isinstance(n.ctx, ast.Load):
            add(n, text(n.value), 'noT')
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            pairs = dict(previous_inputs='new_inputs', new_inputs='previous_inputs', current_k='current_kp1', current_kp1='current_k', soc_k='soc_kp1',
                         previous_controls='new_controls', new_controls='previous_controls', new_transient='self.transient')
            if n.id in pairs:
                add(n, pairs[n.id], 'name')
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)) and not isinstance(getattr(n, 'value', None), ast.Yield):
            if isinstance(n, ast.Assign) and n.col_offset <= 4 and not isinstance(n.targets[0], ast.Attribute):
                pass
            add(n, 'pass', 'drop')
        elif isinstance(n, ast.Slice):
            pass
        elif isinstance(n, ast.Continue):
            add(n, 'pass', 'continue')
    seen, res = set(), []
    for s, e, new, kind, ln, old in out:
        m = b[:s] + new.encode() + b[e:]
        if m in seen:
            continue
        seen.add(m)
        try:
            compile(m.decode(), 'm', 'exec')
        except SyntaxError:
            continue
        res.append(dict(kind=kind, line=ln, old=old, new=new, source=m))
    return res


def main():
    out = sys.argv[1]
    args = sys.argv[2:]
    nj = 7
    if '-j' in args:
        i = args.index('-j')
        nj = int(args[i + 1])
        del args[i:i + 2]
    repo = Path('/repo')
    files = args or [str(p.relative_to(repo)) for p in sorted(repo.glob('moirae/**/*.py'))]
    done = set()
    if os.path.exists(out):
        done = {(d['file'], d['line'], d['old'], d['new']) for d in map(json.loads, open(out))}
    jobs = []
    for f in files:
        raw = (repo / f).read_bytes().decode()
        crlf = '\r\n' in raw
        for m in mutants(raw.replace('\r\n', '\n')):
            if (f, m['line'], m['old'], m['new']) not in done:
                jobs.append(dict(m, file=f, crlf=crlf))
    random.Random(1).shuffle(jobs)
    print(len(jobs), 'mutants', flush=True)
    free = queue.Queue()
    for i in range(nj):
        d = f'/tmp/mut_{os.getpid()}_{i}'
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(repo, d, symlinks=True)
        free.put(d)
    fh = open(out, 'a')

    def run(j):
        d = free.get()
        p = Path(d, j['file'])
        good = p.read_bytes()
        try:
            src = j['source']
            p.write_bytes(src.replace(b'\n', b'\r\n') if j['crlf'] else src)
            by = None
            odd = []
            for c in order(j['file']):
                try:
                    r = subprocess.run(['./run.sh', c, 'quick'], cwd=str(Path(__file__).resolve().parent.parent), capture_output=True, text=True, timeout=400,
                                       env=dict(os.environ, VERIF_REPO=d, OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', VERIF_JOBS='1', VERIF_FAST='1'))
                    rc = r.returncode
                except subprocess.TimeoutExpired:
                    rc = 'timeout'
                if rc == 1:
                    by = c
                    break
                if rc != 0:
                    odd.append([c, rc])
                    if len(odd) >= 3:
                        break
            res = {k: j[k] for k in ('file', 'line', 'kind', 'old', 'new')}
            res.update(caught=by, odd=odd)
            fh.write(json.dumps(res) + '\n')
            fh.flush()
        finally:
            p.write_bytes(good)
            free.put(d)

    with ThreadPoolExecutor(nj) as ex:
        list(ex.map(run, jobs))
    while not free.empty():
        shutil.rmtree(free.get(), ignore_errors=True)


if __name__ == '__main__':
    main()
