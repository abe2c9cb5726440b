#!/usr/bin/env python3
"""Mutation cross-check of the machinery (development aid, not a registered check).

mutate.py OUT SEED COUNT [FILE...]   make random mutants of saltchannel in scratch copies; for each, run every contract
through the verifier and through the sampler on the real (mutated) code.  Reported:
  UNSOUND   the sampler finds a failing input of a contract that the verifier calls proved
  caught / missed   for mutants that the repository's own tests do not notice
"""
import ast, copy, json, os, random, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
SRC = '/repo'
FILES = {
    'saltchannel/channel.py': ['C05', 'C06', 'C17'],
    'saltchannel/util/__init__.py': ['C01', 'C02', 'C17'],
    'saltchannel/util/packets.py': ['C01', 'C02', 'C03', 'C04'],
    'saltchannel/util/time.py': ['C16', 'C18', 'C23'],
    'saltchannel/util/key_pair.py': ['C18', 'C19'],
    'saltchannel/v2/packets.py': ['C01', 'C02', 'C03', 'C10'],
    'saltchannel/a1a2/packets.py': ['C01', 'C02', 'C04', 'C15'],
    'saltchannel/a1a2/a1_client_session.py': ['C15', 'C17', 'C23'],
    'saltchannel/v2/encrypted_channel_v2.py': ['C07', 'C08', 'C09', 'C23'],
    'saltchannel/v2/app_channel_v2.py': ['C09', 'C10', 'C16', 'C22'],
    'saltchannel/v2/salt_client_session.py': ['C11', 'C12', 'C13', 'C14', 'C16', 'C21', 'C22'],
    'saltchannel/v2/salt_server_session.py': ['C11', 'C12', 'C13', 'C15', 'C16', 'C21', 'C22'],
    'saltchannel/saltlib/saltlib_native.py': ['C18', 'C19'],
    'saltchannel/saltlib/saltlib_base.py': ['C18', 'C19'],
    'saltchannel/saltlib/saltlib.py': ['C18', 'C19'],
    'saltchannel/dev/mitm_channel.py': ['C20'],
    'saltchannel/saltlib/saltlib_pynacl.py': ['C18', 'C19'],
    'saltchannel/saltlib/saltlib_tweetnaclext.py': ['C18', 'C19'],
    'saltchannel/dev/client_server_a.py': ['C05', 'C06', 'C27'],
    'saltchannel/dev/client_server.py': ['C27'],
    'saltchannel/dev/tunnel.py': ['C25'],
    'saltchannel/dev/example_session1.py': ['C26'],
    'saltchannel/dev/example_session1_a.py': ['C26'],
    'saltchannel/dev/example_session2.py': ['C26'],
    'saltchannel/dev/example_session2_a.py': ['C26'],
    'saltchannel/dev/example_session3.py': ['C26'],
    'saltchannel/dev/example_session3_a.py': ['C26'],
    'saltchannel/dev/simple_echo_session.py': ['C24'],
    'saltchannel/dev/simple_echo_session_a.py': ['C24'],
}


def sites(tree):
    """(description, mutator(tree copy node)) pairs"""
    out = []
    nodes = list(ast.walk(tree))
    for i, n in enumerate(nodes):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for op in {ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt, ast.Gt], ast.Gt: [ast.GtE], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq]}.get(type(n.ops[0]), []):
                out.append((i, 'cmp', op))
        elif isinstance(n, ast.Constant) and type(n.value) is int:
            out += [(i, 'const', n.value + 1), (i, 'const', n.value - 1)]
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            out.append((i, 'const', not n.value))
        elif isinstance(n, ast.Constant) and type(n.value) is bytes and n.value:
            out.append((i, 'const', bytes([n.value[0] ^ 1]) + n.value[1:]))
        elif isinstance(n, ast.BinOp):
            for op in {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.BitAnd: [ast.BitOr], ast.BitOr: [ast.BitAnd]}.get(type(n.op), []):
                out.append((i, 'bin', op))
        elif isinstance(n, ast.BoolOp):
            out.append((i, 'bool', None))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            out.append((i, 'not', None))
        elif isinstance(n, ast.If):
            out += [(i, 'iftrue', None), (i, 'iffalse', None)]
        elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and len(n.body) > 1:
            for k, s in enumerate(n.body):
                if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.If, ast.For)) and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                    out.append((i, 'del', k))
                if k + 1 < len(n.body) and isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign)) and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                    out.append((i, 'swap', k))
        elif isinstance(n, ast.Call) and len(n.args) == 2:
            out.append((i, 'args', None))
        elif isinstance(n, ast.Call) and n.keywords:
            out.append((i, 'kw', None))
    return out


def apply(tree, site):
    t = copy.deepcopy(tree)
    i, kind, x = site
    n = list(ast.walk(t))[i]
    if kind == 'cmp':
        n.ops = [x()]
    elif kind == 'const':
        n.value = x
    elif kind == 'bin':
        n.op = x()
    elif kind == 'bool':
        n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
    elif kind == 'not':
        n.op, n.operand = ast.Not(), ast.UnaryOp(ast.Not(), n.operand)
    elif kind == 'iftrue':
        n.test = ast.Constant(True)
    elif kind == 'iffalse':
        n.test = ast.Constant(False)
    elif kind == 'del':
        n.body[x] = ast.Pass()
    elif kind == 'swap':
        n.body[x], n.body[x + 1] = n.body[x + 1], n.body[x]
    elif kind == 'args':
        n.args = n.args[::-1]
    elif kind == 'kw':
        n.keywords = n.keywords[:-1]
    return ast.unparse(ast.fix_missing_locations(t))


def run(cmd, timeout, env=None):
    try:
        p = subprocess.run(cmd, cwd=HERE, env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONWARNINGS='ignore', **(env or {})), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired:
        return 'timeout', ''


def contract_names(prop):
    rc, so = run(['python3-vt', 'pv/prove.py', 'list', prop], 120)
    return [c['name'] for c in json.loads(so)]


def one(prop, name, repo, tmp):
    e = {'PV_REPO': repo}
    so, po = os.path.join(tmp, 's_' + name), os.path.join(tmp, 'p_' + name)
    sm = pr = None
    rc, out = run([PY, 'pv/concrete.py', 'sample', prop, '1', '3', so, so + '.j', json.dumps({'only': [name]})], 60, e)
    if os.path.exists(so):
        sm = (json.load(open(so)).get('failure') or {}).get('label')
    elif rc != 0:
        sm = 'sampler: %s' % rc
    rc, out = run(['python3-vt', 'pv/prove.py', 'prove', prop, name, 'quick', '60', po], 150, e)
    if os.path.exists(po):
        pr = json.load(open(po))
        pr = (pr['status'], pr.get('reason'), pr.get('exact'))
    else:
        pr = ('undecided', str(rc) + out[-300:], None)
    return prop, name, sm, pr


def main():
    outf, seed, count = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    files = sys.argv[4:] or list(FILES)
    rng = random.Random(seed)
    names = {p: contract_names(p) for p in sorted({p for f in files for p in FILES[f]})}
    with open(outf, 'a') as log:
        for k in range(count):
            f = rng.choice(files)
            text = open(os.path.join(SRC, f)).read()
            tree = ast.parse(text)
            ss = sites(tree)
            if not ss:
                continue
            site = rng.choice(ss)
            try:
                new = apply(tree, site)
            except Exception:
                continue
            base = ast.unparse(tree)
            if new == base:
                continue
            diff = [(a, b) for a, b in zip(base.split('\n'), new.split('\n')) if a != b][:2]
            tmp = '/tmp/mut_%d_%d' % (os.getpid(), k)
            os.makedirs(tmp)
            repo = os.path.join(tmp, 'repo')
            shutil.copytree(SRC, repo, symlinks=True, ignore=shutil.ignore_patterns('.git'))
            open(os.path.join(repo, f), 'w').write(new)
            t0 = time.time()
            tests = subprocess.run([PY, '-m', 'pytest', '-q', '-x', '--timeout=60', '-p', 'no:cacheprovider', '--ignore=tests/saltlib', 'tests'], cwd=repo, env=dict(os.environ, PYTHONPATH=repo, PYTHONDONTWRITEBYTECODE='1'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if tests.returncode and os.environ.get('SKIPFAIL'):
                shutil.rmtree(tmp, ignore_errors=True)
                continue
            jobs = [(p, n) for p in FILES[f] for n in names[p]]
            with ThreadPoolExecutor(max_workers=int(os.environ.get('W', '7'))) as ex:
                rs = list(ex.map(lambda j: one(j[0], j[1], repo, tmp), jobs))
            shutil.rmtree(tmp, ignore_errors=True)
            bad = [(r[1], r[2]) for r in rs if r[2] is not None and r[3][0] == 'proved']
            fails = [(r[1], r[2]) for r in rs if r[2] is not None]
            ref = [(r[1], r[3][1], r[3][2]) for r in rs if r[3][0] == 'refuted']
            und = [(r[1], (r[3][1] or '')[:120]) for r in rs if r[3][0] not in ('proved', 'refuted')]
            head = '%s %s %s tests=%s %.0fs' % (f, site[1], diff, 'pass' if tests.returncode == 0 else 'fail', time.time() - t0)
            log.write('%s\n   sampler %s\n   refuted %s\n   undecided %s\n' % (head, fails[:4], ref[:4], und[:4]))
            if bad:
                log.write('   UNSOUND %s\n' % bad)
            if not fails and not ref:
                log.write('   %s\n' % ('MISSED' if not und else 'MISSED (undecided)'))
            log.flush()


if __name__ == '__main__':
    main()
