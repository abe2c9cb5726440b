#!/usr/bin/env python3
"""run.py: self-test of the verifier (development aid: python3 selftest/run.py)"""
import json, os, subprocess, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, PV_CONTRACTS=os.path.join(HERE, 'selftest'), PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONWARNINGS='ignore')


def one(prop, name, tmp):
    po, so = os.path.join(tmp, 'p' + name), os.path.join(tmp, 's' + name)
    subprocess.run(['python3-vt', 'pv/prove.py', 'prove', prop, name, 'quick', '60', po], cwd=HERE, env=ENV, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=200)
    subprocess.run(['/opt/venv/bin/python', 'pv/concrete.py', 'sample', prop, '1', '4', so, so + '.j', json.dumps({'only': [name]})], cwd=HERE, env=ENV, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=200)
    p = json.load(open(po)) if os.path.exists(po) else {'status': 'no result', 'reason': ''}
    s = json.load(open(so)) if os.path.exists(so) else {'failure': 'no result'}
    return prop, name, p['status'], p.get('reason'), bool(s['failure']), s['failure']


def main():
    tmp = tempfile.mkdtemp(prefix='pvst_')
    bad = 0
    try:
        jobs = []
        for prop in 'TF':
            o = subprocess.run(['python3-vt', 'pv/prove.py', 'list', prop], cwd=HERE, env=ENV, stdout=subprocess.PIPE).stdout
            jobs += [(prop, c['name'], tmp) for c in json.loads(o)]
        with ThreadPoolExecutor(max_workers=int(os.environ.get('W', '7'))) as ex:
            for prop, name, status, reason, failed, f in ex.map(lambda j: one(*j), jobs):
                word = 'ok'
                if prop == 'T' and (status != 'proved' and not name.startswith('open_') or failed):
                    word = 'NOT PROVED' if not failed else 'FALSE SPECIFICATION %s' % (f,)
                if prop == 'F' and (status == 'proved' or not failed):
                    word = 'UNSOUND' if status == 'proved' else 'sampler finds nothing'
                bad += word != 'ok'
                if word != 'ok' or '-v' in sys.argv:
                    print('%-26s %-10s %s %s' % (name, status, word, reason or ''))
        print('%d self-tests, %d unexpected' % (len(jobs), bad))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
