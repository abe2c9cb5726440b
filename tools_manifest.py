"""Writes MANIFEST.json from properties.jsonl."""
import json, subprocess
ORAL = 'unbounded (all inputs, lengths, histories; loops by inferred and checked invariants); assumes the models of %s listed in the evidence; in-repository callees are executed in place; termination and threads not covered'
BASE = {'C18': 'libsodium, PyNaCl, tweetnacl and ctypes', 'C19': 'libsodium, PyNaCl, tweetnacl and os.urandom', 'C05': 'sockets, struct and asyncio streams', 'C06': 'sockets, struct and asyncio streams',
        'C20': 'an arbitrary underlying channel', 'C24': 'an arbitrary channel or stream', 'C17': 'event loops', 'C25': 'multiprocessing.Pipe', 'C26': 'ctypes, the crypto library and an honest peer', 'C27': 'threading, socket, socketserver, process pools and event loops'}


def note(p):
    n = json.loads(subprocess.run(['python3-vt', 'pv/prove.py', 'list', p], stdout=subprocess.PIPE, check=True).stdout)
    b = ['%s (%s)' % (c['name'], c['bound']) for c in n if c.get('bound')]
    return ('bounded, not proved for more: ' + ', '.join(b) + '; the others: ' if b else '') + '%d contracts (%s), ' % (len(n), ', '.join(c['name'] for c in n)) + ORAL % BASE.get(p, 'ctypes and the crypto library')


props = [json.loads(l) for l in open('properties.jsonl')]
checks = [{'property': p['id'], 'quick_cmd': 'python3 check.py ' + p['id'], 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + p['id'],
           'technique': 'contract-based deductive verification of the code (pv: mechanical extraction, symbolic execution with loop invariants, z3 obligations), counterexamples replayed on the real code',
           'level': 'proof', 'level_note': note(p['id'])} for p in props]
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': []}, open('MANIFEST.json', 'w'), indent=1)
