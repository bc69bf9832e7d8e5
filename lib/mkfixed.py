#!/usr/bin/env python3
"""Rewrites the list `fixed` of known_findings.json from the "fix:" commits of /repo (a development aid, no check runs it)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = {}
for p, hs in {
    'C01': '2d7d256 4bc5bac 1eba95c db26b8a 1f59b68 3126df0 44db6db dfa74d5 b20b5fd 0702701 eaac0ae d10db09 0c8be4a 0fc24bd '
           '8b68891 57cc03a 1b581d1 4e8a081 aacccad 11226af 791ec8c a6ccbfd 4ad6a51 596949a f64d333',
    'C02': '7b512b2', 'C03': 'b037f1c 63810c1 d979d69 d9941c4 1fe63cb', 'C04': 'effa03c',
    'C05': '673de47 5046ab8 dc7e860 87faf58 780c1b2', 'C06': '32affbf da9d802', 'C07': 'a17750c 120951f',
    'C08': '92713c3 7eb9be1 21fa322 e9f0eed c9f8a16', 'C09': '3aeae33', 'C10': 'f2b5984', 'C11': '6913b54',
    'C12': 'cf8f410 11bf6f1 3094d06 5082501 61c8711', 'C13': '2bcd94f 1d7f2be f3d9dcd', 'C14': '44f0868',
    'C15': 'ffe162e 775561a 08cca55 5a1760c ccd36a0', 'C16': 'a9ed674 c4fff8e', 'C19': '34c41ea',
    'C20': '6f8185e adca4ca', 'C21': '139b08e 20e0d90 eca0b15 b7f19f7', 'C23': '5a72ce0 281aa9b 63e2533',
}.items():
    for h in hs.split(): MAP[h] = p
# commits whose property is found by the start of their subject
SUBJECT = [('fix: cardinality', 'C17'), ('fix: injected', 'C17'), ('fix: sum-product', 'C17'), ('fix: SPN', 'C22'), ('fix: grid search', 'C22'), ('fix: print of tuples', 'C19'),
           ('fix: arguments', 'C18'), ('fix: the tools', 'C18'), ('fix: nested statements', 'C18')]
out = []
for l in subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s', '916bb3f..'], text=True).splitlines():
    h, s = l.split(' ', 1)
    p = MAP.get(h) or next((p for k, p in SUBJECT if s.startswith(k)), None)
    assert p, l
    out.append(f'fixed: property={p} {h} {s[5:]}')
f = os.path.join(V, 'known_findings.json')
k = json.load(open(f)); k['fixed'] = out
open(f, 'w').write(json.dumps(k, indent=1) + '\n')
