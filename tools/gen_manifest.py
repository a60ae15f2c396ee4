#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
TECH = {
    'C01': 'exhaustive enumeration of weight vectors and random-number cells on the real resampler',
    'C02': 'explicit-state exploration: every operation sequence up to a depth on the real object, in lockstep with a reference list',
    'C13': 'bounded stateless model checking: every outcome within a deviation bound, pairing and estimates monitored on each execution',
    'C23': 'stateless exploration of the real driver: every history within a deviation bound, trace refinement against a reference driver',
    'C24': 'stateless exploration of the real driver: every step-size and random history within a deviation bound, archive checked against a reference machine',
    'C26': 'lockstep exploration of both implementations: every operation sequence and argument of the bounded alphabets, whole runs on the same choice sequences',
    'C28': 'stateless exploration: every outcome within a deviation bound executed with and without the wrapper, traces and counters compared',
    'C31': 'explicit interleaving exploration: every interleaving of the operations of two runs, and every operation sequence of one object, compared with isolated runs on the same choices',
    'C32': 'stateless exploration: every outcome within a deviation bound, the digits carried by each particle and the hook calls monitored, states compared with a plain model',
    'default_law': 'stateless model checking of the real code: every random outcome, exact law vs. reference model',
    'default_conf': 'bounded-exhaustive enumeration of configurations/data on the real code vs. reference model',
}
LAW = {'C03', 'C04', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C30'}
TRACE = {'C13', 'C23', 'C24', 'C28', 'C31', 'C32'}
NOTE = {
    'trace': 'Every execution of the code in /repo within the stated configurations and deviation bound (number of random choices that differ '
             'from the default one) is run and its complete observable trace is compared with an independent reference run on the same choices; '
             'longer runs and more deviations are not covered.',
    'law': 'Every random outcome (exact partition of the uniforms), data pattern and configuration within the stated bounds is '
           'executed on the code in /repo itself and the exact outcome law is compared with an independent exact reference; '
           'nothing is said about larger state spaces, and floating point is compared up to 1e-9.',
    'conf': 'Every configuration, data pattern and operation sequence within the stated bounds is executed on the code in /repo '
            'itself and compared with an independent reference (batch Gaussian algebra, numerical derivatives or a reference list) up to rounding; '
            'values outside the alphabets are not covered.',
}
checks, na = [], []
for p in props:
    i = p['id']
    if not os.path.exists(os.path.join(here, 'checks', i.lower() + '.py')):
        na.append({'property': i, 'reason': 'check not built yet'})
        continue
    checks.append({
        'property': i,
        'quick_cmd': '/opt/venv/bin/python check.py %s' % i,
        'thorough_cmd': 'VERIF_TIER=thorough /opt/venv/bin/python check.py %s' % i,
        'technique': TECH.get(i, TECH['default_law'] if i in LAW else TECH['default_conf']),
        'level': 'model_checking',
        'level_note': NOTE['law' if i in LAW else 'trace' if i in TRACE else 'conf'],
    })
m = {'version': 1, 'setup_cmd': "/opt/venv/bin/python -c 'import numpy, scipy, Cython'", 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: the random number generator is replaced from outside (lib/seam.py).'}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), len(na))
