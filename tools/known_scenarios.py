#!/usr/bin/env python3
"""Writes the scenarios of known/findings.json (kept as code so that they stay reviewable)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from hs.c01 import *  # noqa


def w(name, case):
    json.dump(case, open(os.path.join(V, 'known', name), 'w'), indent=1)


conf = {'/ws1/.hlasmplugin/proc_grps.json': jconf({'pgroups': [{'name': 'P1', 'libs': ['lib1']}]}),
        '/ws1/.hlasmplugin/pgm_conf.json': jconf({'pgms': [{'program': '*', 'pgroup': 'P1'}]})}
ops = [op_init([('ws1', '/ws1')]), {'op': 'open', 'uri': 'file:///ws1/p1.hlasm', 'text': L('', 'M1', '1') + '\n'}, {'op': 'settle'},
       {'op': 'open', 'uri': 'file:///ws1/p2.hlasm', 'text': L('', 'M1', '1') + '\n'}, {'op': 'settle'},
       {'op': 'close', 'uri': 'file:///ws1/p2.hlasm'}]
w('C01-shared-member.json', {'sc': {'fs': dict(conf, **{'/ws1/lib1/M1': L('', 'LR', '1,2') + '\n'}), 'dirs': ['/ws1/lib1'], 'ops': tail(ops),
                                    'sched': {'seed': 1, 'policy': 0}}, 'folders': [('ws1', '/ws1')], 'model': False})
ops = [op_init([('ws1', '/ws1')]), {'op': 'open', 'uri': 'file:///ws1/p1.hlasm', 'text': L('', 'COPY', 'C1') + '\n'}, {'op': 'settle'},
       {'op': 'open', 'uri': 'file:///ws1/lib1/C1', 'text': L('', 'Z1') + '\n'}, {'op': 'settle'},
       {'op': 'close', 'uri': 'file:///ws1/p1.hlasm'}]
w('C01-unused-member.json', {'sc': {'fs': dict(conf, **{'/ws1/lib1/C1': L('', 'Z1') + '\n'}), 'dirs': ['/ws1/lib1'], 'ops': tail(ops),
                                    'sched': {'seed': 1, 'policy': 0}}, 'folders': [('ws1', '/ws1')], 'model': False})
