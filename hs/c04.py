from .c02 import *

HEADERS = [['', ''], ['Content-Type: application/vscode-jsonrpc; charset=utf-8\r\n', ''],
           ['', 'Content-Type: application/vscode-jsonrpc; charset=utf-8\r\n'], ['X-Trace: a b\tc: 5\r\n', 'X-Other: Content\r\n'],
           ['X-Len: Content-Length: 7\r\n', ''], ['X-Long: ' + 'ab ' * 2000 + '\r\n', ''],
           [''.join('X-%d: %d\r\n' % (k, k) for k in range(30)), 'X-Empty:\r\n'], ['Content-Length-Hint: 3\r\n', 'Content: 1\r\n'],
           ['', 'X-Len: Content-Length: 7\r\n'], ['', 'X-Content-Length: 7\r\nContent-LengthX: 9\r\n'], ['', 'X-Content: Length: 3\r\n']]


def big_text(rng, tx):
    """a document that is big when sent, or makes the answers big"""
    n = rng.choice([4000, 17000, 66000, 140000])
    if rng.random() < 0.6:
        l = '*' + ''.join(rng.choice(WIDE) if rng.random() < tx.wide else 'x' for _ in range(60))
        return (l + tx.eol()) * (n // units(l)) + tx.text(3)
    return ''.join(' ' + tx.token() + tx.eol() for _ in range(n // 400))


def gen_io(rng):
    io = {}
    if rng.random() < 0.8:
        io['in_chunk'] = rng.choice([1, 2, 7, 40, 500, 3000])
    if rng.random() < 0.8:
        io['out_chunk'] = rng.choice([1, 3, 20, 200, 2000])
    if rng.random() < 0.7:
        io['headers'] = [rng.choice(HEADERS) for _ in range(rng.randint(1, 4))]
    if rng.random() < 0.7:
        io['pieces'] = [[rng.choice([1, 2, 5, 16, 17, 18, 19, 20, 21, 22, 100, 1000]), rng.choice([0, 0, 1, 20, 3000])]
                        for _ in range(rng.randint(1, 6))]
    if rng.random() < 0.4:
        io['out_buffer'] = rng.choice([1, 16, 512, 65536, 1 << 20])
    io['json'] = rng.choice([0, 0, 1, 2])
    return io


class C04(Prop):
    id = 'C04'
    rule = ('sessions of edits, requests and up to two concurrent debug sessions, with the input split into arbitrary pieces, '
            'arbitrary read sizes, extra headers and JSON styles, small output writes and a stalling reader; non-trivial: the '
            'schedule preempted a thread; oracle: frame parser on the raw output, one answer per request, traces run to their '
            'end, final diagnostics and semantic tokens equal those of a fresh server fed whole frames')

    def make(self, rng, i):
        g = Gen(rng)
        tx = Txt(rng)
        heavy = rng.choice([0, 0.1])
        fs, info = basic_world(rng, g, heavy, nprog=2)
        fs['/ws1/.hlasmplugin/pgm_conf.json'] = jconf({'pgms': [{'program': '*', 'pgroup': 'P1'}]})
        ed = Editor(rng, g, info, heavy)
        ops = [op_init(info['folders'])]
        big = rng.random() < 0.12
        u = '/ws1/u.hlasm'
        progs = info['progs']
        docs = [u] + progs[:rng.randint(0, 2)]
        for d in docs:
            if d == u:
                ops.append({'op': 'open', 'uri': uri(d), 'text': big_text(rng, tx) if big else tx.text(rng.randint(0, 8)), 'd': gen_delay(rng)})
            else:
                o = ed.open(d)
                o['d'] = gen_delay(rng)
                ops.append(o)
        nt = 0
        stalled = False
        for _ in range(some(rng, 2, 14, 60)):
            r = rng.random()
            if r < 0.35:
                new = [{'op': 'change', 'uri': uri(u), 'edits': [rand_edit(rng, tx, 8) for _ in range(rng.choice([1, 1, 3]))]}]
            elif r < 0.55 and len(docs) > 1:
                new = ed.edit(rng.choice(docs[1:]))
            elif r < 0.75:
                d = rng.choice(docs)
                new = [{'op': 'req', 'm': rng.choice(['hover', 'definition', 'references', 'completion', 'semanticTokens']), 'uri': uri(d),
                        'line': rng.randint(0, 4), 'ch': rng.randint(0, 12)} for _ in range(rng.choice([1, 3]))]
            elif r < 0.9 and nt < 2 and len(docs) > 1:
                nt += 1
                new = [{'op': 'trace_bg', 's': nt, 'program': rng.choice(docs[1:]), 'entry': True, 'inspect': rng.random() < 0.7,
                        'vars': rng.random() < 0.5, 'cmds': [rng.choice(['next', 'stepIn', 'stepIn', 'continue']) for _ in range(rng.randint(0, 8))],
                        'rest': 'continue'}]
            else:
                stalled = not stalled
                new = [{'op': 'stall', 'on': stalled}]
            new[0]['d'] = gen_delay(rng)
            ops += new
        fin = [{'op': 'settle'}, {'op': 'snapshot', 'name': 's0'}]
        fin.append({'op': 'req', 'm': 'semanticTokens', 'uri': uri(u), 'wait': True, 'tag': 'sem'})
        fin += [{'op': 'shutdown'}, {'op': 'exit'}]
        ops += [{'op': 'stall', 'on': False}, {'op': 'join_bg'}] + fin
        io = gen_io(rng)
        if big:
            for k in ('in_chunk', 'out_chunk'):
                if io.get(k, 9999) < 500:
                    io[k] = rng.choice([500, 4096, 65536])
            if 'pieces' in io:
                io['pieces'].append([20000, 0])
        if rng.random() < 0.03:
            n = rng.choice([66000, 300000, 1100000, 2200000, 5000000, 17000000])
            io['pad'] = [rng.randint(0, 12), n + rng.randint(0, 99)]
            for k in ('in_chunk', 'out_chunk'):
                if n > 2000000:
                    io.pop(k, None)
                elif io.get(k, 9999) < 500:
                    io[k] = rng.choice([4096, 65536])
            io.pop('pieces', None)
        return {'sc': {'fs': fs, 'dirs': info['dirs'], 'ops': ops, 'ids': rng.choice([0, 0, 1, 2, 3]), 'sched': gen_sched(rng), 'io': io}, 'fin': fin,
                'folders': info['folders']}

    def shrinkables(self, case):
        return [('sc', 'ops'), ('sc', 'io', 'pieces'), ('sc', 'io', 'headers')]

    def evaluate(self, run, case):
        r = run(case['sc'])
        v = sim_violations(r)
        info = {'count': {'trace_sessions': len(r['obs'].get('trace', {}))}}
        if v or 's0' not in r['obs']:
            return v, info
        for s, t in r['obs'].get('trace', {}).items():
            if t['terminated'] != 1 or t['exited'] != 1:
                v.append(('trace-end', 'session %s: exited %d terminated %d' % (s, t['exited'], t['terminated'])))
        ops = [op_init(case['folders'])]
        for u in sorted(r['docs']):
            ops.append({'op': 'open', 'uri': u, 'text': r['docs'][u]})
        f = run({'fs': r['fs'], 'dirs': case['sc'].get('dirs', []), 'ops': ops + case['fin'], 'sched': {'seed': 1, 'policy': 0}, 'want_hist': False})
        if f['viol']:
            return [('fresh-' + x['class'], x['detail']) for x in f['viol']], info
        for d in diff_diags(r['obs']['s0'], f['obs']['s0']):
            v.append(('diags-differ', d))
        a, b = r['obs'].get('resp', {}).get('sem'), f['obs'].get('resp', {}).get('sem')
        if a and b and a['result'] != b['result']:
            v.append(('tokens-differ', 'history %s fresh %s' % (json.dumps(a['result'])[:300], json.dumps(b['result'])[:300])))
        return v, info
