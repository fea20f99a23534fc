from .c09 import *


RAW = ['threads', 'setBreakpoints', 'setExceptionBreakpoints', 'configurationDone', 'stackTrace', 'scopes', 'variables', 'next',
       'stepIn', 'continue', 'launch', 'initialize', 'stepOut', 'pause', 'evaluate', 'loadedSources']


def raw_args(rng, cmd, program):
    if cmd == 'initialize':
        return {'clientID': 'x', 'linesStartAt1': rng.random() < 0.5, 'columnsStartAt1': True, 'pathFormat': 'path'}
    if cmd == 'launch':
        a = {'program': program, 'stopOnEntry': rng.random() < 0.5}
        if rng.random() < 0.1:
            del a['stopOnEntry']
        return a
    if cmd == 'setBreakpoints':
        if rng.random() < 0.1:
            return {'source': {'path': program}}
        return {'source': {'path': program}, 'breakpoints': [{'line': rng.randint(1, 9)} for _ in range(rng.randint(0, 3))]}
    if cmd == 'setExceptionBreakpoints':
        return {'filters': []}
    if cmd == 'scopes':
        return {'frameId': rng.choice([0, 0, 1, 7])}
    if cmd == 'variables':
        return {'variablesReference': rng.choice([1, 1, 2, 3, 99])}
    if cmd == 'evaluate':
        return {'expression': '&A'}
    if cmd in ('configurationDone', 'loadedSources'):
        return None
    return {'threadId': 1}


class C07(Prop):
    id = 'C07'
    rule = ('1-4 debug sessions with traces and 0-2 sessions sending arbitrary requests in any state run at once with editor traffic; every '
            'request is answered once in its session with its number and command, numbers strictly increase, every trace equals the '
            'reference interpreter on its own program, diagnostics and answers of the editor equal those of a fresh server')

    def make(self, rng, i):
        g = Gen(rng)
        g.rich = rng.random() < 0.3
        heavy = rng.choice([0, 0.1, 0.3])
        fs, info = basic_world(rng, g, 0, nprog=3)
        ed = Editor(rng, g, info, 0)
        edh = Editor(rng, g, info, heavy)
        ops = [op_init(info['folders'])]
        progs = info['progs'][:rng.randint(1, 2)]
        texts = {}
        for p in progs:
            if rng.random() < 0.7:
                o = ed.open(p)
                o['keep'] = 1
                ops.append(o)
                texts[p] = ed.text[p]
            else:
                fs[p] = texts[p] = text_of(g.program(info['macros'], info['copies']))
        side = info['progs'][2]  # the editor works on this one
        o = edh.open(side)
        o['keep'] = 1
        ops += [o, {'op': 'settle', 'keep': 1}]
        launches, raws = [], {}
        sess = 0
        reuse = []
        many = some(rng, 6, 6, 20)
        for _ in range(rng.randint(3, 16) if many == 6 else 3 * many):
            r = rng.random()
            if (r < 0.3 or not sess) and sess < many:
                p = rng.choice(progs)
                sid = None
                if reuse and rng.random() < 0.3:
                    sid = reuse.pop()
                    ops += [{'op': 'join_bg', 'keep': 1}, {'op': 'settle', 'keep': 1}]
                if sid is None:
                    sess += 1
                    sid = sess
                if rng.random() < 0.7:
                    t = full_trace(rng, sid, p, info['where'].values(), n=rng.randint(0, 12), op='trace_bg')
                    t['key'] = 't%d' % len(launches)
                    if 'disconnect' not in t['cmds'] and rng.random() < 0.15:
                        t['cmds'].append('kill')
                    if rng.random() < 0.6:
                        t['dispose'] = True
                        t['keep'] = 1
                        reuse.append(sid)
                    t['pause'] = rng.choice([0, 0, 100, 3000, 30000])
                    launches.append({'key': t['key'], 'p': p})
                    new = [t]
                else:
                    raws[sid] = p
                    new = [{'op': 'dap_new', 's': sid, 'keep': 1}, {'op': 'dap', 's': sid, 'cmd': 'initialize', 'keep': 1, 'args': raw_args(rng, 'initialize', p)}]
            elif r < 0.6 and raws:
                sid = rng.choice(sorted(raws))
                new = []
                for _ in range(rng.randint(1, 5)):
                    c = rng.choice(RAW)
                    o = {'op': 'dap', 's': sid, 'cmd': c}
                    a = raw_args(rng, c, raws[sid])
                    if a is not None:
                        o['args'] = a
                    if rng.random() < 0.2:
                        o['wait'] = True
                    new.append(o)
                r = rng.random()
                if r < 0.2:
                    new.append({'op': 'dap', 's': sid, 'cmd': 'disconnect', 'args': {'restart': False}, 'keep': 1})
                if 0.1 < r < 0.3:
                    new.append({'op': 'dap_dispose', 's': sid, 'keep': 1})
                    reuse.append(sid)
                if r < 0.3:
                    del raws[sid]
            elif r < 0.63 and (set(raws) - set(reuse)):
                new = [{'op': 'register', 's': rng.choice(sorted(set(raws) - set(reuse)))}]  # a session of this number exists
            elif r < 0.66:
                new = [{'op': 'msg', 'payload': json.dumps({'jsonrpc': '2.0', 'method': 'hlasm/dap_tunnel/%d' % rng.choice([40, 41]),  # no such session
                        'params': {'seq': 1, 'type': 'request', 'command': rng.choice(['disconnect', 'threads']), 'arguments': {}}})}]
            elif r < 0.8:
                new = [{'op': 'req', 'm': rng.choice(METHODS), 'uri': uri(side), 'line': rng.randrange(4), 'ch': rng.choice([0, 1, 9, 16])}]
            else:
                new = edh.edit(side)
            new[0]['d'] = gen_delay(rng)
            ops += new
        for sid in sorted(raws):
            if rng.random() < 0.5:
                ops.append({'op': 'dap', 's': sid, 'cmd': 'disconnect', 'args': {}})
        ops += [{'op': 'join_bg'}, {'op': 'settle'}]
        ops += final_reqs(rng, edh, {side})
        tail(ops)
        sc = {'fs': fs, 'dirs': info['dirs'], 'ops': ops, 'sched': gen_sched(rng), 'want_hist': False}
        if many == 6 and rng.random() < 0.25:
            sc['dap_ids'] = dict(zip(map(str, range(1, 7)), rng.sample(rng.choice([[1, 1 + 2 ** 32, 2, 2 + 2 ** 32, 1 + 2 ** 16, 2 ** 53], [1, 11, 111, 12, 21, 121],
                                                                                   [0, 10, 100, 1000, 20, 200]]), 6)))
        return {'sc': sc, 'folders': info['folders'],
                'launches': launches, 'texts': texts, 'fs0': fs}

    def evaluate(self, run, case):
        r = run(case['sc'])
        v = sim_violations(r)
        cnt = {'traces_compared': 0, 'stops': 0, 'sessions': len(r.get('dap', {}))}
        info = {'count': cnt}
        if v:
            return v, info
        ops = {o['key']: o for o in case['sc']['ops'] if o['op'] == 'trace_bg'}
        for l in case['launches']:
            if l['key'] not in ops:
                continue
            got = r['obs']['trace'][l['key']]
            w = World()
            w.fs = case['fs0']
            w.open = dict(case['texts'])
            w.folders = case['folders']
            cnt['traces_compared'] += 1
            cnt['stops'] += len(got['stops'])
            v += [(a, l['key'] + ': ' + b) for a, b in check_trace(ops[l['key']], got, w.interp(l['p']).trace)]
        extra = [o for o in case['sc']['ops'] if o['op'] == 'req' and o.get('tag', '').startswith('f') and o['uri'] in r['docs']]
        f = run(fresh_scenario(case['sc'], r, case['folders'], extra=[{'op': 'touch_all'}, {'op': 'settle'}] + extra))
        if f['viol']:
            return [('fresh-' + x['class'], x['detail']) for x in f['viol']], info
        for s in ('s0', 's1'):
            for d in diff_diags(r['obs'][s], f['obs'][s]):
                v.append(('diags-differ-' + s, d))
        for o in extra:
            a, b = r['obs']['resp'].get(o['tag']), f['obs']['resp'].get(o['tag'])
            if not a or canon(a['m'], a['result']) != canon(a['m'], b['result']):
                v.append(('answer-differs', '%s: history %s, fresh %s' % (json.dumps(b['params']), json.dumps(a and a['result'])[:300], json.dumps(b['result'])[:300])))
        return v, info
