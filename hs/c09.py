from .c08 import *
from .c03 import canon, METHODS

FINAL_REQS = 4


def final_reqs(rng, ed, opened):
    out = []
    for k in range(FINAL_REQS):
        if not opened:
            break
        p = rng.choice(sorted(opened))
        n = max(1, len(split_lines(ed.text[p])) - 1)
        q = {'op': 'req', 'm': rng.choice(METHODS), 'uri': uri(p), 'tag': 'f%d' % k, 'wait': True, 'keep': 1}
        if q['m'] != 'semanticTokens':
            q['line'], q['ch'] = rng.randrange(n), rng.choice([0, 1, 9, 10, 16])
        out.append(q)
    return out


class C09(Prop):
    id = 'C09'
    rule = ('1-2 traces run while the same and other programs are edited and closed, macros and copy members are edited, members, watch '
            'notifications and configuration change: traces equal the reference interpreter on the text at launch (when only programs '
            'are edited), diagnostics and answers of the editor equal those of a fresh server without traces; no crash or invalid access')

    def make(self, rng, i):
        g = Gen(rng)
        g.rich = rng.random() < 0.3
        heavy = rng.choice([0, 0.1, 0.3])
        fs, info = basic_world(rng, g, 0, nprog=rng.randint(1, 2))
        ed = Editor(rng, g, info, heavy)
        exact = rng.random() < 0.6
        ops = [op_init(info['folders'])]
        opened = set()
        for p in info['progs']:
            o = ed.open(p)
            o['keep'] = 1
            ops.append(o)
            opened.add(p)
        members = sorted(info['where'].values())
        mopen = set()
        if rng.random() < 0.4:
            m = rng.choice(members)
            ops.append({'op': 'open', 'uri': uri(m), 'text': fs[m], 'keep': 1})
            ed.text[m] = fs[m]
            mopen.add(m)
        if rng.random() < 0.85:
            ops.append({'op': 'settle', 'keep': 1})
            started = True
        else:
            exact = False
        launches = []
        sess = 0
        for _ in range(some(rng, 3, 14, 50)):
            r = rng.random()
            p = rng.choice(info['progs'])
            if sess == 0 or (sess < 2 and r < 0.15):
                sess += 1
                tp = p if p in opened else sorted(opened)[0] if opened else None
                if tp is None:
                    continue
                if exact and sess == 2:
                    # all edits so far must have reached the server
                    ops.append({'op': 'settle', 'keep': 1})
                t = full_trace(rng, sess, tp, members, n=rng.randint(0, 15), op='trace_bg')
                t['pause'] = rng.choice([0, 100, 3000, 30000])
                t['keep'] = 1
                t['d'] = gen_delay(rng)
                ops += [t, {'op': 'await_launch', 's': sess, 'keep': 1}]
                launches.append({'s': sess, 'p': tp, 'text': ed.text[tp]})
                continue
            if p not in opened:
                new = [ed.open(p)]
                opened.add(p)
            elif r < 0.12:
                new = [{'op': 'close', 'uri': uri(p)}]
                opened.discard(p)
            elif r < 0.3:
                new = [{'op': 'req', 'm': rng.choice(METHODS), 'uri': uri(p), 'line': rng.randrange(4), 'ch': rng.choice([0, 1, 9, 16])}]
            elif not exact and r < 0.55:
                m = rng.choice(members)
                name = m.rsplit('/', 1)[1]
                k = info['macros'].index(name) if name in info['macros'] else None
                newt = g.copy_text() if k is None else g.macro_text(name, info['macros'][:k], info['copies'])
                if m in mopen:
                    if rng.random() < 0.3:
                        new = [{'op': 'close', 'uri': uri(m)}]
                        mopen.discard(m)
                    else:
                        new = [{'op': 'change', 'uri': uri(m), 'edits': [{'all': 1, 'text': newt}]}]
                elif rng.random() < 0.3:
                    new = [{'op': 'open', 'uri': uri(m), 'text': newt}]
                    mopen.add(m)
                else:
                    new = [{'op': 'put', 'path': m, 'text': newt}, {'op': 'watch', 'paths': [m]}]
            elif not exact and r < 0.65:
                conf = {'pgms': [{'program': q[5:], 'pgroup': 'P1'} for q in info['progs'] if rng.random() < 0.8]}
                new = [{'op': 'put', 'path': '/ws1/.hlasmplugin/pgm_conf.json', 'text': jconf(conf)}, {'op': 'watch', 'paths': ['/ws1/.hlasmplugin/pgm_conf.json']}]
            else:
                new = ed.edit(p)
            new[0]['d'] = gen_delay(rng)
            ops += new
        ops += [{'op': 'join_bg'}, {'op': 'settle'}]
        if not exact or mopen:
            ops += [{'op': 'touch_all'}, {'op': 'settle'}, {'op': 'touch_all'}, {'op': 'settle'}]
        ops += final_reqs(rng, ed, opened)
        tail(ops)
        return {'sc': {'fs': fs, 'dirs': info['dirs'], 'ops': ops, 'sched': gen_sched(rng)}, 'folders': info['folders'],
                'exact': exact, 'launches': launches, 'mopen': sorted(mopen), 'fs0': fs, 'progs': info['progs']}

    def evaluate(self, run, case):
        r = run(case['sc'])
        v = sim_violations(r)
        cnt = {'traces_compared': 0, 'stops': 0}
        info = {'count': cnt}
        if v:
            return v, info
        ops = {o['s']: o for o in case['sc']['ops'] if o['op'] == 'trace_bg'}
        if case['exact']:
            for l in case['launches']:
                if l['s'] not in ops:
                    continue
                got = dict(r['obs']['trace'][str(l['s'])])
                w = World()
                w.fs = case['fs0']
                w.open = {l['p']: got['text']} if got.get('text') is not None else {}
                w.folders = case['folders']
                cnt['traces_compared'] += 1
                cnt['stops'] += len(got['stops'])
                v += check_trace(ops[l['s']], got, w.interp(l['p']).trace)
        extra = [o for o in case['sc']['ops'] if o['op'] == 'req' and o.get('tag', '').startswith('f') and o['uri'] in r['docs']]
        f = run(fresh_scenario(case['sc'], r, case['folders'], extra=[{'op': 'touch_all'}, {'op': 'settle'}] + extra))
        if f['viol']:
            return [('fresh-' + x['class'], x['detail']) for x in f['viol']], info
        for s in ('s0', 's1'):
            for d in diff_diags(r['obs'][s], f['obs'][s]):
                v.append(('diags-differ-' + s, d))
        for o in extra:
            a, b = r['obs']['resp'].get(o['tag']), f['obs']['resp'].get(o['tag'])
            if not a or canon(a['m'], a['result']) != canon(a['m'], b['result']):
                v.append(('answer-differs', '%s: history %s, fresh %s' % (json.dumps(b['params']), json.dumps(a and a['result'])[:300], json.dumps(b['result'])[:300])))
        return v, info
