from .c09 import *

TEXT_OPS = ('open', 'change', 'close')


class C14(Prop):
    id = 'C14'
    rule = ('documents are edited at any moment of the running analysis; every published set of diagnostics of a document equals what a '
            'server that is given one notification at a time shows after one of the notifications sent so far, and successive ones never '
            'go back')

    def make(self, rng, i):
        g = Gen(rng)
        heavy = rng.choice([0.1, 0.3, 0.5])
        fs, info = basic_world(rng, g, heavy, nprog=rng.choice([1, 1, 2]))
        ed = Editor(rng, g, info, heavy)
        ops = [op_init(info['folders'])]
        opened = set()
        members = sorted(info['where'].values())
        mtext = {}
        progs = info['progs'] + (['/ws1/noconf.asm'] if rng.random() < 0.2 else [])
        with_members = rng.random() < 0.35
        for p in progs:
            ops.append(ed.open(p))
            opened.add(p)
        burst = rng.choice([0, 200, 3000, 20000])
        for _ in range(some(rng, 3, 16, 50)):
            r = rng.random()
            p = rng.choice(progs)
            if p not in opened:
                new = [ed.open(p)]
                opened.add(p)
            elif r < 0.04:
                new = [{'op': 'close', 'uri': uri(p)}]
                opened.discard(p)
            elif r < 0.2:
                new = [{'op': 'req', 'm': rng.choice(METHODS), 'uri': uri(p), 'line': rng.randrange(4), 'ch': rng.choice([0, 1, 9, 16])}]
            elif r < 0.4 and with_members:
                m = rng.choice(members)
                name = m.rsplit('/', 1)[1]
                k = info['macros'].index(name) if name in info['macros'] else None
                t = g.copy_text() if k is None else g.macro_text(name, info['macros'][:k], info['copies'])
                if m not in mtext:
                    new = [{'op': 'open', 'uri': uri(m), 'text': t}]
                else:
                    new = [{'op': 'change', 'uri': uri(m), 'edits': [{'all': 1, 'text': t}]}]
                mtext[m] = t
            else:
                new = ed.edit(p)
            for o in new:
                o['d'] = rng.randrange(burst + 1) if rng.random() < 0.7 else gen_delay(rng)
            ops += new
        tail(ops)
        sc = {'fs': fs, 'dirs': info['dirs'], 'ops': ops, 'sched': gen_sched(rng), 'want_hist': False, 'want_pubs': True}
        return {'sc': sc, 'folders': info['folders'], 'progs': progs, 'members': members if len(progs) == 1 and not mtext else []}

    def evaluate(self, run, case):
        r = run(case['sc'])
        v = sim_violations(r)
        pubs = r['obs'].get('pubs', [])
        cnt = {'publications': len(pubs), 'superseded_texts': 0}
        info = {'count': cnt}
        if v:
            return v, info
        ops = [op_init(case['folders']), {'op': 'settle'}]
        for o in case['sc']['ops']:
            if o['op'] in TEXT_OPS:
                o = dict(o)
                o.pop('d', None)
                ops += [o, {'op': 'settle'}, {'op': 'snapshot'}]
        ops += [{'op': 'shutdown'}, {'op': 'exit'}]
        f = run({'fs': case['sc']['fs'], 'dirs': case['sc']['dirs'], 'ops': ops, 'sched': {'seed': 1, 'policy': 0}, 'want_hist': False})
        if f['viol']:
            return [('fresh-' + x['class'], x['detail']) for x in f['viol']], info
        n = max([int(k[1:]) for k in f['obs'] if k[0] == 'n' and k[1:].isdigit()] or [0])
        at = {u: {} for u in map(uri, case['progs'] + case['members'])}
        seen = {u: set() for u in at}
        for sent, u, ds in pubs:
            if u not in at:
                continue
            last = max(at[u].values()) if at[u] else 0
            for k in range(last, min(sent, n) + 1):
                if (f['obs']['n%d' % k].get(u, []) if k else []) == ds:
                    at[u][len(at[u])] = k
                    seen[u].add(k)
                    break
            else:
                old = [k for k in range(n + 1) if (f['obs']['n%d' % k].get(u, []) if k else []) == ds]
                near = f['obs'].get('n%d' % min(sent, n), {}).get(u, [])
                v.append(('diags-go-back' if old and min(old) < last else 'diags-from-the-future' if old else 'diags-torn',
                          '%s: after %d notifications, last reflected %d, %s; compared with the newest text: %s' % (
                              u, sent, last, 'these belong to %s' % old if old else 'these belong to none', diff_diags({u: ds}, {u: near}, 'published', 'newest'))))
                break
        cnt['superseded_texts'] = sum(max(0, n - len(s)) for u, s in seen.items() if u in map(uri, case['progs'][:1]))
        return v, info
