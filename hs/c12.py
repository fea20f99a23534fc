from .c09 import *


class C12(Prop):
    id = 'C12'
    rule = ('programs, macros and copy members are opened (with saved or unsaved text), edited, saved, closed, changed, created and deleted on '
            'disk, with change notifications at once or later: after the next analysis diagnostics and answers equal those of a fresh '
            'server on the final documents and files and of the reference model')

    def make(self, rng, i):
        g = Gen(rng)
        heavy = rng.choice([0, 0, 0.1])
        fs, info = basic_world(rng, g, heavy, nprog=rng.randint(1, 2))
        libdirs = info['dirs']
        ed = Editor(rng, g, info, heavy)
        disk = dict(fs)
        members = sorted(info['where'].values())
        allpaths = [d + '/' + m for d in libdirs for m in info['macros'] + info['copies']]
        raw = rng.random() < 0.2
        texts = {}  # open members
        opened = set()
        owed = set()  # changed on disk, not notified yet
        ops = [op_init(info['folders'])]

        def mtext(m, disk=False):
            name = m.rsplit('/', 1)[1]
            k = info['macros'].index(name) if name in info['macros'] else None
            t = g.copy_text() if k is None else g.macro_text(name, info['macros'][:k], info['copies'])
            return spoil(rng, t) if raw and disk else t

        def watch(m, kind):
            if rng.random() < 0.75:
                ps = [m] + [x for x in sorted(owed) if rng.random() < 0.5]
                owed.difference_update(ps)
                return [{'op': 'watch', 'paths': ps, 'type': kind, 'keep': 1}]
            owed.add(m)
            return []
        for _ in range(some(rng, 4, 22, 80)):
            r = rng.random()
            p = rng.choice(info['progs'])
            m = rng.choice(allpaths)
            if not opened or (p not in opened and r < 0.5):
                new = [ed.open(p)]
                opened.add(p)
            elif r < 0.06 and p in opened:
                new = [{'op': 'close', 'uri': uri(p)}]
                opened.discard(p)
            elif r < 0.12 and p in opened:
                new = [{'op': 'save', 'uri': uri(p), 'watch': rng.random() < 0.8}]
            elif r < 0.2:
                new = [{'op': 'req', 'm': rng.choice(METHODS), 'uri': uri(p), 'line': rng.randrange(4), 'ch': rng.choice([0, 1, 9, 16])}]
            elif r < 0.38 and p in opened:
                new = ed.edit(p)
            elif m in texts:
                if r < 0.6:
                    t = mtext(m)
                    new = [{'op': 'change', 'uri': uri(m), 'edits': e} for e in edit_between(rng, texts[m], t)]
                    texts[m] = t
                elif r < 0.75:
                    new = [{'op': 'save', 'uri': uri(m), 'watch': True, 'keep': 1}]
                    disk[m] = texts[m]
                elif r < 0.85:
                    t = mtext(m, True)  # somebody else writes the file
                    new = [{'op': 'put', 'path': m, 'text': t}] + watch(m, 2)
                    disk[m] = t
                else:
                    new = [{'op': 'close', 'uri': uri(m), 'keep': 1}]
                    if m in owed:
                        pass
                    del texts[m]
            elif m in disk:
                if r < 0.6:
                    t = disk_text(disk[m]) if rng.random() < 0.4 else mtext(m)
                    new = [{'op': 'open', 'uri': uri(m), 'text': t, 'keep': 1}]
                    texts[m] = t
                elif r < 0.9:
                    t = mtext(m, True)
                    new = [{'op': 'put', 'path': m, 'text': t}] + watch(m, 2)
                    disk[m] = t
                else:
                    new = [{'op': 'del', 'path': m, 'keep': 1}] + watch(m, 3)
                    del disk[m]
            else:
                t = mtext(m, True)
                new = [{'op': 'put', 'path': m, 'text': t, 'keep': 1}] + watch(m, 1)
                disk[m] = t
            new[0]['d'] = gen_delay(rng)
            ops += new
        if owed:
            ops.append({'op': 'watch', 'paths': sorted(owed), 'd': gen_delay(rng), 'keep': 1})
        ops += [{'op': 'settle'}, {'op': 'touch_all'}, {'op': 'settle'}, {'op': 'touch_all'}, {'op': 'settle'}]
        ed.text.update(texts)
        ops += final_reqs(rng, ed, opened | set(texts))
        tail(ops)
        return {'sc': {'fs': fs, 'dirs': info['dirs'], 'ops': ops, 'sched': gen_sched(rng), 'want_hist': False}, 'folders': info['folders']}

    def evaluate(self, run, case):
        r = run(case['sc'])
        v = sim_violations(r)
        cnt = {}
        info = {'count': cnt}
        if v:
            return v, info
        extra = [o for o in case['sc']['ops'] if o['op'] == 'req' and o.get('tag', '').startswith('f') and o['uri'] in r['docs']]
        f = run(fresh_scenario(case['sc'], r, case['folders'], extra=[{'op': 'touch_all'}, {'op': 'settle'}] + extra))
        if f['viol']:
            return [('fresh-' + x['class'], x['detail']) for x in f['viol']], info
        for s in ('s0', 's1'):
            for d in diff_diags(r['obs'][s], f['obs'][s]):
                v.append(('diags-differ-' + s, d))
        for o in extra:
            a, b = r['obs']['resp'].get(o['tag']), f['obs']['resp'].get(o['tag'])
            if not a or canon(a['m'], a['result']) != canon(a['m'], b['result']):
                v.append(('answer-differs', '%s: history %s, fresh %s' % (json.dumps(b['params']), json.dumps(a and a['result'])[:300], json.dumps(b['result'])[:300])))
        w = World()
        w.fs = r['fs']
        w.open = {path_of(u): t for u, t in r['docs'].items()}
        w.folders = case['folders']
        e = once(w.expected())
        m = once(markers(f['obs']['s0']))
        if e != m:
            v.append(('model-differs', 'model only: %s; server only: %s' % ([x for x in e if x not in m][:4], [x for x in m if x not in e][:4])))
        return v, info
