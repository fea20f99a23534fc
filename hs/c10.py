from .c01 import *

PG = '/ws1/.hlasmplugin/proc_grps.json'
PC = '/ws1/.hlasmplugin/pgm_conf.json'
BAD = ['', '{', 'x', '[]', '{}', '3', 'null', '{"pgroups": 1}', '{"pgms": 1}', '{"pgms": [{"program": "p1.hlasm"}], "pgroups": [{"name": "P1"}]}',
       '{"pgroups": [{"name": "P1", "libs": [1]}], "pgms": [[]]}', '{"pgroups": [{"name": 1, "libs": []}], "pgms": [{"program": 1, "pgroup": 2}]}',
       '{"pgroups": [], "pgms": []', '{"pgroups": [{"name": "P1", "libs": ["lib1"], "asm_options": 3}], "pgms": {"a": 1}}', '\xff\xfe', '{"pgroups": "\\ud800"}']


class ConfWorld:
    """two libraries with members of the same names, some with an extension; random valid configurations of them"""

    def __init__(self, rng, g):
        self.rng, self.g = rng, g
        self.macros = ['M1', 'M2', 'M3']
        self.copies = ['C1', 'C2']
        self.libs = ['lib1', 'lib2']
        self.fs = {}
        for d in self.libs:
            for k, m in enumerate(self.macros):
                if rng.random() < 0.7:
                    self.fs[self.path(d, m)] = g.macro_text(m, self.macros[:k], self.copies)
            for c in self.copies:
                if rng.random() < 0.7:
                    self.fs[self.path(d, c)] = g.copy_text()
        self.progs = ['/ws1/p1.hlasm', '/ws1/p2.hlasm', '/ws1/sub/p3.hlasm']
        if rng.random() < 0.2:
            self.progs[rng.randrange(3)] = rng.choice(['/ws1/p1xhlasm', '/ws1/p1.hlasm.bak', '/ws1/sub/sub/p(1).hlasm', '/ws1/p[1].hlasm', '/ws1/p1.HLASM'])

    def path(self, d, m):
        return '/ws1/%s/%s%s' % (d, m, self.rng.choice(['', '', '', '.mac', '.mac', '.x']))

    def text_for(self, path):
        m = path.rsplit('/', 1)[1].split('.')[0]
        if m in self.macros:
            return self.g.macro_text(m, self.macros[:self.macros.index(m)], self.copies)
        return self.g.copy_text()

    def pg(self):
        rng = self.rng
        groups = []
        for name in ['P%d' % k for k in range(1, some(rng, 1, 3, 20) + 1)]:
            libs = []
            for d in rng.sample(self.libs, rng.randint(0 if rng.random() < 0.2 else 1, 2)):
                l = d
                if rng.random() < 0.4:
                    l = {'path': rng.choice([d, d + '/', '/ws1/' + d, './' + d, 'sub/../' + d])}
                    if rng.random() < 0.5:
                        l['macro_extensions'] = rng.choice([['mac'], ['.mac', ''], ['x', 'mac'], ['']])
                    if rng.random() < 0.3:
                        l['optional'] = rng.random() < 0.5
                libs.append(l)
            if rng.random() < 0.1:
                libs.append(rng.choice(['nodir', {'path': 'nodir', 'optional': True}]))
            gr = {'name': name, 'libs': libs}
            if rng.random() < 0.3:
                gr['asm_options'] = {'SYSPARM': rng.choice(['A', 'B'])}
            groups.append(gr)
        c = {'pgroups': groups}
        if rng.random() < 0.2:
            c['macro_extensions'] = rng.choice([['.mac'], ['mac', 'x']])
        return jconf(c)

    def pc(self):
        rng = self.rng
        ps = []
        for p in self.progs + ['/ws1/p1.hlasm']:
            if rng.random() < 0.6:
                ps.append({'program': p[5:], 'pgroup': rng.choice(['P1', 'P1', 'P2', 'P3'])})
        if rng.random() < 0.35:
            ps.insert(rng.randint(0, len(ps)), {'program': rng.choice(['*.hlasm', 'p?.hlasm', 'sub/*', '*', 'p*', 'sub/p?.hlasm', '*1*', '*/*', 'p(?).hlasm', '*p[1].hlasm', '?1.hlasm']), 'pgroup': rng.choice(['P1', 'P2'])})
        if rng.random() < 0.05:
            ps = [{'program': 'q%d.hlasm' % k, 'pgroup': 'P1'} for k in range(rng.randint(5, 60))] + ps
        c = {'pgms': ps}
        if rng.random() < 0.15:
            c['alwaysRecognize'] = rng.choice([['*.mac'], ['*.x', '*.mac'], ['p*']])
        if rng.random() < 0.25:
            c['diagnosticsSuppressLimit'] = rng.choice([0, 1, 3, 50])
        return jconf(c)


class C10(Prop):
    id = 'C10'
    rule = ('valid and invalid contents of both configuration files (on disk or in the editor), settings and library members change while '
            'programs are edited; with an invalid or missing file the last valid configuration stays in effect and invalid ones are '
            'reported; after repair and the next analysis everything equals a fresh server and the reference model')

    def make(self, rng, i):
        g = Gen(rng)
        heavy = rng.choice([0, 0.1, 0.3])
        cw = ConfWorld(rng, g)
        fs = dict(cw.fs)
        info = {'macros': cw.macros, 'copies': cw.copies}
        ed = Editor(rng, g, info, heavy)
        exact = rng.random() < 0.5
        pg, pc = cw.pg(), cw.pc()
        fs[PG], fs[PC] = pg, pc
        good = {PG: pg, PC: pc}
        if rng.random() < 0.25:
            for f in (PG, PC):
                r = rng.random()
                if r < 0.3:
                    del fs[f]
                elif r < 0.6:
                    fs[f] = rng.choice(BAD)
            good = None if any(fs.get(f) != x for f, x in good.items()) else good
        settings = {'diagnosticsSuppressLimit': rng.choice([0, 2, 10, 100])} if rng.random() < 0.4 else {}
        ops = [op_init([('ws1', '/ws1')], settings)]
        opened, copen = set(), {}
        cur = {f: fs.get(f) for f in (PG, PC)}  # what the server would read
        disk = dict(cur)
        valid = {PG: cur[PG] == pg, PC: cur[PC] == pc}
        for p in rng.sample(cw.progs, rng.randint(1, 3)):
            ops.append(ed.open(p))
            opened.add(p)
            if rng.random() < 0.5:
                b = ed.blocks[p]
                u = g.uid()
                b.insert(0, [L('', 'AIF', "('&SYSPARM' EQ 'A').Q%d" % u), L('', 'Z%d' % g.uid()), L('.Q%d' % u, 'ANOP')])
                ed.text[p] = ops[-1]['text'] = text_of(b)
        if exact:
            ops.append({'op': 'settle', 'keep': 1})

        def conf_op(f, text, keep=False):
            """makes the server see this content of a configuration file"""
            if f in copen:
                o = [{'op': 'change', 'uri': uri(f), 'edits': [{'all': 1, 'text': text}]}]
                copen[f] = text
                if rng.random() < 0.3:
                    o.append({'op': 'save', 'uri': uri(f)})
                    disk[f] = text
                return o
            disk[f] = text
            return [{'op': 'put', 'path': f, 'text': text}, {'op': 'watch', 'paths': [f]}]

        def opt(o):
            for x in o:
                x['keep'] = 1
            return o

        for _ in range(some(rng, 4, 18, 70)):
            r = rng.random()
            p = rng.choice(cw.progs)
            conf = False
            if r < 0.35:
                conf = True
                f = rng.choice([PG, PC])
                q = rng.random()
                if q < 0.12 and f not in copen:
                    t = disk[f] if disk[f] is not None else ''
                    new = [{'op': 'open', 'uri': uri(f), 'text': t}]
                    copen[f] = t
                    valid[f] = valid[f] and disk[f] is not None
                elif q < 0.24 and f in copen:
                    new = [{'op': 'close', 'uri': uri(f)}, {'op': 'watch', 'paths': [f]}]
                    del copen[f]
                    t = disk[f]
                    valid[f] = t is not None and t not in BAD
                elif q < 0.32 and f not in copen:
                    new = [{'op': 'del', 'path': f}, {'op': 'watch', 'paths': [f], 'type': 3}]
                    disk[f] = None
                    valid[f] = False
                else:
                    bad = q < 0.55
                    t = rng.choice(BAD) if bad else cw.pg() if f == PG else cw.pc()
                    new = conf_op(f, t)
                    valid[f] = not bad
                cur = {x: copen[x] if x in copen else disk[x] for x in (PG, PC)}
                if valid[PG] and valid[PC]:
                    good = dict(cur)
                if exact:
                    new = [{'op': 'settle'}] + new + [{'op': 'settle'}]
                new = opt(new)
            elif r < 0.42:
                settings = {'diagnosticsSuppressLimit': rng.choice([0, 1, 5, 10, 100])} if rng.random() < 0.8 else {}
                new = [{'op': 'settings', 'value': settings}]
                if rng.random() < 0.5:
                    # the client answers the request for them later; meanwhile they may change again
                    new[0]['mode'] = 3
                    if rng.random() < 0.5:
                        settings = {'diagnosticsSuppressLimit': rng.choice([0, 1, 5, 10, 100])}
                        new.append({'op': 'settings', 'value': settings, 'mode': 3, 'd': rng.choice([0, 1000, 20000, 200000])})
                    if rng.random() < 0.15:
                        for _ in range(rng.randint(2, 20)):
                            settings = {'diagnosticsSuppressLimit': rng.choice([0, 1, 5, 10, 100])}
                            new.append({'op': 'settings', 'value': settings, 'mode': rng.choice([0, 3, 3]), 'd': rng.choice([0, 1000, 20000])})
                    if rng.random() < 0.3:
                        new.append({'op': 'answer_settings', 'd': gen_delay(rng)})
                new = opt(new)
            elif r < 0.55:
                d = rng.choice(cw.libs)
                have = sorted(x for x in fs if x.startswith('/ws1/%s/' % d))
                if rng.random() < 0.4 and have:
                    m = rng.choice(have)
                    new = [{'op': 'del', 'path': m}, {'op': 'watch', 'paths': [m], 'type': 3}]
                else:
                    m = cw.path(d, rng.choice(cw.macros + cw.copies))
                    new = [{'op': 'put', 'path': m, 'text': cw.text_for(m)}, {'op': 'watch', 'paths': [m], 'type': 1}]
            elif p not in opened:
                new = [ed.open(p)]
                opened.add(p)
            elif r < 0.65:
                new = [{'op': 'close', 'uri': uri(p)}]
                opened.discard(p)
            elif r < 0.75:
                new = [{'op': 'req', 'm': rng.choice(['hover', 'definition', 'semanticTokens', 'completion']), 'uri': uri(p), 'line': rng.randrange(4), 'ch': rng.choice([0, 1, 9, 16])}]
            else:
                new = ed.edit(p)
            new[0]['d'] = gen_delay(rng)
            ops += new
        ops += [{'op': 'settle'}, {'op': 'watch', 'paths': ['/ws1/none'], 'keep': 1}, {'op': 'touch_all'}, {'op': 'settle'}, {'op': 'touch_all'}, {'op': 'settle'}, {'op': 'snapshot', 'name': 'mid'}]
        mid = {'valid': dict(valid), 'good': good, 'cur': cur, 'exact': exact}
        # the repair
        for f in rng.sample([PG, PC], 2):
            if not valid[f]:
                new = conf_op(f, cw.pg() if f == PG else cw.pc())
                new[0]['d'] = gen_delay(rng)
                ops += opt(new)
        ops += [{'op': 'settle'}, {'op': 'watch', 'paths': ['/ws1/none'], 'keep': 1}, {'op': 'touch_all'}]
        tail(ops)
        return {'sc': {'fs': fs, 'dirs': ['/ws1/lib1', '/ws1/lib2'], 'ops': ops, 'sched': gen_sched(rng), 'want_hist': False}, 'mid': mid}

    def evaluate(self, run, case):
        r = run(case['sc'])
        v = sim_violations(r)
        cnt = {}
        info = {'count': cnt}
        if v:
            return v, info
        # the settings at the end
        settings = case['sc']['ops'][0].get('settings')
        for o in case['sc']['ops']:
            if o['op'] == 'settings':
                settings = o['value']
        folders = [('ws1', '/ws1')]
        f = run(fresh_scenario(case['sc'], r, folders, settings, extra=[{'op': 'watch', 'paths': ['/ws1/none']}, {'op': 'touch_all'}, {'op': 'settle'}]))
        if f['viol']:
            return [('fresh-' + x['class'], x['detail']) for x in f['viol']], info
        for s in ('s0', 's1'):
            for d in diff_diags(r['obs'][s], f['obs'][s]):
                v.append(('diags-differ-' + s, d))
        texts = ' '.join(list(r['fs'].values()) + list(r['docs'].values()))
        # (of several files that define the same member, an unspecified one is taken; the server warns)
        if '&SYSPARM' not in texts and 'alwaysRecognize' not in texts and not any('L0004' in d for d in f['obs']['s0'].get('file://', [])):
            cnt['compared_with_model'] = 1
            w = World()
            w.fs = r['fs']
            w.open = {path_of(u): t for u, t in r['docs'].items()}
            w.folders = folders
            w.limit = (settings or {}).get('diagnosticsSuppressLimit', 10)
            e = once(w.expected())
            k = once(markers(f['obs']['s0']))
            if e != k:
                v.append(('model-differs', 'model only: %s; server only: %s' % ([x for x in e if x not in k][:4], [x for x in k if x not in e][:4])))
        # while the configuration was broken
        m = case['mid']
        mid = r['obs']['mid']
        bad = [x for x in (PG, PC) if not m['valid'][x]]
        if bad:
            cnt['broken_configuration'] = 1
            codes = {json.loads(d)['code'] for x in (PG, PC) for d in mid.get(uri(x), [])}
            first = bad[0]
            if m['cur'][first] is not None and not (codes & {'W0002', 'W0003'}):
                v.append(('not-reported', 'invalid %s: %r is not reported' % (first, m['cur'][first])))
            if m['exact']:
                cnt['last_valid_in_effect'] = 1
                r2 = {'fs': {k: t for k, t in r['fs'].items() if k not in (PG, PC)}, 'docs': {k: t for k, t in r['docs'].items() if k not in (uri(PG), uri(PC))}}
                r2['fs'].update(m['good'] or {})
                f = run(fresh_scenario(case['sc'], r2, folders, settings, extra=[{'op': 'watch', 'paths': ['/ws1/none']}, {'op': 'touch_all'}, {'op': 'settle'}]))
                if f['viol']:
                    return [('fresh-' + x['class'], x['detail']) for x in f['viol']], info
                a, b = ({k: x for k, x in o.items() if k not in (uri(PG), uri(PC))} for o in (mid, f['obs']['s1']))
                for d in diff_diags(a, b, 'broken', 'last valid'):
                    v.append(('last-valid-config', d))
        return v, info
