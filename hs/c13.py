from .c09 import *

CAND = [('ws', '/ws'), ('ws', '/ws1'), ('in', '/ws1/in'), ('deep', '/ws1/in/deep'), ('ws', '/ws10'), ('z', '/wsz/ws1'), ('a', '/wsa'), ('b', '/wsa/b'), ('ws', '/ws1/in2'), ('d', '/ws1/in/deep/er'), ('s', '/ws p/\u00e4')]


class C13(Prop):
    id = 'C13'
    rule = ('nested, sibling, same-named and prefix-related folders, each with its own configuration and libraries, are added and removed '
            'while documents inside and outside of them are open, edited and traced: after the next analysis diagnostics and answers equal those of '
            'a server started with the final folders and of the reference model')

    def make(self, rng, i):
        g = Gen(rng)
        heavy = rng.choice([0, 0, 0.2])
        fs, dirs = {}, []
        macros, copies = ['M1', 'M2'], ['C1']
        info = {'macros': macros, 'copies': copies}
        cand = rng.sample(CAND[:6], rng.randint(2, 4)) if rng.random() < 0.9 else rng.sample(CAND, rng.randint(2, len(CAND)))
        if rng.random() < 0.1:
            cand = [(n, f + '/') for n, f in cand]
        docs = ['/out/p0.hlasm'] if rng.random() < 0.5 else []
        if rng.random() < 0.2:
            docs.append('untitled:Untitled-1')
        shared = rng.random() < 0.3
        for name, f in cand:
            f = f.rstrip('/')
            lib = f + '/lib1'
            dirs.append(lib)
            for k, m in enumerate(macros):
                if rng.random() < 0.8:
                    fs[lib + '/' + m] = g.macro_text(m, macros[:k], copies)
            for c in copies:
                if rng.random() < 0.8:
                    fs[lib + '/' + c] = g.copy_text()
            libs = ['lib1']
            if shared and rng.random() < 0.6:
                libs.insert(rng.randint(0, 1), rng.choice(cand)[1].rstrip('/') + '/lib1')
            if rng.random() < 0.9:
                fs[f + '/.hlasmplugin/proc_grps.json'] = jconf({'pgroups': [{'name': 'P1', 'libs': libs}]})
                fs[f + '/.hlasmplugin/pgm_conf.json'] = jconf({'pgms': [{'program': rng.choice(['p1.hlasm', 'p1.hlasm', '*.hlasm', '*']), 'pgroup': 'P1'}]})
                if rng.random() < 0.25:
                    k = rng.choice(['proc_grps', 'pgm_conf', 'pgm_conf'])
                    fs[f + '/.hlasmplugin/%s.json' % k] = rng.choice(['{', '']) if k == 'proc_grps' or rng.random() < 0.5 else jconf({'pgms': [{'program': 'p1.hlasm', 'pgroup': 'NOPE'}]})
            docs.append(f + '/p1.hlasm')
            if rng.random() < 0.2:
                docs.append(f + '/sub/p1.hlasm')
        ed = Editor(rng, g, info, heavy)
        start = [c for c in cand if rng.random() < 0.5]
        init = op_init(start)
        if len(start) == 1 and rng.random() < 0.3:
            init['root'] = uri(start[0][1])
            start = [(init['root'], start[0][1])]  # such a folder has no other name
            if rng.random() < 0.3:
                init['root_path'] = start[0][1]
                start = [(start[0][1], start[0][1])]
        ops = [init]
        have = list(start)
        opened = set()
        snaps = []
        sess = 0
        traced = rng.choice([0, 0, 0.5, 1])
        for _ in range(some(rng, 4, 20, 70)):
            r = rng.random()
            p = rng.choice(docs)
            if r < 0.35:
                if traced and sess < 3 and rng.random() < 0.3:
                    sess += 1
                    q = rng.choice([x for x in docs if x[0] == '/'])
                    fs.setdefault(q, text_of(g.program(macros, copies)))
                    ops.append(full_trace(rng, sess, q, [rng.choice(dirs) + '/M1'], n=rng.randint(0, 5), op='trace_bg'))
                add = [c for c in cand if c[1] not in [f for _, f in have] and rng.random() < 0.4]
                rem = [c for c in have if rng.random() < 0.3]
                if rem and rng.random() < 0.35:
                    # a folder that is renamed in the editor is removed and added by one event
                    add = add + [('renamed', f) for _, f in rng.sample(rem, 1)]
                if not add and not rem:
                    continue
                have = [c for c in have if c not in rem] + add
                new = [{'op': 'folders', 'add': [{'name': n, 'uri': uri(f)} for n, f in add], 'rem': [{'name': n, 'uri': uri(f)} for n, f in rem], 'keep': 1}]
                if rng.random() < 0.5:
                    new += [{'op': 'settle', 'keep': 1}, {'op': 'snapshot', 'name': 'k%d' % len(snaps), 'keep': 1}]
                    snaps.append([f for _, f in have])
            elif p not in opened:
                new = [ed.open(p)]
                opened.add(p)
            elif r < 0.45:
                new = [{'op': 'close', 'uri': uri(p)}]
                opened.discard(p)
            elif r < 0.55:
                new = [{'op': 'req', 'm': rng.choice(METHODS), 'uri': uri(p), 'line': rng.randrange(4), 'ch': rng.choice([0, 1, 9, 16])}]
            elif r < 0.63:
                f = rng.choice(cand)[1].rstrip('/')
                k = rng.choice(macros)
                m = f + '/lib1/' + k
                new = [{'op': 'put', 'path': m, 'text': g.macro_text(k, macros[:macros.index(k)], copies)}, {'op': 'watch', 'paths': [m]}]
            elif r < 0.7 and sess < 3 and p[0] == '/' and rng.random() < traced:
                # its folder may be added or removed meanwhile
                sess += 1
                if p not in opened:
                    fs.setdefault(p, text_of(g.program(macros, copies)))
                new = [full_trace(rng, sess, p, [rng.choice(dirs) + '/M1'], n=rng.randint(0, 5), op='trace_bg')]
            else:
                new = ed.edit(p)
            new[0]['d'] = gen_delay(rng)
            ops += new
        ops += [{'op': 'join_bg'}, {'op': 'settle'}, {'op': 'watch', 'paths': [f.rstrip('/') + '/none' for _, f in have], 'keep': 1}, {'op': 'touch_all'}, {'op': 'settle'}, {'op': 'touch_all'}, {'op': 'settle'}]
        ops += final_reqs(rng, ed, opened)
        tail(ops)
        rng.shuffle(have)
        return {'sc': {'fs': fs, 'dirs': dirs, 'ops': ops, 'sched': gen_sched(rng), 'want_hist': False}, 'folders': have, 'shared': shared, 'snaps': snaps}

    def evaluate(self, run, case):
        r = run(case['sc'])
        v = sim_violations(r)
        cnt = {'folder_changes': sum(1 for o in case['sc']['ops'] if o['op'] == 'folders')}
        info = {'count': cnt}
        if v:
            return v, info
        for o in case['sc']['ops']:
            if o['op'] == 'trace_bg' and not any(c in ('kill', 'disconnect') for c in o['cmds']):
                t = r['obs'].get('trace', {}).get(str(o['s']))
                cnt['traces'] = cnt.get('traces', 0) + 1
                if t and (t['exited'] != 1 or t['terminated'] != 1):
                    v.append(('trace-end', 'session %s: exited %d terminated %d' % (o['s'], t['exited'], t['terminated'])))
        extra = [o for o in case['sc']['ops'] if o['op'] == 'req' and o.get('tag', '').startswith('f') and o['uri'] in r['docs']]
        ref = [{'op': 'watch', 'paths': [f.rstrip('/') + '/none' for _, f in case['folders']]}, {'op': 'touch_all'}, {'op': 'settle'}]
        f = run(fresh_scenario(case['sc'], r, case['folders'], extra=ref + extra))
        if f['viol']:
            return [('fresh-' + x['class'], x['detail']) for x in f['viol']], info
        # the configuration of exactly the open folders is reported on
        for k, have in enumerate(case.get('snaps', [])):
            got = {u for u, ds in r['obs']['k%d' % k].items() if ds and u.endswith('.json')}
            want = {uri(x.rstrip('/') + '/.hlasmplugin/%s.json' % y) for x in have for y in ('proc_grps', 'pgm_conf')}
            invalid = {u for u in want if r['fs'].get(path_of(u)) in ('{', '')}
            # (pgm_conf.json is read only if the other file is valid)
            invalid -= {u.replace('proc_grps', 'pgm_conf') for u in invalid if 'proc_grps' in u}
            cnt['configuration_snapshots'] = cnt.get('configuration_snapshots', 0) + 1
            if got - want:
                v.append(('removed-folder-reported', 'after change %d of folders: %s' % (k, sorted(got - want))))
            if invalid - got:
                v.append(('invalid-not-reported', 'after change %d of folders: %s' % (k, sorted(invalid - got))))
        for s in ('s0', 's1'):
            for d in diff_diags(r['obs'][s], f['obs'][s]):
                v.append(('diags-differ-' + s, d))
        for o in extra:
            a, b = r['obs']['resp'].get(o['tag']), f['obs']['resp'].get(o['tag'])
            if not a or canon(a['m'], a['result']) != canon(a['m'], b['result']):
                v.append(('answer-differs', '%s: history %s, fresh %s' % (json.dumps(b['params']), json.dumps(a and a['result'])[:300], json.dumps(b['result'])[:300])))
        w = World()
        w.fs = r['fs']
        w.open = {path_of(u): t for u, t in r['docs'].items()}
        w.folders = case['folders']
        e = once(w.expected())
        m = once(markers(f['obs']['s0']))
        if e != m:
            v.append(('model-differs', 'model only: %s; server only: %s' % ([x for x in e if x not in m][:4], [x for x in m if x not in e][:4])))
        return v, info
