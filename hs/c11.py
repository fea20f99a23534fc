import errno
from .c09 import *

PG = '/ws1/.hlasmplugin/proc_grps.json'
PC = '/ws1/.hlasmplugin/pgm_conf.json'
ERRS = [errno.EIO, errno.EACCES, errno.EMFILE, errno.ENOENT, errno.ENOMEM, errno.ESTALE]


def disk_size(t):
    return sum(1 if '\uee80' <= c <= '\ueeff' else len(c.encode()) for c in t)


class C11(Prop):
    id = 'C11'
    rule = ('open, read, stat and directory-listing errors, short reads, premature ends and descriptor exhaustion hit configuration, '
            'members, programs, folders and the log at any point of a session: the server keeps answering; under permanent failures (from the beginning or from some '
            'point on) it shows what a fresh server shows under the same failures, and programs that do not use a failing member are unaffected; after '
            'the failures and change notifications it shows what a fresh server on a healthy disk shows')

    def shrinkables(self, case):
        return [('sc', 'ops'), ('sc', 'faults')]

    def make(self, rng, i):
        g = Gen(rng)
        heavy = rng.choice([0, 0, 0.2])
        fs, info = basic_world(rng, g, heavy)
        ed = Editor(rng, g, info, heavy)
        members = sorted(info['where'].values())
        mode = rng.choice(['any', 'any', 'any', 'permanent', 'later', 'short'])
        faults = []
        if mode in ('permanent', 'later'):
            for _ in range(rng.randint(1, 2)):
                r = rng.random()
                if r < 0.6:
                    f = {'op': rng.choice(['open', 'read', 'eof', 'tear']), 'path': rng.choice(members)}
                elif r < 0.8 or mode == 'later':
                    f = {'op': rng.choice(['list', 'readdir', 'stat']), 'path': rng.choice(info['dirs'])}
                else:
                    f = {'op': rng.choice(['open', 'read', 'tear']), 'path': rng.choice([PG, PC])}
                f.update({'from': 0, 'count': 10 ** 9, 'err': rng.choice(ERRS)})
                if f['op'] == 'tear':  # long files, which are read in several pieces
                    f['at'] = rng.choice([1, 100, 4096, 4097, 5000, 8192, 9000])
                    size = f['at'] + rng.choice([1, 300, 5000])
                    if f['path'] in (PG, PC):
                        fs[f['path']] += ' ' * size
                    else:
                        pad = ('*' + '.' * 70 + '\n') * (size // 72 + 1)
                        fs[f['path']] = pad + fs[f['path']] if rng.random() < 0.5 else fs[f['path']] + pad
                if mode == 'later':
                    f['on'] = False
                faults.append(f)
        else:
            for _ in range(some(rng, 1, 6, 20)):
                op = 'short' if mode == 'short' else rng.choice(['open', 'open', 'read', 'read', 'short', 'eof', 'stat', 'list', 'readdir', 'write'])
                path = rng.choice(['', '', '/lib1', '.hlasmplugin'] + members + [PG, PC] + info['progs'])
                if op in ('list', 'readdir'):
                    path = rng.choice(['', '/lib1', '/lib2', '/ws1'])
                if op == 'write':
                    path = ''
                f = {'op': op, 'path': path, 'from': rng.choice([0, 0, 1, 2, 3, 5, 8, 13, 30]), 'count': rng.choice([1, 1, 2, 5, 20, 10 ** 9]), 'err': rng.choice(ERRS)}
                faults.append(f)
        ops = [op_init(info['folders'])]
        opened = set()
        progs = info['progs']
        sess = 0
        dp = '/ws1/disk.hlasm'  # only ever read from the disk
        fs[dp] = text_of(g.program(info['macros'], info['copies']))
        if mode != 'short':
            for f in faults:
                if f['op'] in ('open', 'read', 'eof') and rng.random() < 0.1:
                    f['path'] = dp
        changed = False
        n = some(rng, 3, 14, 50)
        for k in range(n):
            p = rng.choice(progs)
            r = rng.random()
            if mode == 'later' and k == n // 2:
                ops += [{'op': 'faults_on', 'keep': 1, 'd': gen_delay(rng)}]
            if p not in opened:
                new = [ed.open(p)]
                opened.add(p)
            elif r < 0.12:
                new = [{'op': 'close', 'uri': uri(p)}]
                opened.discard(p)
            elif r < 0.25:
                new = [{'op': 'req', 'm': rng.choice(METHODS), 'uri': uri(p), 'line': rng.randrange(4), 'ch': rng.choice([0, 1, 9, 16])}]
            elif r < 0.45 and mode != 'short':
                m = rng.choice(members)
                name = m.rsplit('/', 1)[1]
                k = info['macros'].index(name) if name in info['macros'] else None
                newt = g.copy_text() if k is None else g.macro_text(name, info['macros'][:k], info['copies'])
                new = [{'op': 'put', 'path': m, 'text': newt}, {'op': 'watch', 'paths': [m]}]
                changed = True
            elif r < 0.52 and mode == 'any':
                new = [{'op': 'watch', 'paths': [rng.choice([PG, PC])]}]
            elif r < 0.58 and sess < 2:
                sess += 1
                t = full_trace(rng, sess, p if rng.random() < 0.6 else dp, members, n=rng.randint(0, 8), op='trace_bg')
                new = [t]
            else:
                new = ed.edit(p)
            new[0]['d'] = gen_delay(rng)
            ops += new
        ops += [{'op': 'join_bg'}, {'op': 'settle'}, {'op': 'watch', 'paths': ['/ws1/none'] if mode != 'later' else members, 'keep': 1}, {'op': 'touch_all'}, {'op': 'settle'}, {'op': 'snapshot', 'name': 'mid'}, {'op': 'faults_off'}]
        if mode != 'short':
            ps = sorted(fs)
            rng.shuffle(ps)
            # the configuration first or last; several notifications or one
            ps.sort(key=lambda x: '.hlasmplugin' not in x, reverse=rng.random() < 0.5)
            if rng.random() < 0.5:
                ops.append({'op': 'watch', 'paths': ps, 'keep': 1, 'd': gen_delay(rng)})
            else:
                ops += [{'op': 'watch', 'paths': [x], 'keep': 1, 'd': gen_delay(rng)} for x in ps]
        ops += [{'op': 'settle'}, {'op': 'touch_all'}, {'op': 'settle'}]
        ops += final_reqs(rng, ed, opened)
        tail(ops)
        sc = {'fs': fs, 'dirs': info['dirs'], 'ops': ops, 'sched': gen_sched(rng), 'faults': faults, 'want_hist': False}
        return {'sc': sc, 'folders': info['folders'], 'mode': mode, 'members': members}

    def evaluate(self, run, case):
        r = run(case['sc'])
        v = sim_violations(r)
        cnt = {'mode-' + case['mode']: 1}
        info = {'count': cnt}
        if v:
            return v, info
        for o in case['sc']['ops']:
            if o['op'] == 'trace_bg' and not any(c in ('kill', 'disconnect') for c in o['cmds']):
                t = r['obs'].get('trace', {}).get(str(o['s']))
                if t and (t['exited'] != 1 or t['terminated'] != 1):
                    v.append(('trace-end', 'session %s: exited %d terminated %d' % (o['s'], t['exited'], t['terminated'])))
        extra = [o for o in case['sc']['ops'] if o['op'] == 'req' and o.get('tag', '').startswith('f') and o['uri'] in r['docs']]
        ref = [{'op': 'watch', 'paths': ['/ws1/none']}, {'op': 'touch_all'}, {'op': 'settle'}]
        f = run(fresh_scenario(case['sc'], r, case['folders'], extra=ref + extra))
        if f['viol']:
            return [('fresh-' + x['class'], x['detail']) for x in f['viol']], info
        for s in ('s0', 's1'):
            for d in diff_diags(r['obs'][s], f['obs'][s]):
                v.append(('not-recovered-' + s, d))
        for o in extra:
            a, b = r['obs']['resp'].get(o['tag']), f['obs']['resp'].get(o['tag'])
            if not a or canon(a['m'], a['result']) != canon(a['m'], b['result']):
                v.append(('answer-differs', '%s: history %s, fresh %s' % (json.dumps(b['params']), json.dumps(a and a['result'])[:300], json.dumps(b['result'])[:300])))
        if case['mode'] == 'short':
            for d in diff_diags(r['obs']['mid'], f['obs']['s0']):
                v.append(('short-reads-matter', d))
        if case['mode'] in ('permanent', 'later'):
            fsc = fresh_scenario(case['sc'], r, case['folders'], extra=ref)
            fsc['faults'] = [dict(x, on=True) for x in case['sc']['faults']]
            fp = run(fsc)
            if fp['viol']:
                return [('fresh-' + x['class'], x['detail']) for x in fp['viol']], info
            for d in diff_diags(r['obs']['mid'], fp['obs']['s0']):
                v.append(('diags-differ-under-failure', d))
            # how much of a file could be read before it failed does not matter
            eff = [x for x in fsc['faults'] if x['op'] != 'tear' or disk_size(r['fs'].get(x['path'], '')) >= x['at']]
            if any(x['op'] in ('read', 'tear') for x in eff) and not any(x['op'] == 'eof' for x in eff):
                osc = fresh_scenario(case['sc'], r, case['folders'], extra=ref)
                osc['faults'] = [dict(x, on=True, op='open' if x['op'] in ('read', 'tear') else x['op']) for x in eff]
                op = run(osc)
                if op['viol']:
                    return [('fresh-' + x['class'], x['detail']) for x in op['viol']], info
                cnt['as_unreadable'] = 1
                for d in diff_diags(r['obs']['mid'], op['obs']['s0'], 'unreadable part', 'unreadable file'):
                    v.append(('partly-read', d))
            fl = case['sc']['faults']
            if r['docs'] and not any('.hlasmplugin' in x['path'] for x in fl):
                shown = [json.loads(d) for ds in r['obs']['mid'].values() for d in ds]
                for x in fl:
                    if x['op'] in ('list', 'readdir', 'stat'):
                        cnt['failing_libraries'] = cnt.get('failing_libraries', 0) + 1
                        if not any(str(d.get('code', '')).startswith('L0') and x['path'] in d['message'] for d in shown):
                            v.append(('failure-not-reported', 'the library %s cannot be listed' % x['path']))
            bad = [x['path'] for x in case['sc']['faults']]
            if all(x in case['members'] for x in bad):
                w = World()
                w.fs = r['fs']
                w.open = {path_of(u): t for u, t in r['docs'].items()}
                w.folders = case['folders']
                for p in w.open:
                    if not set(w.interp(p).visited) & set(bad):
                        cnt['unaffected_programs'] = cnt.get('unaffected_programs', 0) + 1
                        for d in diff_diags({p: r['obs']['mid'].get(uri(p), [])}, {p: f['obs']['s0'].get(uri(p), [])}, 'with failing member', 'healthy'):
                            v.append(('affects-others', d))
        return v, info
