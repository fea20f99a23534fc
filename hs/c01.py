from .base import *
from .world import *


def basic_world(rng, g, heavy=0.0, nprog=None):
    """files, config; returns (fs, info)"""
    fs = {}
    if rng.random() < 0.2:
        g.wide = 0.3
    macros = ['M%d' % i for i in range(1, some(rng, 2, 4, 8) + 1)]
    copies = ['C%d' % i for i in range(1, some(rng, 1, 2, 5) + 1)]
    libs = ['lib%d' % k for k in range(1, some(rng, 1, 2, 5) + 1)]
    at = {d: '/ws1/' + d for d in libs}
    if rng.random() < 0.2:  # libraries outside the folder
        for d in libs:
            if rng.random() < 0.7:
                at[d] = '/ext/' + d
    where = {}
    for c in copies:
        d = rng.choice(libs)
        where[c] = at[d] + '/' + c
        fs[where[c]] = g.copy_text()
    for i, m in enumerate(macros):
        d = rng.choice(libs)
        where[m] = at[d] + '/' + m
        fs[where[m]] = g.macro_text(m, macros[:i], copies)
    progs = ['p%d.hlasm' % i for i in range(1, (nprog or some(rng, 1, 3, 7)) + 1)]
    if rng.random() < 0.15:
        progs[0] = rng.choice(['p 1.hlasm', 'p@1.hlasm', 'p\u00fc1.hlasm', 'p#1.hlasm', 'p+&1.hlasm', '\u4e2d.hlasm', 'p' + 'x' * 120 + '.hlasm'])
    conf = [{'program': p, 'pgroup': 'P1'} for p in progs]
    fs['/ws1/.hlasmplugin/proc_grps.json'] = jconf({'pgroups': [{'name': 'P1', 'libs': [d if at[d][:5] == '/ws1/' else rng.choice(['', '..']) + at[d] for d in libs]}]})
    fs['/ws1/.hlasmplugin/pgm_conf.json'] = jconf({'pgms': conf})
    progs = ['/ws1/' + p for p in progs]
    folders = [('ws1', '/ws1')]
    if len(progs) > 1 and rng.random() < 0.15:  # two folders that share their libraries
        folders.append(('ws2', '/ws2'))
        for k in range(rng.randint(1, len(progs) - 1)):
            progs[-1 - k] = progs[-1 - k].replace('/ws1/', '/ws2/')
        fs['/ws2/.hlasmplugin/proc_grps.json'] = jconf({'pgroups': [{'name': 'P1', 'libs': [at[d] for d in libs]}]})
        fs['/ws2/.hlasmplugin/pgm_conf.json'] = jconf({'pgms': conf})
    return fs, {'macros': macros, 'copies': copies, 'libs': libs, 'where': where,
                'progs': progs, 'folders': folders, 'dirs': [at[d] for d in libs]}


def op_init(folders, settings=None):
    o = {'op': 'init', 'folders': [{'name': n, 'uri': uri(p)} for n, p in folders]}
    if settings is not None:
        o['settings'] = settings
    return o


class Editor:
    """Generates edit histories on top of block lists."""

    def __init__(self, rng, g, info, heavy):
        self.rng, self.g, self.info, self.heavy = rng, g, info, heavy
        self.blocks = {}
        self.text = {}
        self.lib = {}

    def fresh_blocks(self):
        return self.g.program(self.info['macros'], self.info['copies'], heavy=self.heavy)

    def mutate(self, path):
        rng, b = self.rng, list(self.blocks[path])
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            r = rng.random()
            if b and r < 0.3:
                del b[rng.randrange(len(b))]
            elif b and r < 0.6:
                b[rng.randrange(len(b))] = self.g.block(self.info['macros'], self.info['copies'], heavy=self.heavy)
            else:
                b.insert(rng.randint(0, len(b)), self.g.block(self.info['macros'], self.info['copies'], heavy=self.heavy))
        self.blocks[path] = b
        return text_of(b)

    def open(self, path):
        self.blocks[path] = self.fresh_blocks()
        self.text[path] = text_of(self.blocks[path])
        return {'op': 'open', 'uri': uri(path), 'text': self.text[path]}

    def edit(self, path):
        new = self.mutate(path)
        ops = []
        for e in edit_between(self.rng, self.text[path], new):
            ops.append({'op': 'change', 'uri': uri(path), 'edits': e})
        self.text[path] = new
        return ops


def tail(ops):
    ops += [{'op': 'settle'}, {'op': 'snapshot', 'name': 's0'}, {'op': 'touch_all'}, {'op': 'settle'},
            {'op': 'snapshot', 'name': 's1'}, {'op': 'shutdown'}, {'op': 'exit'}]
    return ops


def fresh_scenario(sc, r, folders, settings=None, extra=None):
    ops = [op_init(folders, settings)]
    # programs before members: a member that no open program uses is analysed as a program
    for u in sorted(r['docs'], key=lambda x: ('/lib' in x, x)):
        ops.append({'op': 'open', 'uri': u, 'text': r['docs'][u]})
        ops.append({'op': 'settle'})
    if extra:
        ops += extra
    tail(ops)
    return {'fs': r['fs'], 'dirs': sc.get('dirs', []), 'ops': ops, 'sched': {'seed': 1, 'policy': 0}, 'want_hist': False}


class C01(Prop):
    id = 'C01'
    rule = ('histories of opening, editing, closing and requests over 1-4 programs with macros and copy members under random '
            'schedules that cancel analyses part-way; non-trivial: the schedule preempted a thread; oracle: at idle, and again after '
            're-analysing everything, the diagnostics of every file equal those of a fresh server with the same documents, and the '
            'reference interpreter')

    def make(self, rng, i):
        g = Gen(rng)
        g.rich = rng.random() < 0.3
        heavy = rng.choice([0, 0.1, 0.3])
        g.wild = rng.random() < 0.3
        # errors in the definition of a member that several programs use: see known/findings.json
        fs, info = basic_world(rng, g, heavy, nprog=1 if g.wild else None)
        ed = Editor(rng, g, info, heavy)
        ops = [op_init(info['folders'])]
        opened = set()
        # some programs have no configuration
        progs = info['progs'] + (['/ws1/noconf.asm'] if rng.random() < 0.3 else [])
        if rng.random() < 0.2:
            progs.append('untitled:Untitled-1')
        # members in the editor
        members = sorted(info['where'].items()) if rng.random() < 0.25 else []
        for _ in range(some(rng, 4, 22, 90)):
            p = rng.choice(progs)
            d = gen_delay(rng)
            if members and opened and rng.random() < 0.35:
                name, m = rng.choice(members)
                t = g.copy_text() if name in info['copies'] else g.macro_text(name, info['macros'][:info['macros'].index(name)], info['copies'])
                if m in ed.text:
                    new = [{'op': 'change', 'uri': uri(m), 'edits': e} for e in edit_between(rng, ed.text[m], t)]
                else:
                    t = fs[m]
                    new = [{'op': 'open', 'uri': uri(m), 'text': t}]
                ed.text[m] = t
            elif p not in opened:
                new = [ed.open(p)]
                opened.add(p)
            elif rng.random() < 0.13:
                new = [{'op': 'close', 'uri': uri(p)}]
                opened.discard(p)
            elif rng.random() < 0.15:
                n = max(1, len(split_lines(ed.text[p])) - 1)
                new = [{'op': 'req', 'm': rng.choice(['hover', 'definition', 'semanticTokens']), 'uri': uri(p),
                        'line': rng.randrange(n), 'ch': rng.choice([0, 1, 9, 10, 16])}]
            else:
                new = ed.edit(p)
            new[0]['d'] = d
            ops += new
        if members:
            # a member that ceases to be used keeps its diagnostics until it is changed (known/findings.json)
            ops += [{'op': 'settle'}, {'op': 'snapshot', 'name': 'pre'}, {'op': 'touch_all'}, {'op': 'settle'}, {'op': 'touch_all'}]
        tail(ops)
        return {'sc': {'fs': fs, 'dirs': info['dirs'], 'ops': ops, 'sched': gen_sched(rng)}, 'folders': info['folders'],
                'model': not g.wild, 'members': bool(members)}

    def evaluate(self, run, case):
        r = run(case['sc'])
        v = sim_violations(r)
        info = {'hash': r['hash'], 'stats': r['stats']}
        if v:
            return v, info
        members = case.get('members')
        f = run(fresh_scenario(case['sc'], r, case['folders'], extra=[{'op': 'touch_all'}, {'op': 'settle'}] if members else None))
        if f['viol']:
            return [('fresh-' + x['class'], x['detail']) for x in f['viol']], info
        for s in ('s0', 's1'):
            for d in diff_diags(r['obs'][s], f['obs'][s], strict=not case['model'] and not members):
                v.append(('diags-differ-' + s, d))
        if members:
            a, b = ({k: x for k, x in o.items() if '/lib' not in k} for o in (r['obs']['pre'], f['obs']['s0']))
            for d in diff_diags(a, b):
                v.append(('diags-differ-pre', d))
        if not case['model']:
            return v, info
        w = World()
        w.fs = r['fs']
        w.open = {path_of(u): t for u, t in r['docs'].items()}
        w.folders = case['folders']
        e = w.expected()
        m = markers(f['obs']['s0'])
        if members:
            e, m = once(e), once(m)
            # the members in use follow without anything else being changed
            a = [x for x in once(markers(r['obs']['pre'])) if '/lib' not in x[0] or path_of(x[0]) in w.used]
            b = [x for x in e if '/lib' not in x[0] or path_of(x[0]) in w.used]
            if a != b:
                v.append(('model-differs-pre', 'model only: %s; server only: %s' % ([x for x in b if x not in a][:4], [x for x in a if x not in b][:4])))
        if e != m:
            v.append(('model-differs', 'model only: %s; server only: %s' % ([x for x in e if x not in m][:4], [x for x in m if x not in e][:4])))
        return v, info
