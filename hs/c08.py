from .c06 import *
from .model import as_list


TYPES = {'A': 'A_TYPE', 'B': 'A_TYPE', 'G': 'A_TYPE', 'R': 'A_TYPE', 'W': 'A_TYPE', 'C': 'C_TYPE', 'H': 'C_TYPE', 'V': 'B_TYPE', 'P': 'C_TYPE', 'K': 'C_TYPE'}


def expected_stops(trace, t):
    """stops of the sequential execution under breakpoints and commands; second value: the program ran to its end"""
    out = []
    bps = {k: set(v) for k, v in t.get('bps', {}).items()}
    stop, over, depth = t.get('entry', True), False, 0
    cmds = list(t['cmds'])
    after = 'launch'
    for stack, frames, syms, end, glob in trace:
        if not (stop or any(stack[0][1] <= b <= end for b in bps.get(stack[0][0], ())) or (over and len(stack) <= depth)):
            continue
        out.append((after, stack, frames, syms, glob))
        stop = over = False
        depth = len(stack)
        c = cmds.pop(0) if cmds else t.get('rest', 'continue')
        if isinstance(c, dict):
            for k, v in c.get('bps', {}).items():
                bps[k] = set(v)
            c = c['c']
        after = c
        if c in ('disconnect', 'kill'):
            return out, False
        if c == 'next':
            over = True
        elif c == 'stepIn':
            stop = True
    return out, True


def check_trace(t, got, trace):
    """compares what the client saw with the model -> list of (class, detail)"""
    exp, ended = expected_stops(trace, t)
    v = []
    s = got['stops']
    for k in range(max(len(s), len(exp))):
        if k >= len(exp):
            v.append(('extra-stop', 'stop %d: model ended, tracer is at %s' % (k, s[k].get('stack'))))
            break
        after, stack, frames, syms, glob = exp[k]
        if k >= len(s):
            v.append(('missing-stop', 'stop %d: tracer ended, model stops at %s (after %s)' % (k, stack, after)))
            break
        if 'stack' not in s[k]:
            continue
        if [list(x) for x in stack] != s[k]['stack']:
            v.append(('wrong-stop', 'stop %d after %s: model %s, tracer %s' % (k, after, stack, s[k]['stack'])))
            break
        if 'vars' in s[k]:
            fr = s[k]['frame']
            def text(b):
                return {'': '', **{x: text(y) for x, y in b.items()}} if isinstance(b, dict) else str(b)
            show = lambda d: {a: text(as_list(b) if a == '&P' else b) for a, b in d.items()}
            m = show(frames[fr])
            scopes = s[k]['vars']
            l = {a: b for a, b in scopes.get('Locals', {}).items() if not a.startswith('&SYS') or a in ('&SYSNDX', '&SYSLIST', '&SYSNEST')}
            if l != m:
                v.append(('wrong-variables', 'stop %d at %s frame %d: model %s, tracer %s' % (k, stack[fr], fr, m, l)))
                break
            ty = {a: TYPES[a[1]] for a in list(frames[fr]) + list(glob[fr]) if a[1] in TYPES}
            bad = {a: (x, s[k]['types'].get(a)) for a, x in ty.items() if s[k]['types'].get(a) != x}
            if bad:
                v.append(('wrong-type', 'stop %d at %s: (model, tracer) %s' % (k, stack[fr], bad)))
                break
            l = {a: b for a, b in scopes.get('Globals', {}).items() if not a.startswith('&SYS')}
            if l != show(glob[fr]):
                v.append(('wrong-globals', 'stop %d at %s frame %d: model %s, tracer %s' % (k, stack[fr], fr, show(glob[fr]), l)))
                break
            y = syms
            if {a: {c: d for c, d in b.items() if c in ('', 'L', 'T')} if isinstance(b, dict) else b for a, b in scopes.get('Ordinary symbols', {}).items()} != y:
                v.append(('wrong-symbols', 'stop %d at %s: model %s, tracer %s' % (k, stack[0], y, scopes.get('Ordinary symbols'))))
                break
    if not v and (got['exited'], got['terminated']) != ((1, 1) if ended else (0, 0)):
        v.append(('wrong-end', 'exited %d times, terminated %d times' % (got['exited'], got['terminated'])))
    return v


def gen_cmds(rng, n, paths, lines):
    cmds = []
    style = rng.choice(['mix', 'mix', 'in', 'next', 'cont'])
    for _ in range(n):
        c = {'in': 'stepIn', 'next': 'next', 'cont': 'continue'}.get(style) or rng.choice(['next', 'stepIn', 'continue'])
        if style != 'mix' and rng.random() < 0.2:
            c = rng.choice(['next', 'stepIn', 'continue'])
        if rng.random() < 0.15:
            p = rng.choice(paths)
            c = {'c': c, 'bps': {p: sorted({rng.randrange(lines) for _ in range(rng.randint(0, 2))})}}
        cmds.append(c)
    if rng.random() < 0.15:
        cmds.append('disconnect')
    return cmds


def full_trace(rng, s, program, members, n=None, op='trace'):
    paths = [program] + list(members)
    t = {'op': op, 's': s, 'program': program, 'entry': rng.random() < 0.75, 'rotate': rng.random() < 0.4,
         'line0': rng.random() < 0.3, 'pause': rng.choice([0, 0, 0, 100, 5000]), 'inspect': rng.random() < 0.8,
         'cmds': gen_cmds(rng, some(rng, 0, 25, 120) if n is None else n, paths, 14), 'rest': rng.choice(['continue', 'continue', 'next', 'stepIn'])}
    if rng.random() < 0.25:
        t['col0'] = True
    if rng.random() < 0.25:
        t['by_uri'] = True
    if rng.random() < 0.15:
        t['detour'] = rng.choice(['..', './..', 'lib1/../..'])
    if rng.random() < 0.25:
        t['stale'] = True
    if rng.random() < 0.3:
        t['after'] = True
    t['bps'] = {p: sorted({rng.randrange(14) for _ in range(some(rng, 1, 3, 12))}) for p in paths if rng.random() < (0.7 if p == program else 0.3)}
    return t


class C08(Prop):
    id = 'C08'
    rule = ('stops, stack frames, variable and symbol values reported for every command sequence equal those of a sequential reference '
            'interpreter of the program; the end is reported exactly once; every debug request is answered')

    def make(self, rng, i):
        g = Gen(rng)
        g.rich = rng.random() < 0.6
        fs, info = basic_world(rng, g, 0, nprog=1)
        p = info['progs'][0]
        text = text_of(g.program(info['macros'], info['copies'], n=some(rng, 2, 7, 25)))
        ops = [op_init(info['folders'])]
        if rng.random() < 0.7:
            ops.append({'op': 'open', 'uri': uri(p), 'text': text, 'keep': 1})
        else:
            fs[p] = text
        # the debug session is not ordered after the editor's messages
        ops.append({'op': 'settle', 'keep': 1})
        t = full_trace(rng, 1, p, info['where'].values())
        t['d'] = gen_delay(rng)
        ops += [t, {'op': 'settle'}, {'op': 'shutdown'}, {'op': 'exit'}]
        return {'sc': {'fs': fs, 'dirs': info['dirs'], 'ops': ops, 'sched': gen_sched(rng), 'want_hist': False}, 'folders': info['folders'], 'p': p, 'text': text}

    def evaluate(self, run, case):
        r = run(case['sc'])
        v = sim_violations(r)
        n = 0
        ts = [o for o in case['sc']['ops'] if o['op'] == 'trace']
        if not v and ts:
            w = World()
            w.fs = r['fs']
            w.open = {case['p']: case['text']}
            w.folders = case['folders']
            got = dict(r['obs']['trace']['1'])
            got['exited'], got['terminated'] = r['dap']['1']['exited'], r['dap']['1']['terminated']
            n = len(got['stops'])
            v += check_trace(ts[0], got, w.interp(case['p']).trace)
        return v, {'nontrivial': r['hash'] if n else None, 'count': {'stops': n}}
