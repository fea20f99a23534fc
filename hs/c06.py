from .c01 import *


def gen_trace(rng, s, program, ncmds, paths=()):
    t = {'op': 'trace_bg', 's': s, 'program': program, 'entry': rng.random() < 0.7, 'inspect': rng.random() < 0.6,
         'cmds': [rng.choice(['next', 'stepIn', 'stepIn', 'continue']) for _ in range(ncmds)],
         'rest': rng.choice(['continue', 'stepIn', 'next']), 'pause': rng.choice([0, 0, 10, 500, 20000]),
         'disconnect': rng.random() < 0.6, 'dispose': rng.random() < 0.4}
    if rng.random() < 0.2:
        t['cmds'].append('kill')
    if rng.random() < 0.7:
        t['bps'] = {p: [rng.randrange(12) for _ in range(rng.randint(1, 3))] for p in [program] + list(paths) if p == program or rng.random() < 0.3}
    return t


class C06(Prop):
    id = 'C06'
    rule = ('whatever was queued or running (analyses, requests, traces), after shutdown+exit, exit, end of input (also inside a frame) or a '
            'broken output pipe the simulated process ends: no deadlock, crash, invalid memory access, thread left over, nor more than 20 '
            'simulated seconds; status 0 iff shutdown and then exit were completely sent')

    def make(self, rng, i):
        g = Gen(rng)
        heavy = rng.choice([0, 0.2, 0.4])
        fs, info = basic_world(rng, g, heavy)
        ed = Editor(rng, g, info, heavy)
        ops = [op_init(info['folders'])]
        ops[0]['wait'] = rng.random() < 0.9
        opened = set()
        sess = 1
        progs = info['progs']
        long = '/ws1/long.hlasm'
        if rng.random() < 0.15:  # a program that runs for ages
            n = rng.choice([300, 2000, 4000])
            fs[long] = '\n'.join([L('', 'MACRO'), L('', 'INNER')] + [L('', 'LCLA', '&I'), L('.T', 'ANOP'), L('&I', 'SETA', '&I+1'), L('', 'AIF', '(&I LT %d).T' % n), L('', 'MEND')] +
                                 [L('', 'MACRO'), L('', 'OUTER'), L('', 'LCLA', '&I'), L('.T', 'INNER'), L('&I', 'SETA', '&I+1'), L('', 'AIF', '(&I LT %d).T' % n), L('', 'MEND')] +
                                 [L('', 'OUTER')] * 5 + [L('', 'END')]) + '\n'
        for _ in range(some(rng, 0, 10, 50)):
            p = rng.choice(progs)
            r = rng.random()
            if p not in opened:
                new = [ed.open(p)]
                opened.add(p)
            elif r < 0.35 and sess < 4:
                new = [gen_trace(rng, sess, long if long in fs and rng.random() < 0.7 else p, rng.randint(0, 8), info['where'].values())]
                sess += 1
            elif r < 0.5:
                new = [{'op': 'req', 'm': rng.choice(['hover', 'definition', 'semanticTokens', 'completion', 'references']), 'uri': uri(p), 'line': rng.randrange(4), 'ch': rng.choice([0, 9, 16])}]
            elif r < 0.55:
                new = [{'op': 'close', 'uri': uri(p)}]
                opened.discard(p)
            elif r < 0.6:
                new = [{'op': 'stall', 'on': True}]
            else:
                new = ed.edit(p)
            new[0]['d'] = gen_delay(rng)
            ops += new
        end = rng.choice(['clean', 'clean', 'clean', 'exit', 'eof', 'eof', 'torn', 'shutdown-eof', 'late'])
        if rng.random() < 0.2:
            ops.append({'op': 'break', 'd': gen_delay(rng)})
        stalled = any(o['op'] == 'stall' for o in ops)
        e = []
        w = not stalled and rng.random() < 0.5 and not (long in fs and any(o['op'] == 'break' for o in ops))
        if end in ('clean', 'late', 'shutdown-eof'):
            e.append({'op': 'shutdown', 'd': gen_delay(rng), 'wait': w})
            if end == 'late':
                for _ in range(rng.randint(1, 3)):
                    p = rng.choice(progs)
                    e.append(rng.choice([{'op': 'req', 'm': 'hover', 'uri': uri(p), 'line': 0, 'ch': 1}, {'op': 'open', 'uri': uri(p), 'text': ' LR 1\n'},
                                         {'op': 'shutdown', 'wait': False}, {'op': 'close', 'uri': uri(p)}]))
        if end in ('clean', 'late', 'exit'):
            e.append({'op': 'exit', 'd': gen_delay(rng)})
            if rng.random() < 0.15:
                e.append({'op': 'shutdown', 'wait': False})
            if stalled:
                e.append({'op': rng.choice(['stall', 'stall', 'break']), 'on': False, 'd': gen_delay(rng)})
            e.append({'op': 'await_exit'} if rng.random() < 0.7 else {'op': 'eof', 'd': gen_delay(rng)})
        else:
            if end == 'torn':
                pay = rng.choice(['{"jsonrpc":"2.0","method":"exit"}', '{"jsonrpc":"2.0","id":77,"method":"shutdown"}', '{"jsonrpc":"2.0","method":"x","params":"' + 'y' * 300 + '"}'])
                if rng.random() < 0.5:
                    e.append({'op': 'shutdown', 'wait': w})
                e.append({'op': 'partial', 'payload': pay, 'n': rng.randint(1, len(pay) + 20), 'd': gen_delay(rng)})
            e.append({'op': 'eof', 'd': gen_delay(rng)})
            if stalled:
                e.append({'op': rng.choice(['stall', 'stall', 'break']), 'on': False, 'd': gen_delay(rng)})
        sc = {'fs': fs, 'dirs': info['dirs'], 'ops': ops + e, 'sched': gen_sched(rng), 'want_hist': False}
        if long in fs:  # which would not let the others run
            while sc['sched']['policy'] != 1:
                sc['sched'] = gen_sched(rng)
        if rng.random() < 0.3:
            sc['io'] = {'in_chunk': rng.choice([1, 7, 64]), 'out_chunk': rng.choice([0, 1, 50])}
        return {'sc': sc, 'end': end}

    def evaluate(self, run, case):
        r = run(case['sc'])
        v = sim_violations(r)
        if not v and (r['exit'] == 0) != r['clean_end']:
            v.append(('exit-status', 'status %s although shutdown and exit were %s' % (r['exit'], 'sent' if r['clean_end'] else 'not both sent in this order')))
        return v, {'nontrivial': r['hash'], 'count': {'end-' + case['end']: 1}}
