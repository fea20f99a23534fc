from .c01 import *


def canon(m, x):
    """answers are sets where the protocol gives the order no meaning"""
    if isinstance(x, list):
        return sorted((json.dumps(e, sort_keys=True) for e in x))
    if isinstance(x, dict) and 'items' in x:
        return dict(x, items=sorted(json.dumps(e, sort_keys=True) for e in x['items']))
    return x


def neutral(a):
    """is this the answer that means 'nothing there' (given to requests about superseded text)?"""
    r = a['result']
    if r in (None, [], {}, ''):
        return True
    if isinstance(r, dict):
        if 'contents' in r:
            return r['contents'] in ('', [], None) or r['contents'].get('value') == ''
        if 'items' in r:
            return r['items'] == []
        if 'data' in r:
            return r['data'] == []
        if 'uri' in r:
            return r['uri'] == a['params']['textDocument']['uri'] and r['range']['start'] == a['params']['position']
    return False


METHODS = ['hover', 'definition', 'references', 'completion', 'semanticTokens']


UNKNOWN = ['no/hlasm/dap_tunnel/1', '$/hlasm/dap_tunnel', 'hlasm/dap_tunne', 'text', 'textDocument/hove', 'textDocument/hover/x', 'HLASM/dap_tunnel/1', 'textDocument/codeAction',
           'workspace/symbol', '$/setTrace', 'x', 'workspace/executeCommand', 'textDocument/semanticTokens/range', 'Shutdown', 'exi', '\u4e2d']


class C03(Prop):
    id = 'C03'
    rule = ('histories of edits and hover/definition/references/completion/semanticTokens requests over 1-3 programs and '
            'their macros; non-trivial: a request was outstanding while other messages were processed (schedule preempted); '
            'oracle: one response per id, and for sampled requests the answer of a fresh server; a request superseded by newer text may instead get an empty answer')

    def make(self, rng, i):
        g = Gen(rng)
        heavy = rng.choice([0, 0.1, 0.3])
        if rng.random() < 0.25:
            return self.make_member(rng, g, heavy)
        fs, info = basic_world(rng, g, heavy)
        ed = Editor(rng, g, info, heavy)
        ops = [op_init(info['folders'])]
        opened = set()
        tags = []
        progs = info['progs']
        # members that are opened and closed without being changed
        peek = sorted(info['where'].values()) if rng.random() < 0.25 else []
        for _ in range(some(rng, 4, 24, 90)):
            p = rng.choice(progs)
            if peek and opened and rng.random() < 0.2:
                m = rng.choice(peek)
                new = [{'op': 'close', 'uri': uri(m)} if m in opened else {'op': 'open', 'uri': uri(m), 'text': fs[m]}]
                opened ^= {m}
            elif p not in opened:
                new = [ed.open(p)]
                opened.add(p)
            elif rng.random() < 0.05:
                new = [{'op': 'close', 'uri': uri(p)}]
                opened.discard(p)
            elif rng.random() < 0.04:  # methods the server does not know
                new = [{'op': 'req', 'm': 'x', 'uri': uri(p), 'method': rng.choice(UNKNOWN), 'wait': rng.random() < 0.25} for _ in range(rng.choice([1, 2]))]
            elif rng.random() < 0.55:
                new = []
                for _ in range(some(rng, 1, 4, 20)):
                    ls = split_lines(ed.text[p])
                    n = max(1, len(ls) - 1)
                    k = rng.randrange(n)
                    m = rng.choice(METHODS)
                    q = {'op': 'req', 'm': m, 'uri': uri(p), 'tag': 'r%d' % len(tags)}
                    if m != 'semanticTokens':
                        q['line'] = k
                        q['ch'] = rng.choice([0, 1, 2, 9, 10, 12, 15, 16, 17, 19])
                    if rng.random() < 0.25:
                        q['wait'] = True
                    tags.append(q['tag'])
                    new.append(q)
            else:
                new = ed.edit(p)
            new[0]['d'] = gen_delay(rng)
            ops += new
        ops += [{'op': 'settle'}, {'op': 'shutdown'}, {'op': 'exit'}]
        pick = [t for t in tags if rng.random() < 0.8]
        rng.shuffle(pick)
        return {'sc': {'fs': fs, 'dirs': info['dirs'], 'ops': ops, 'ids': rng.choice([0, 0, 1, 2, 3]), 'sched': gen_sched(rng)}, 'folders': info['folders'],
                'pick': pick}

    def make_member(self, rng, g, heavy):
        """a program and one of its macros, both open and edited; the program always calls the macro"""
        fs, info = basic_world(rng, g, 0, nprog=1)
        ed = Editor(rng, g, info, heavy)
        p = info['progs'][0]
        mac = rng.choice(info['macros'])
        mp = info['where'][mac]
        ed.blocks[p] = [[L('', mac, '5')]] + ed.fresh_blocks()
        ed.text[p] = text_of(ed.blocks[p])
        ops = [op_init(info['folders']), {'op': 'open', 'uri': uri(p), 'text': ed.text[p]}, {'op': 'settle'}]
        ed.text[mp] = fs[mp]
        low = info['macros'][:info['macros'].index(mac)]
        if rng.random() < 0.5:
            ed.text[mp] = g.macro_text(mac, low, info['copies'])
        ops += [{'op': 'open', 'uri': uri(mp), 'text': ed.text[mp]}]
        tags = []
        for _ in range(some(rng, 3, 14, 50)):
            r = rng.random()
            if r < 0.2:
                head, ed.blocks[p] = ed.blocks[p][:1], ed.blocks[p][1:]
                tmp = ed.mutate(p)
                ed.blocks[p] = head + ed.blocks[p]
                newt = text_of(ed.blocks[p])
                new = [{'op': 'change', 'uri': uri(p), 'edits': e} for e in edit_between(rng, ed.text[p], newt)]
                ed.text[p] = newt
            elif r < 0.45:
                newt = g.macro_text(mac, low, info['copies'])
                new = [{'op': 'change', 'uri': uri(mp), 'edits': [{'all': 1, 'text': newt}]}]
                ed.text[mp] = newt
            else:
                d = rng.choice([p, mp, mp])
                m = rng.choice(METHODS)
                new = [{'op': 'req', 'm': m, 'uri': uri(d), 'tag': 'r%d' % len(tags)}]
                if m != 'semanticTokens':
                    new[0]['line'] = rng.randrange(max(1, len(split_lines(ed.text[d])) - 1))
                    new[0]['ch'] = rng.choice([0, 1, 2, 9, 10, 12, 15, 16, 17])
                tags.append(new[0]['tag'])
            new[0]['d'] = gen_delay(rng)
            ops += new
        ops += [{'op': 'settle'}, {'op': 'shutdown'}, {'op': 'exit'}]
        pick = list(tags)
        rng.shuffle(pick)
        return {'sc': {'fs': fs, 'dirs': info['dirs'], 'ops': ops, 'ids': rng.choice([0, 0, 1, 2, 3]), 'sched': gen_sched(rng)}, 'folders': info['folders'],
                'pick': pick, 'first': uri(p), 'all_docs': True}

    def evaluate(self, run, case):
        r = run(case['sc'])
        v = sim_violations(r)
        cnt = {'requests': 0, 'answers_compared': 0, 'requests_superseded': 0}
        info = {'count': cnt}
        resp = r['obs'].get('resp', {})
        cnt['requests'] = len(resp)
        cnt['requests_superseded'] = sum(1 for x in resp.values() if x['newer'])
        if v:
            return v, info
        groups = {}
        for t in case['pick']:
            a = resp.get(t)
            if not a or (case.get('all_docs') and a['newer_other']) or a['params']['textDocument']['uri'] not in a['docs']:
                continue
            key = json.dumps(a['docs'], sort_keys=True)
            if key not in groups and len(groups) >= 3:
                continue
            groups.setdefault(key, []).append(t)
        for key, ts in groups.items():
            docs = json.loads(key)
            ops = [op_init(case['folders'])]
            for u in sorted(docs, key=lambda x: (x != case.get('first'), x)):
                ops.append({'op': 'open', 'uri': u, 'text': docs[u]})
                ops.append({'op': 'settle'})
            ops.append({'op': 'settle'})
            for t in ts:
                a = resp[t]
                o = {'op': 'req', 'm': a['m'].split('/', 1)[1].replace('/full', ''), 'uri': a['params']['textDocument']['uri'],
                     'tag': t, 'wait': True}
                if 'position' in a['params']:
                    o['line'], o['ch'] = a['params']['position']['line'], a['params']['position']['character']
                ops.append(o)
            ops += [{'op': 'shutdown'}, {'op': 'exit'}]
            f = run({'fs': case['sc']['fs'], 'dirs': case['sc'].get('dirs', []), 'ops': ops, 'sched': {'seed': 1, 'policy': 0},
                     'want_hist': False})
            if f['viol']:
                return [('fresh-' + x['class'], x['detail']) for x in f['viol']], info
            for t in ts:
                a, b = resp[t], f['obs']['resp'][t]
                cnt['answers_compared'] += 1
                if b['result'] not in (None, [], {}, '') and b['result'] != {'contents': ''}:
                    cnt['answers_nonempty'] = cnt.get('answers_nonempty', 0) + 1
                if a['newer'] and neutral(a) and (a['error'] is None or a['error'] == b['error']):
                    cnt['superseded_neutral'] = cnt.get('superseded_neutral', 0) + 1
                    continue
                if canon(a['m'], a['result']) != canon(a['m'], b['result']) or a['error'] != b['error']:
                    v.append(('answer-differs', '%s %s: history %s, fresh %s' % (a['m'], json.dumps(a['params']),
                              json.dumps(a['result'])[:400], json.dumps(b['result'])[:400])))
        return v, info
