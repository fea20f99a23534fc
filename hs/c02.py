from .c01 import *

CH = 'ABCDEFGHXYZ01234567$#@'
INSTR = re.compile('[A-Z]+$')  # may be an instruction by chance
WIDE = ['\u00d1', '\u20ac', '\u4e2d', '\U0001d11e', '\U0001f600', '\u0416']


class Txt:
    """Texts whose every character shows in a message: each line is one unknown operation code."""

    def __init__(self, rng):
        self.rng = rng
        self.wide = rng.choice([0, 0.1, 0.5])
        self.eols = rng.choice([['\n'], ['\n', '\r\n'], ['\r\n'], ['\n', '\r\n', '\r'], ['\r']])
        self.n = 0

    def token(self, k=None):
        rng = self.rng
        self.n += 1
        s = 'Q%d' % self.n if rng.random() < 0.5 else ''
        for _ in range(k if k is not None else rng.randint(1, 6)):
            s += rng.choice(WIDE) if rng.random() < self.wide else rng.choice(CH)
        return s

    def eol(self):
        return self.rng.choice(self.eols)

    def line(self):
        r = self.rng.random()
        if r < 0.06:
            return ''
        if r < 0.12:
            return ' '
        if r > 0.995:
            return ' ' + self.token(self.rng.randint(70, 1500))
        return ' ' * self.rng.choice([1, 1, 1, 3]) + self.token() + (' ' + self.token() if self.rng.random() < 0.1 else '')

    def text(self, n):
        return ''.join(self.line() + self.eol() for _ in range(n)) + (self.line() if self.rng.random() < 0.4 else '')

    def piece(self):
        rng = self.rng
        r = rng.random()
        if r < 0.25:
            return ''
        if r < 0.55:
            return self.token(rng.randint(1, 3))
        if r < 0.65:
            return rng.choice(['\n', '\r\n', '\r'])  # may join or split a CRLF
        if r < 0.75:
            return self.eol() + ' ' + self.token()
        if r < 0.85:
            return self.text(rng.randint(1, 3))
        if r < 0.92:
            return ' '
        return self.token() + self.eol()


def units(s):
    return len(s.encode('utf-16-le')) // 2


def rand_edit(rng, tx, nlines):
    """an edit at random positions; the client clamps them to what the document has"""
    if rng.random() < 0.07:
        return {'all': 1, 'text': tx.text(rng.randint(0, 5))}
    l1 = rng.randint(0, nlines)
    c1 = rng.choice([0, 1, 2, 3, 4, 6, 8, 99])
    r = rng.random()
    if r < 0.4:
        a = b = [l1, c1]
    elif r < 0.7:
        a, b = [l1, c1], [l1, c1 + rng.randint(1, 4)]
    elif r < 0.85:
        a, b = [l1, c1], [l1 + rng.randint(1, 2), rng.choice([0, 1, 2, 5])]
    elif r < 0.95:
        a, b = [l1, 0], [l1 + 1, 0]
    else:
        a, b = [0, 0], [nlines + 5, 0]
    e = {'a': a, 'b': b, 'text': tx.piece()}
    if rng.random() < 0.1:
        e['rl'] = 1
    if rng.random() < 0.3:
        e['far'] = rng.choice([1, 2, 3, 50, 1000000])
    return e


class C02(Prop):
    id = 'C02'
    rule = ('random whole-text and range edits (UTF-16 positions, LF/CR/CRLF, several per notification) over 1-2 documents, '
            'random delays and schedules; non-trivial: the schedule preempted a thread; oracle: an independent text model, '
            'compared through a fresh server opened with the model text (diagnostics quote the text, semantic tokens give '
            'the layout) and through the operation codes the model text contains')

    def make(self, rng, i):
        tx = Txt(rng)
        nd = rng.choice([1, 1, 2])
        docs = ['/ws1/d%d.hlasm' % k for k in range(nd)]
        fs = {'/ws1/.hlasmplugin/proc_grps.json': jconf({'pgroups': [{'name': 'P1', 'libs': []}]}),
              '/ws1/.hlasmplugin/pgm_conf.json': jconf({'pgms': [{'program': '*', 'pgroup': 'P1'}]})}
        ops = [op_init([('ws1', '/ws1')])]
        busy = rng.choice([0, 0, 30, 100])
        size = {}
        for d in docs:
            n = some(rng, 0, 8, 300)
            size[d] = n + busy
            pre = ''.join(' LR 1,2' + tx.eol() for _ in range(busy))
            ops.append({'op': 'open', 'uri': uri(d), 'text': pre + tx.text(n)})
        for _ in range(some(rng, 2, 25, 150)):
            d = rng.choice(docs)
            r = rng.random()
            if r < 0.03:
                ops.append({'op': 'close', 'uri': uri(d), 'd': gen_delay(rng)})
                ops.append({'op': 'open', 'uri': uri(d), 'text': tx.text(rng.randint(0, 6)), 'd': gen_delay(rng)})
                size[d] = 6
                continue
            if r < 0.10:
                ops.append({'op': 'req', 'm': 'semanticTokens', 'uri': uri(d), 'd': gen_delay(rng)})
                continue
            es = [rand_edit(rng, tx, max(0, size[d] + rng.randint(-8, 1)) if rng.random() < 0.7 else rng.randint(0, size[d] + 1))
                  for _ in range(rng.choice([1, 1, 1, 2, 3, 5]))]
            if any('all' in e for e in es):
                size[d] = 5
            size[d] += len(es) // 2
            ops.append({'op': 'change', 'uri': uri(d), 'edits': es, 'd': gen_delay(rng)})
        fin = [{'op': 'settle'}, {'op': 'snapshot', 'name': 's0'}]
        for k, d in enumerate(docs):
            fin.append({'op': 'req', 'm': 'semanticTokens', 'uri': uri(d), 'wait': True, 'tag': 'sem%d' % k})
        fin += [{'op': 'shutdown'}, {'op': 'exit'}]
        return {'sc': {'fs': fs, 'ops': ops + fin, 'sched': gen_sched(rng)}, 'fin': fin, 'folders': [('ws1', '/ws1')]}

    def evaluate(self, run, case):
        r = run(case['sc'])
        v = sim_violations(r)
        info = {}
        if v or 's0' not in r['obs']:
            return v, info
        ops = [op_init(case['folders'])]
        for u in sorted(r['docs']):
            ops.append({'op': 'open', 'uri': u, 'text': r['docs'][u]})
        f = run({'fs': r['fs'], 'ops': ops + case['fin'], 'sched': {'seed': 1, 'policy': 0}, 'want_hist': False})
        if f['viol']:
            return [('fresh-' + x['class'], x['detail']) for x in f['viol']], info
        for d in diff_diags(r['obs']['s0'], f['obs']['s0']):
            v.append(('text-differs', d))
        for t in f['obs'].get('resp', {}):
            a, b = r['obs'].get('resp', {}).get(t), f['obs']['resp'][t]
            if a is not None and a['result'] != b['result']:
                v.append(('tokens-differ', '%s: history %s fresh %s' % (b['params']['textDocument']['uri'], json.dumps(a['result'])[:300], json.dumps(b['result'])[:300])))
        # independent of the server: operation codes of documents without lone CR
        for u, t in r['docs'].items():
            if re.search('\r(?!\n)', t):
                continue
            want = []
            for n, l in enumerate(re.split('\r\n|\n', t)):
                m = re.match(r' +([^ ]+)', l)
                if m and not INSTR.match(m.group(1)):
                    want.append([n, m.group(1)])
            got = []
            for d in r['obs']['s0'].get(u, []):
                d = json.loads(d)
                if d['code'] == 'E049' and not INSTR.match(d['message'].rpartition(' - ')[2]):
                    got.append([d['range']['start']['line'], d['message'].rpartition(' - ')[2]])
            if any(units(l) >= 60 for l in re.split('\r\n|\n', t)) or any(l[:1] not in (' ', '') for l in re.split('\r\n|\n', t)):
                continue
            info.setdefault('count', {})
            info['count']['texts_compared_with_model'] = info['count'].get('texts_compared_with_model', 0) + 1
            if sorted(want) != sorted(got):
                v.append(('text-model-differs', '%s: model only %s, server only %s' % (u, [x for x in want if x not in got][:4], [x for x in got if x not in want][:4])))
        return v, info
