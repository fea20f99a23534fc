from .c01 import *
import copy
import re

WEIRD = [None, True, False, 0, -1, 1, 7, 1.5, 1e300, 18446744073709551615, -9223372036854775808, 4294967296, '', 'x', '\u0000', 'file:///', 'http://a b/%zz', 'file:///ws1',
         'untitled:Untitled-1', '%', 'file:///%', 'file:///ws1/%E4', [], {}, [1], [None], {'a': 1}, [[[]]], '9' * 400]
BAD = 'file:///ws1/bad.hlasm'


def templates(rng, bad_uri, real_uris):
    """well-formed messages to be broken; none of them can change the state of the real documents"""
    pos = {'line': rng.randint(0, 5), 'character': rng.randint(0, 20)}
    u = rng.choice([bad_uri] + real_uris)
    t = []
    for m in ('hover', 'definition', 'references', 'completion'):
        t.append({'jsonrpc': '2.0', 'id': 0, 'method': 'textDocument/' + m, 'params': {'textDocument': {'uri': u}, 'position': pos, 'context': {'triggerKind': 1, 'triggerCharacter': '&'}}})
    t.append({'jsonrpc': '2.0', 'id': 0, 'method': 'textDocument/semanticTokens/full', 'params': {'textDocument': {'uri': u}}})
    t.append({'jsonrpc': '2.0', 'method': 'textDocument/didOpen', 'params': {'textDocument': {'uri': bad_uri, 'languageId': 'hlasm', 'version': 1, 'text': ' LR 1,2\n'}}})
    t.append({'jsonrpc': '2.0', 'method': 'textDocument/didChange', 'params': {'textDocument': {'uri': bad_uri, 'version': 2}, 'contentChanges': [
        {'range': {'start': {'line': 0, 'character': 0}, 'end': {'line': 0, 'character': 3}}, 'text': 'abc'}, {'text': 'x'}]}})
    t.append({'jsonrpc': '2.0', 'method': 'textDocument/didClose', 'params': {'textDocument': {'uri': bad_uri}}})
    t.append({'jsonrpc': '2.0', 'method': 'workspace/didChangeWatchedFiles', 'params': {'changes': [{'uri': 'file:///ws1/none', 'type': 2}, {'uri': bad_uri, 'type': 3}]}})
    t.append({'jsonrpc': '2.0', 'method': 'workspace/didChangeWorkspaceFolders', 'params': {'event': {'added': [{'uri': 'file:///nows', 'name': 'n'}], 'removed': [{'uri': 'file:///nows2', 'name': 'n'}]}}})
    t.append({'jsonrpc': '2.0', 'method': 'workspace/didChangeConfiguration', 'params': {'settings': None}})
    t.append({'jsonrpc': '2.0', 'id': 0, 'method': 'workspace/symbol', 'params': {'query': 'a'}})
    t.append({'jsonrpc': '2.0', 'id': 0, 'method': 'no/such', 'params': {}})
    t.append({'jsonrpc': '2.0', 'id': 0, 'method': rng.choice(['no/hlasm/dap_tunnel/1', '$/hlasm/dap_tunnel', 'hlasm/dap_tunne', 'shutdow', 'text', 'textDocument/didOpe', 'textDocument/hover/x', 'HLASM/dap_tunnel/1']), 'params': {}})
    t.append({'jsonrpc': '2.0', 'method': 'no/such', 'params': {}})
    t.append({'jsonrpc': '2.0', 'method': '$/cancelRequest', 'params': {'id': 1}})
    t.append({'jsonrpc': '2.0', 'id': 'nobody asked', 'result': [{}]})
    t.append({'jsonrpc': '2.0', 'id': 4711, 'error': {'code': 1, 'message': 'x'}})
    t.append({'jsonrpc': '2.0', 'method': 'hlasm/dap_tunnel', 'params': 77})
    t.append({'jsonrpc': '2.0', 'method': 'hlasm/dap_tunnel/99', 'params': {'seq': 1, 'type': 'request', 'command': 'threads'}})
    t.append({'jsonrpc': '2.0', 'method': 'hlasm/dap_tunnel/', 'params': {}})
    t.append({'jsonrpc': '2.0', 'method': 'hlasm/dap_tunnel/abc', 'params': {'seq': 1, 'type': 'request', 'command': 'threads'}})
    t.append({'jsonrpc': '2.0', 'method': 'hlasm/dap_tunnel/99999999999999999999', 'params': {}})
    t.append({'jsonrpc': '2.0', 'method': 'initialized', 'params': {}})
    return t


def dap_templates(rng, program):
    return [
        {'seq': 0, 'type': 'request', 'command': 'initialize', 'arguments': {'clientID': 'x', 'linesStartAt1': True, 'columnsStartAt1': True, 'pathFormat': 'path'}},
        {'seq': 0, 'type': 'request', 'command': 'launch', 'arguments': {'program': program, 'stopOnEntry': True}},
        {'seq': 0, 'type': 'request', 'command': 'setBreakpoints', 'arguments': {'source': {'path': program}, 'breakpoints': [{'line': 2}, {'line': 9}]}},
        {'seq': 0, 'type': 'request', 'command': 'setExceptionBreakpoints', 'arguments': {'filters': []}},
        {'seq': 0, 'type': 'request', 'command': 'configurationDone'},
        {'seq': 0, 'type': 'request', 'command': 'threads'},
        {'seq': 0, 'type': 'request', 'command': 'stackTrace', 'arguments': {'threadId': 1}},
        {'seq': 0, 'type': 'request', 'command': 'scopes', 'arguments': {'frameId': 0}},
        {'seq': 0, 'type': 'request', 'command': 'variables', 'arguments': {'variablesReference': 1}},
        {'seq': 0, 'type': 'request', 'command': 'next', 'arguments': {'threadId': 1}},
        {'seq': 0, 'type': 'request', 'command': 'stepIn', 'arguments': {'threadId': 1}},
        {'seq': 0, 'type': 'request', 'command': 'continue', 'arguments': {'threadId': 1}},
        {'seq': 0, 'type': 'request', 'command': 'nosuch', 'arguments': {}},
        {'seq': 0, 'type': 'response', 'command': 'threads', 'request_seq': 5},
        {'seq': 0, 'type': 'event', 'event': 'x'},
    ]


def paths(x, pre=()):
    out = []
    if isinstance(x, dict):
        for k in x:
            out.append(pre + (k,))
            out += paths(x[k], pre + (k,))
    elif isinstance(x, list):
        for k in range(len(x)):
            out.append(pre + (k,))
            out += paths(x[k], pre + (k,))
    return out


def mutate(rng, m, keep=()):
    m = copy.deepcopy(m)
    for _ in range(rng.choice([1, 1, 1, 2])):
        ps = [p for p in paths(m) if p and p[0] not in keep]
        if not ps:
            return m
        p = rng.choice(ps)
        c = m
        for k in p[:-1]:
            c = c[k]
        r = rng.random()
        if r < 0.35:
            del c[p[-1]]
        else:
            c[p[-1]] = copy.deepcopy(rng.choice(WEIRD))
    return m


def idkey(m):
    if isinstance(m, dict) and 'id' in m and 'method' in m:
        i = m['id']
        return [i if isinstance(i, str) else json.dumps(i, separators=(',', ':'))]
    return []


class BadGen:
    def __init__(self, rng, real_uris, folders=()):
        self.rng, self.real, self.folders = rng, real_uris, folders
        self.n = 0
        self.session = 50
        self.closed = []  # documents that are not open

    def op(self, o):
        o['op'] = 'msg'
        return o

    def deep(self):
        """a message whose values are nested deeply"""
        rng = self.rng
        good = json.dumps(rng.choice([t for t in templates(rng, BAD, self.real) if 'WorkspaceFolders' not in t.get('method', '')]))
        good = good.replace('"id": 0', '"id": "b4"')
        x = rng.choice([x for x in re.finditer(r'-?\b\d+\b|"[^"]*"(?!:)|null|true', good) if x.group() != '"b4"'])
        o = rng.choice([('[', '', ']'), ('{"a":', '1', '}'), ('[{"a":', '[]', '},1]')])
        return self.op({'deep': [good[:x.start()], rng.choice([500, 100000, 150000]), o[0], o[1], o[2], good[x.end():]], 'may': ['b4']})

    def garbage(self):
        rng = self.rng
        if rng.random() < 0.15:
            return self.deep()
        r = rng.random()
        good = json.dumps(rng.choice(templates(rng, BAD, self.real)))
        if r < 0.12:
            # oddities below the level of JSON values
            good = good.replace('"id": 0', '"id": "b3"')
            lits = list(re.finditer(r'-?\b\d+\b|"[^"]*"', good))
            x = rng.choice(lits)
            if x.group()[0] == '"':
                new = rng.choice(['"\\ud800"', '"\\ud800\\u0041"', '"\\udc00"', '"\\x"', '"\\u12"', '"a\x01b"', '"\\u0000"', '"a": 1, "a"', x.group() + ',', '"\t"'])
            else:
                new = rng.choice(['1e999', '-1e999', '1e400', '01', '0x1', 'NaN', 'Infinity', '1e', '-', '+1', '.5', '1.', '9' * 400, '1e-999', '-0', '0.0', '184467440737095516160', '1E+2'])
            good = good[:x.start()] + new + good[x.end():]
            try:
                m = json.loads(good)
                if isinstance(m, dict) and 'method' in m and m.get('id', 'b3') != 'b3' or 'nows' in good:
                    return self.garbage()
            except ValueError:
                pass
            return self.op({'payload': good, 'may': ['b3']})
        if r < 0.3:
            return self.op({'payload': good[:rng.randrange(1, len(good))]})
        if r < 0.45:
            return self.op({'payload': rng.choice(['{}', '[]', '[[]]', 'null', '1', '"x"', '{', '}', ' ', '\n', '{"jsonrpc":"2.0"}', '[' * 200, '{"id":1}',
                                                   '{"id":null}', '{"method":1}', '{"method":""}', '{"method":"textDocument/"}', '{"method":"textDocument/hover"}', '[' * 50 + ']' * 50,
                                                   '{"id":"b","method":null}', '{"method":"initialize"}', '{"method":"shutdow","id":{}}'][:]), 'may': ['b', '{}']})
        if r < 0.7:
            b = bytearray(good.encode())
            for _ in range(rng.randint(1, 4)):
                b[rng.randrange(len(b))] = rng.randrange(256)
            # may still be a message, but never one with an id in use
            try:
                m = json.loads(b.decode())
                if isinstance(m, dict) and 'method' in m:
                    return self.garbage()
            except (ValueError, UnicodeDecodeError):
                pass
            return self.op({'hex': bytes(b).hex()})
        return self.op({'payload': rng.choice(['\ufffe', '{"a":"\ud83d"}'.encode('utf-8', 'replace').decode(), '{"jsonrpc":"2.0","id":"b2","method":"x","params":' + '[' * 300 + ']' * 300 + '}']),
                        'may': ['b2']})

    def message(self, alive=None, program=None):
        """one malformed or unexpected message; alive: session number of a live debug session that has not launched"""
        rng = self.rng
        r = rng.random()
        if rng.random() < 0.03:
            # initialized once more
            self.n += 1
            m = {'jsonrpc': '2.0', 'id': 'bad%d' % self.n, 'method': 'initialize', 'params': {'processId': None, 'rootUri': None, 'capabilities': {}, 'trace': 'off'}}
            for k in list(m['params']):
                if rng.random() < 0.3:
                    m['params'][k] = rng.choice([None, 5, [], {}, True])
                    if rng.random() < 0.5 or k == 'rootUri':
                        del m['params'][k]
            return self.op({'payload': json.dumps(m), 'may': idkey(m)})
        if self.closed and rng.random() < 0.12:
            # the document is not open
            u = rng.choice(self.closed)
            m = {'jsonrpc': '2.0', 'method': 'textDocument/didClose', 'params': {'textDocument': {'uri': u}}}
            if rng.random() < 0.7:
                m['method'] = 'textDocument/didChange'
                m['params']['textDocument']['version'] = rng.choice([0, 2, 99])
                m['params']['contentChanges'] = [rng.choice([{'text': rng.choice(['', ' LR 1,2\n', '         MACRO\n', '\u00e9'])},
                                                             {'range': {'start': {'line': k, 'character': rng.choice([0, 3])}, 'end': {'line': k + rng.randint(0, 2), 'character': rng.choice([3, 70])}}, 'text': 'x'}])
                                                 for k in range(rng.choice([1, 1, 2]))]
            return self.op({'payload': json.dumps(m)})
        if r < 0.25:
            return self.garbage()
        if r < 0.35 and self.real:
            # a change of a real document that cannot be understood
            u = rng.choice(self.real)
            m = {'jsonrpc': '2.0', 'method': 'textDocument/didChange', 'params': {'textDocument': {'uri': u, 'version': 99}, 'contentChanges': [
                {'range': {'start': {'line': 0, 'character': 0}, 'end': {'line': 0, 'character': 3}}, 'text': 'abc'}, {'text': 'x'}]}}
            p = m['params']
            k = rng.randrange(8)
            if k == 0:
                del p['contentChanges']
            elif k == 1:
                p['contentChanges'] = rng.choice([5, 'x', True])
            elif k == 2:
                del p['contentChanges'][rng.randrange(2)]['text']
            elif k == 3:
                p['contentChanges'][rng.randrange(2)]['text'] = rng.choice([None, 5, [], {}, True])
            elif k == 4:
                p['contentChanges'][0]['range'] = rng.choice([5, 'x', [], {}, {'start': {}}])
            elif k == 5:
                q = p['contentChanges'][0]['range'][rng.choice(['start', 'end'])]
                c = rng.choice(['line', 'character'])
                if rng.random() < 0.5:
                    del q[c]
                else:
                    q[c] = rng.choice(['1', None, [], {}])
            elif k == 6:
                p['contentChanges'][rng.randrange(2)] = rng.choice([5, 'x', [], None])
            else:
                p['textDocument']['version'] = rng.choice(['x', [], {}])
            return self.op({'payload': json.dumps(m)})
        if r < 0.4:
            # folders in use, removed and added by an event that cannot be understood
            f = [{'uri': 'file://' + x[1], 'name': x[0]} for x in self.folders]
            m = {'jsonrpc': '2.0', 'method': 'workspace/didChangeWorkspaceFolders', 'params': {'event': {
                'added': copy.deepcopy(f) + [{'uri': 'file:///nows', 'name': 'n'}], 'removed': copy.deepcopy(f) + [{'uri': 'file:///nows2', 'name': 'n'}]}}}
            ev = m['params']['event']
            if rng.random() < 0.5:
                ev['added'] = ev['added'][-1:]
            k = rng.randrange(5)
            which = rng.choice(['added', 'removed'])
            if k == 0:
                del ev[which]
            elif k == 1:
                ev[which] = rng.choice([5, 'x', True])
            else:
                j = rng.randrange(len(ev[which]))
                if k == 2:
                    ev[which][j] = rng.choice([5, 'x', None, [], {}])
                elif k == 3:
                    del ev[which][j]['name' if which == 'added' and rng.random() < 0.5 else 'uri']
                else:
                    ev[which][j]['uri'] = rng.choice([None, 5, [], {}, True])
            return self.op({'payload': json.dumps(m)})
        if r < 0.75 or program is None:
            m = mutate(rng, rng.choice(templates(rng, BAD, self.real)))
            if isinstance(m, dict) and m.get('id') == 0:
                self.n += 1
                m['id'] = 'bad%d' % self.n
            if isinstance(m, dict) and m.get('method') == 'workspace/didChangeWorkspaceFolders' and '"file:///ws1"' in json.dumps(m):
                return self.garbage()  # may be a valid one
            if isinstance(m, dict) and m.get('method') in ('exit', 'shutdown', 'initialize'):
                return self.garbage()
            may = idkey(m)
            if isinstance(m, dict) and may and (not isinstance(m['id'], str)) and m['id'] in (0, 1, 7) and not isinstance(m['id'], (bool, float)):
                m['id'] = 'bad0%d' % m['id']  # never an id of a real request
                may = idkey(m)
            return self.op({'payload': json.dumps(m), 'may': may})
        # a debug session of its own, or malformed messages to a session in use
        m = mutate(rng, rng.choice(dap_templates(rng, program))) if rng.random() < 0.7 else rng.choice(dap_templates(rng, program))
        if alive is not None and rng.random() < 0.5 and m.get('command') not in ('launch', 'continue', 'next', 'stepIn', 'disconnect', 'initialize', 'setBreakpoints', 'configurationDone'):
            self.n += 1
            o = {'payload': None}
            if 'seq' in m:
                m['seq'] = 100000 + self.n
                o['dap_seq'] = [[alive, m['seq']]]
            o['payload'] = json.dumps({'jsonrpc': '2.0', 'method': 'hlasm/dap_tunnel/%d' % alive, 'params': m})
            return self.op(o)
        if self.session == 50 or rng.random() < 0.3:
            self.session += 1
            return self.op({'payload': json.dumps({'jsonrpc': '2.0', 'method': 'hlasm/dap_tunnel', 'params': self.session})})
        self.n += 1
        if m.get('seq') == 0:
            m['seq'] = self.n
        return self.op({'payload': json.dumps({'jsonrpc': '2.0', 'method': 'hlasm/dap_tunnel/%d' % self.session, 'params': m})})


class C05(Prop):
    id = 'C05'
    rule = ('sessions of edits, requests and a trace into which malformed, unknown and out-of-order frames are inserted at '
            'random points (mutated LSP and DAP messages, truncated and corrupted JSON, unknown documents and sessions); '
            'non-trivial: at least one malformed frame was sent; oracle: no crash/hang, every well-formed request answered '
            'once with the answer of a fresh server, final diagnostics equal those of a fresh server, exit status 0')

    def make(self, rng, i):
        g = Gen(rng)
        heavy = rng.choice([0, 0.1])
        fs, info = basic_world(rng, g, heavy)
        ed = Editor(rng, g, info, heavy)
        bg = BadGen(rng, [], info['folders'])
        ops = [op_init(info['folders'])]
        opened = set()
        progs = info['progs']
        rate = rng.choice([0.2, 0.5, 0.8])
        use_dap = rng.random() < 0.4
        tags = []
        traced = False
        if rng.random() < 0.15:
            bg.closed = [uri(x) for x in sorted(fs)]
            ops = [bg.message() for _ in range(rng.choice([1, 1, 2, 4]))] + ops
        for _ in range(some(rng, 3, 18, 70)):
            p = rng.choice(progs)
            if rng.random() < rate:
                bg.real = [uri(x) for x in sorted(opened)]
                bg.closed = [uri(x) for x in sorted(fs) if x not in opened]
                new = [bg.message(1 if traced else None, p if use_dap else None)]
            elif p not in opened:
                new = [ed.open(p)]
                opened.add(p)
            elif rng.random() < 0.3:
                q = {'op': 'req', 'm': rng.choice(['hover', 'definition', 'references', 'completion', 'semanticTokens']), 'uri': uri(p),
                     'line': rng.randrange(max(1, len(split_lines(ed.text[p])) - 1)), 'ch': rng.choice([0, 1, 9, 10, 16])}
                tags.append('r%d' % len(tags))
                q['tag'] = tags[-1]
                new = [q]
            elif use_dap and not traced and rng.random() < 0.4:
                traced = True
                new = [{'op': 'trace_bg', 's': 1, 'program': p, 'entry': True, 'cmds': [rng.choice(['next', 'stepIn', 'continue']) for _ in range(rng.randint(0, 6))],
                        'rest': 'continue', 'pause': rng.choice([0, 0, 50, 500])}]
            else:
                new = ed.edit(p)
            new[0]['d'] = gen_delay(rng)
            ops += new
        ops += [{'op': 'join_bg'}, {'op': 'settle'}]
        for p in sorted(opened):
            ops.append({'op': 'req', 'm': 'semanticTokens', 'uri': uri(p), 'wait': True, 'tag': 'f' + p, 'keep': 1})
        ops += [{'op': 'snapshot', 'name': 's0'}, {'op': 'shutdown'}, {'op': 'exit'}]
        return {'sc': {'fs': fs, 'dirs': info['dirs'], 'ops': ops, 'ids': rng.choice([0, 0, 1, 2, 3]), 'sched': gen_sched(rng)}, 'folders': info['folders']}

    def evaluate(self, run, case):
        r = run(case['sc'])
        v = sim_violations(r)
        n = r['stats']['faults'].get('malformed_message', 0)
        info = {'nontrivial': r['hash'] if n else ''}
        if not v and r['exit'] != 0:
            v.append(('exit-status', 'exit status %s after shutdown and exit' % r['exit']))
        if v:
            return v, info
        ops = [op_init(case['folders'])]
        for u in sorted(r['docs']):
            ops.append({'op': 'open', 'uri': u, 'text': r['docs'][u]})
        ops.append({'op': 'settle'})
        fin = {t: a for t, a in r['obs'].get('resp', {}).items() if not a['newer_any'] and a['docs'] == r['docs']}
        for t, a in sorted(fin.items()):
            o = {'op': 'req', 'm': a['m'].split('/', 1)[1].replace('/full', ''), 'uri': a['params']['textDocument']['uri'], 'tag': t, 'wait': True}
            if 'position' in a['params']:
                o['line'], o['ch'] = a['params']['position']['line'], a['params']['position']['character']
            ops.append(o)
        ops += [{'op': 'snapshot', 'name': 's0'}, {'op': 'shutdown'}, {'op': 'exit'}]
        f = run({'fs': r['fs'], 'dirs': case['sc'].get('dirs', []), 'ops': ops, 'sched': {'seed': 1, 'policy': 0}, 'want_hist': False})
        if f['viol']:
            return [('fresh-' + x['class'], x['detail']) for x in f['viol']], info
        x, y = dict(r['obs']['s0']), dict(f['obs']['s0'])
        for z in (x, y):
            for k in list(z):
                if 'bad' in k or k not in r['docs'] and not k.startswith('file:///ws1/lib'):
                    del z[k]
        for d in diff_diags(x, y):
            v.append(('diags-differ', d))
        from .c03 import canon
        for t, a in fin.items():
            b = f['obs']['resp'][t]
            if canon(a['m'], a['result']) != canon(a['m'], b['result']):
                v.append(('answer-differs', '%s %s: history %s fresh %s' % (a['m'], json.dumps(a['params']), json.dumps(a['result'])[:300], json.dumps(b['result'])[:300])))
        info['count'] = {'answers_compared': len(fin)}
        return v, info
