"""Generators shared by the properties: workspaces, libraries, programs, edits, schedules - plus the model's verdict."""
import json, posixpath, random, re
from .base import uri
from .model import Interp, split_lines


WIDE = ['\u20ac', '\u4e2d', '\U0001d11e', '\U0001f600', '\u00d1']
RAW_BYTES = ['\uee82', '\ueee2\uee82', '\ueeff', '\ueec3', '\ueef0\uee9f\uee98', '\ueee4\u4e2d']  # see raw_bytes() in sim/client.cpp


def disk_text(t):
    """the text of a file: bytes that are not UTF-8 read as U+FFFD each"""
    if t is None or not re.search('[\uee80-\ueeff]', t):
        return t
    b = b''.join(bytes([ord(c) - 0xee00]) if '\uee80' <= c <= '\ueeff' else c.encode() for c in t)
    out, i = '', 0
    while i < len(b):
        for n in (1, 2, 3, 4):
            try:
                c = b[i:i + n].decode()
                break
            except UnicodeDecodeError:
                c = None
        out += '\ufffd' if c is None else c
        i += 1 if c is None else n
    return out


def spoil(rng, t):
    """some bytes of the file are not UTF-8"""
    return ''.join(l[:-1] + rng.choice(RAW_BYTES) + '\n' if re.match(r' +Z\d+\S*\n$', l) and rng.random() < 0.5 else l for l in t.splitlines(True))


def L(label, op, arg=''):
    return ('%-8s %-5s %s' % (label, op, arg)).rstrip()


class Gen:
    """Makes blocks of source lines. A block is self-contained, so blocks can be added and removed freely."""

    def __init__(self, rng):
        self.rng = rng
        self.n = 0
        self.rich = False  # parameters, lists, global variables, continued statements (for the tracer)
        self.wide = 0  # how often operation codes have characters that are not ASCII
        self.wild = False  # also constructs the reference interpreter does not cover

    def wild_block(self, macros, copies):
        names = list(macros) + list(copies) + ['NOSUCH']
        r = self.rng.random()
        u = self.uid()
        if r < 0.35:
            return [L('', self.rng.choice(names), '1')]
        if r < 0.65:
            return [L('', 'COPY', self.rng.choice(names))]
        if r < 0.72:
            return [L('', 'AGO', '.W%d' % u), L('', 'Z%d' % self.uid())] + ([L('.W%d' % u, 'ANOP')] if self.rng.random() < 0.6 else [])
        if r < 0.80:
            return [L('', 'MACRO'), L('', self.rng.choice(names), '&P')] + ([L('', 'MEND')] if self.rng.random() < 0.7 else [])
        if r < 0.86:
            return [L('&A%d' % u, 'SETA', "L'LW%d" % u), L('LW%d' % u, 'DC', "CL%d'A'" % (u % 50 + 1))]
        if r < 0.92:
            return [L('', 'GBLA', '&GW'), L('&GW', 'SETA', '&GW+1'), L('', 'AIF', '(&GW GT 2).X%d' % u), L('', 'Z%d' % self.uid()), L('.X%d' % u, 'ANOP')]
        return [L('LW%d' % u, 'EQU', 'LW%d+1' % (u - 1)), L('', 'USING', '*,12'), L('', 'DC', "A(LW%d)" % u)]

    def call(self, macro):
        """a macro call with a list, a keyword, a label, over several lines"""
        rng = self.rng
        ps = [rng.choice([str(rng.randint(0, 9)), '(A,B)', '(%d)' % rng.randint(0, 9), '', '(X,Y,Z)', '((A,B),C)', '(X,(1,2,3))', '(,B)'])]
        if rng.random() < 0.5:
            ps.insert(rng.randint(0, 1), 'K=%d' % rng.randint(0, 9))
        if rng.random() < 0.2:
            ps.append('EXTRA')
        lab = 'X%d' % self.uid() if rng.random() < 0.3 else ''
        if rng.random() < 0.4 and len(ps) > 1 and '' not in ps:
            k = rng.randint(1, len(ps) - 1)
            ls = [L(lab, macro, ','.join(ps[:k]) + ',').ljust(71) + 'X']
            rest = ps[k:]
            if len(rest) > 1 and rng.random() < 0.5:
                ls.append((' ' * 15 + rest[0] + ',').ljust(71) + 'X')
                rest = rest[1:]
            return ls + [' ' * 15 + ','.join(rest)]
        return [L(lab, macro, ','.join(ps))]

    def rich_block(self, macros, opencode):
        rng = self.rng
        u = self.uid()
        r = rng.random()
        if r < 0.4 and macros:
            return self.call(rng.choice(macros))
        if r < 0.5:
            return [L('&G%d' % rng.randint(1, 3), 'SETA', '&G%d+%d' % (rng.randint(1, 3), rng.randint(1, 3)))]
        if r < 0.6:
            return [L('&H1', 'SETC', "'&H1.%d'" % rng.randint(0, 9))]
        if r < 0.63:
            # a name whose value is an address
            d = ('D%d' if opencode else 'D%dX&SYSNDX') % u
            k = rng.randint(1, 9)
            return [rng.choice([L(d, 'DC', "F'%d'" % k), L(d, 'DS', 'CL%d' % k), L(d, 'LR', '1,2'), L(d, 'DC', "X'0%d'" % k), L(d, 'DS', '0H'), L(d, 'DC', "H'%d'" % k)])]
        if r < 0.65:
            return [L('&V%d(%d)' % (u, rng.randint(1, 4)), 'SETB', '(%d GT %d)' % (rng.randint(0, 9), rng.randint(0, 9))), L('&C%d(%d)' % (u, rng.randint(1, 4)), 'SETC', "'T%d'" % u)]
        if r < 0.68:
            return [L('&R%d(%d)' % (u, rng.randint(1, 4)), 'SETA', str(rng.randint(0, 99))), L('&R%d(%d)' % (u, rng.randint(1, 4)), 'SETA', str(rng.randint(0, 99)))]
        if r < 0.76:
            return [L('', rng.choice(['LCLA', 'LCLB', 'LCLC']), '&T%d,&U%d' % (u, u))]
        if opencode and r < 0.88:
            # an attribute of a name that is defined later on
            return [L('&A%d' % u, 'SETA', "L'D%d+1" % u)] + ([L('', 'ANOP')] if rng.random() < 0.5 else []) + [L('D%d' % u, 'DS', 'CL%d' % rng.randint(1, 9))]
        if opencode:
            return [L('&V%d' % u, 'SETB', '(%d GT %d)' % (rng.randint(0, 9), rng.randint(0, 9)))]
        if r < 0.84:
            return [L('&V%d' % u, 'SETB', '(&K GT %d)' % rng.randint(0, 9)), L('&W%d' % u, 'SETA', '&K+1')]
        if r < 0.9:
            return [L('', 'AIF', '(&K LT %d).E%d' % (rng.randint(3, 9), u)), L('', 'MEXIT'), L('.E%d' % u, 'ANOP')]
        if r < 0.95:
            return [L('&C%d' % u, 'SETC', "'&P.&N'")]
        return [L('Q&SYSNDX', 'EQU', '&K')]

    def globals_(self):
        gs = [x for x in ('&G1', '&G2', '&G3') if self.rng.random() < 0.6]
        out = [L('', 'GBLA', ','.join(gs))] if gs else []
        if self.rng.random() < 0.5:
            out.append(L('', 'GBLC', '&H1'))
        return out

    def uid(self):
        self.n += 1
        return self.n

    def z(self):
        return 'Z%d' % self.uid() + (''.join(self.rng.choice(WIDE) for _ in range(self.rng.randint(1, 3))) if self.rng.random() < self.wide else '')

    def marker(self):
        return [L('', self.z())]

    def loop(self):
        u = self.uid()
        k = self.rng.randint(1, 3)
        body = [L('', self.z())] if self.rng.random() < 0.5 else []
        return [L('&A%d' % u, 'SETA', '0'), L('.L%d' % u, 'ANOP'), L('&A%d' % u, 'SETA', '&A%d+1' % u)] + body + \
            [L('', 'AIF', '(&A%d LT %d).L%d' % (u, k, u))]

    def cond(self):
        u = self.uid()
        v = self.rng.randint(0, 3)
        return [L('&B%d' % u, 'SETA', str(v)), L('', 'AIF', '(&B%d GT 1).S%d' % (u, u)), L('', 'Z%d' % self.uid()),
                L('.S%d' % u, 'ANOP')]

    def label(self):
        u = self.uid()
        return [L('L%d' % u, 'EQU', str(self.rng.randint(1, 15))), L('', 'LR', 'L%d,1' % u)]

    def setc(self):
        u = self.uid()
        return [L('&C%d' % u, 'SETC', "'T%d'" % self.uid())]

    def comment(self):
        return ['* remark %d' % self.uid() + (' ' + self.z() if self.wide else '')]

    def inline_macro(self):
        u = self.uid()
        return [L('', 'MACRO'), L('', 'I%d' % u, '&P'), L('', 'Z%d' % self.uid()), L('', 'MEND'), L('', 'I%d' % u, '3')]

    def block(self, macros, copies, opencode=True, heavy=0.0):
        r = self.rng.random()
        if r < heavy:
            return self.busy()
        if self.rich and self.rng.random() < 0.45:
            return self.rich_block(macros, opencode)
        if self.wild and self.rng.random() < 0.3:
            return self.wild_block(macros, copies)
        r = self.rng.random()
        if r < 0.27 and macros:
            a = str(self.rng.randint(0, 9))
            return [L('', self.rng.choice(macros), a)]
        if r < 0.37 and copies:
            return [L('', 'COPY', self.rng.choice(copies))]
        if r < 0.57:
            return self.marker()
        if r < 0.67:
            return self.loop()
        if r < 0.76:
            return self.cond()
        if r < 0.85 and opencode:
            return self.label()
        if r < 0.90:
            return self.setc()
        if r < 0.95 and opencode:
            return self.inline_macro()
        return self.comment()

    def busy(self):
        """a block that takes long to analyse, so that newer messages arrive while it is being analysed"""
        return [L('', 'LR', '1,2')] * self.rng.choice([20, 40, 80])

    def macro_text(self, name, macros, copies, n=None):
        lines = [L('', 'MACRO'), L('', name, '&P')]
        if self.rich:
            lines = [L('', 'MACRO'), L('&N' if self.rng.random() < 0.7 else '', name, '&P,&K=%d' % self.rng.randint(0, 9))]
            if lines[1][0] != '&':
                lines.append(L('', 'LCLC', '&N'))
            lines += self.globals_()
        for _ in range(n if n is not None else self.rng.randint(1, 3)):
            lines += self.block(macros, copies, opencode=False)
        lines.append(L('', 'MEND'))
        if self.wild and self.rng.random() < 0.2 and not any(' AIF ' in x or ' AGO ' in x for x in lines):  # (see copy_text)
            del lines[self.rng.randrange(len(lines))]
        return '\n'.join(lines) + '\n'

    def copy_text(self, macros=(), n=None):
        lines = []
        if self.wild and self.rng.random() < 0.5:
            for _ in range(self.rng.randint(0, 3)):
                b = self.wild_block([], ['C1', 'C2'])  # (macros called here would call each other without end)
                # a jump in a member copied twice goes backwards and runs until the branch counter is used up
                lines += b if not any(' AGO ' in x or ' AIF ' in x for x in b) else self.marker()
            return '\n'.join(lines) + '\n'
        for _ in range(n if n is not None else self.rng.randint(1, 3)):
            r = self.rng.random()
            if r < 0.6:
                lines += self.marker()
            elif r < 0.8:
                lines += self.setc()
            elif macros:
                lines += [L('', self.rng.choice(macros), str(self.rng.randint(0, 9)))]
            else:
                lines += self.comment()
        if not lines or all(x.startswith('*') for x in lines):
            lines += self.marker()
        return '\n'.join(lines) + '\n'

    def program(self, macros, copies, n=None, heavy=0.0):
        blocks = [self.block(macros, copies, heavy=heavy) for _ in range(n if n is not None else self.rng.randint(1, 6))]
        if self.rich:
            blocks.insert(0, self.globals_())
        return blocks


def some(rng, lo, hi, big, p=0.05):
    """a number between lo and hi, now and then a big one"""
    return rng.randint(hi, big) if rng.random() < p else rng.randint(lo, hi)


def text_of(blocks):
    return ''.join(l + '\n' for b in blocks for l in b)


def gen_sched(rng, heavy_preempt=False):
    s = {'seed': rng.getrandbits(32)}
    r = rng.random()
    if r < 0.12:
        s['policy'] = 0
    elif r < 0.62:
        s['policy'] = 1
        s['sync'] = rng.choice([2, 4, 10, 30])
        s['shared'] = rng.choice([3, 10, 40, 200])
        s['mem'] = rng.choice([0, 0, 100, 1000])
    elif r < 0.88:
        s['policy'] = 2
        s['depth'] = rng.randint(1, 6)
        s['span'] = int(10 ** rng.uniform(3.3, 5.3))
    else:
        s['policy'] = 3
        s['victim'] = rng.choice([0, 1, 2, 3, 4])
        s['sync'] = rng.choice([1, 4, 10])
        s['shared'] = rng.choice([3, 10, 40])
        s['mem'] = rng.choice([0, 500])
    if rng.random() < 0.15:
        s['spurious'] = rng.choice([0.001, 0.01])
    return s


def gen_delay(rng):
    r = rng.random()
    if r < 0.45:
        return 0
    if r < 0.9:
        return int(10 ** rng.uniform(0, 4.3))
    return int(10 ** rng.uniform(4.3, 6))


def edit_between(rng, old, new):
    """edits (in UTF-16 positions) that turn old into new, possibly in several pieces"""
    if rng.random() < 0.15:
        return [[{'all': 1, 'text': new}]]
    p = 0
    while p < len(old) and p < len(new) and old[p] == new[p]:
        p += 1
    e = 0
    while e < len(old) - p and e < len(new) - p and old[len(old) - 1 - e] == new[len(new) - 1 - e]:
        e += 1
    # widen a little at random
    w = rng.choice([0, 0, 0, 1, 5])
    p = max(0, p - w)

    def pos(text, off):
        head = text[:off]
        ls = split_lines(head)
        return [len(ls) - 1, len(ls[-1].encode('utf-16-le')) // 2]
    a, b = pos(old, p), pos(old, len(old) - e)
    ins = new[p:len(new) - e]
    r = rng.random()
    if r < 0.5 or len(ins) < 2:
        return [[{'a': a, 'b': b, 'text': ins}]]
    # typed in two pieces: one or two notifications
    k = rng.randint(1, len(ins) - 1)
    mid = pos(old[:p] + ins[:k], p + k)
    e1 = {'a': a, 'b': b, 'text': ins[:k]}
    e2 = {'a': mid, 'b': mid, 'text': ins[k:]}
    if r < 0.75:
        return [[e1, e2]]
    return [[e1], [e2]]


# ---- configuration and the model's view of a whole workspace -----------------------------------------------------
class World:
    """Final state of files, configuration and open documents; predicts the markers a fresh server must show."""

    def __init__(self):
        self.fs = {}
        self.open = {}  # path -> text
        self.folders = []  # [(name, path)]
        self.limit = 10

    def text(self, path):
        if path in self.open:
            return self.open[path]
        return disk_text(self.fs.get(path))

    def folder_of(self, path):
        best = None
        for name, f in self.folders:
            if path.startswith(f.rstrip('/') + '/') and (best is None or len(f) > len(best)):
                best = f
        return best

    def config(self, folder):
        """-> (groups {name: group}, pgms list, limit) or None if unusable"""
        folder = folder.rstrip('/')
        pg = self.text(folder + '/.hlasmplugin/proc_grps.json')
        pc = self.text(folder + '/.hlasmplugin/pgm_conf.json')
        if pg is None or pc is None:
            return None
        try:
            pg, pc = json.loads(pg), json.loads(pc)
        except ValueError:
            return None
        return {g['name']: g for g in pg['pgroups']}, pc['pgms'], pc.get('diagnosticsSuppressLimit'), pg

    def group_of(self, path):
        f = self.folder_of(path)
        if not f:
            return None, None, self.limit
        c = self.config(f)
        if not c:
            return f, None, self.limit
        groups, pgms, lim, pg = c
        lim = self.limit if lim is None else lim
        rel = path[len(f.rstrip('/')) + 1:]
        for p in pgms:
            if not re.search(r'[*?]', p['program']) and p['program'] == rel and p['pgroup'] in groups:
                return f, (groups[p['pgroup']], pg), lim
        for p in pgms:
            if re.search(r'[*?]', p['program']) and p['pgroup'] in groups:
                rx = re.escape(p['program']).replace(r'\*', '.*').replace(r'\?', '.')
                if re.fullmatch(rx, rel):
                    return f, (groups[p['pgroup']], pg), lim
        return f, None, lim

    def lib_members(self, libdir, exts):
        out = {}
        for p in sorted(self.fs):
            d, _, b = p.rpartition('/')
            if d != libdir:
                continue
            if not exts:
                out[b.upper()] = p
            else:
                for e in sorted(exts, key=lambda x: (-len(x), x)):
                    if len(b) > len(e) and b.endswith(e):
                        out.setdefault(b[:len(b) - len(e)].upper(), p)
                        break
        return out

    def libs_of(self, path):
        f, g, _ = self.group_of(path)
        if not g:
            return []
        grp, pg = g
        res = []
        for l in grp['libs']:
            if isinstance(l, str):
                l = {'path': l}
            d = l['path'] if l['path'].startswith('/') else f.rstrip('/') + '/' + l['path']
            d = posixpath.normpath(d)
            exts = l.get('macro_extensions') or pg.get('macro_extensions') or []
            exts = [e if e == '' or e.startswith('.') else '.' + e for e in exts]
            res.append(self.lib_members(d, exts))
        return res

    def resolver(self, path):
        libs = self.libs_of(path)

        def res(name):
            for m in libs:
                if name in m:
                    p = m[name]
                    return p, self.text(p)
            return None
        return res

    def interp(self, path):
        return Interp(path, self.text(path), self.resolver(path)).run()

    def expected(self):
        """multiset (sorted list) of [uri, line, message] over all E049/E058 diagnostics"""
        runs = {p: self.interp(p) for p in self.open if not p.endswith('.json')}
        deps = set()
        for p, r in runs.items():
            deps |= {v for v in r.visited if v != p}
        self.used = deps
        out = []
        for p, r in runs.items():
            if p in deps:
                continue
            f, g, lim = self.group_of(p)
            if g is None and len(r.diags) > lim:
                continue
            out += [[uri(d[0]), d[1], d[3]] for d in r.diags]
        return sorted(out)


def markers(snapshot):
    out = []
    for uri, ds in snapshot.items():
        for d in ds:
            d = json.loads(d) if isinstance(d, str) else d
            if d['code'] in ('E049', 'E058'):
                out.append([uri, d['range']['start']['line'], d['message']])
    return sorted(out)


def once(ms):
    """without errors in the definition of a member: those shown are the ones of the last program analysed (known/findings.json)"""
    return [m for m in ms if m[2] != 'Copy member not found' or '/lib' not in m[0]]


def jconf(x):
    return json.dumps(x)
