"""Reference model: a small sequential interpreter of the HLASM subset the generators use.

Written from the language description, independent of the server: it knows nothing about queues, caches, threads or
files other than through the `resolve` callback.
"""
import re

VAR = re.compile(r'&([A-Z][A-Z0-9]*)\.?')


def split_lines(text):
    # a line ends at LF, CR or CRLF
    return re.split(r'\r\n|\r|\n', text)


def parse_line(line):
    """-> None for comments/blank, else (label, op, operand)"""
    if not line.strip() or line[0] == '*' or line.startswith('.*'):
        return None
    line = line[:71]
    m = re.match(r'(\S*)\s+(\S+)(?:\s+(.*))?$', line)
    if not m:
        return (line.strip(), '', '')
    lab, op, rest = m.group(1), m.group(2), m.group(3) or ''
    rest = rest.rstrip()
    if "'" in rest and op in ('SETC', 'DC'):
        i = rest.find("'")
        j = rest.find("'", i + 1)
        rest = rest[:j + 1]
    elif op not in ('AIF', 'SETB'):
        rest = rest.split(' ')[0] if rest else ''
    return (lab, op, rest)


class Vars(dict):
    """variables of one scope; the names in `glob` are shared by all scopes that declare them"""

    def __init__(self, shared, *a):
        super().__init__(*a)
        self.shared, self.glob = shared, set()

    def get(self, k, d=None):
        return self.shared.get(k, d) if k in self.glob else super().get(k, d)

    def __setitem__(self, k, v):
        if k in self.glob:
            self.shared[k] = v
        else:
            super().__setitem__(k, v)


def split_args(s):
    """operands separated by commas outside parentheses"""
    out, depth, cur = [], 0, ''
    for c in s:
        if c == ',' and depth == 0:
            out.append(cur)
            cur = ''
            continue
        depth += (c == '(') - (c == ')')
        cur += c
    return out + [cur]


def as_list(v):
    """a parameter that is a list is shown with its elements"""
    if isinstance(v, str) and v.startswith('(') and v.endswith(')') and len(v) > 2:
        r = {str(i + 1): as_list(x) for i, x in enumerate(split_args(v[1:-1]))}
        r[''] = v
        return r
    return v


class Interp:
    """Executes one program. resolve(name) -> (path, text) or None; the result is looked up once per run and name."""

    MAXSTEP = 20000

    def __init__(self, path, text, resolve, sysparm=''):
        self.path = path
        self.text = text
        self.resolve_fn = resolve
        self.cache = {}
        self.diags = []  # (file, line, code, message, chain)
        self.trace = []  # (stack, locals) per executed statement
        self.macros = {}
        self.visited = set()
        self.steps = 0
        self.sysndx = 0
        self.symbols = {}
        self.ends = {}  # last line of a continued statement
        self.globals = {}
        self.scopes = []  # variables of the calls around the current one, innermost first: (number of frames, variables)

    def resolve(self, name):
        if name not in self.cache:
            self.cache[name] = self.resolve_fn(name)
            if self.cache[name]:
                self.visited.add(self.cache[name][0])
        return self.cache[name]

    def flatten(self, path, text, copy_stack=()):
        """statements of a macro body or copy member with nested COPY kept symbolic"""
        out = []
        ls = split_lines(text)
        n = 0
        while n < len(ls):
            p = parse_line(ls[n])
            k = n
            if p:
                while len(ls[k]) > 71 and ls[k][71] != ' ' and k + 1 < len(ls):
                    k += 1
                    p = (p[0], p[1], p[2] + ls[k][15:71].split(' ')[0])
                out.append((path, n, p))
                if k > n:
                    self.ends[path, n] = k
            n = k + 1
        return out

    def run(self):
        self.exec_block(self.flatten(self.path, self.text), Vars(self.globals), [], None, True)
        return self

    def diag(self, f, line, code, msg, chain):
        self.diags.append((f, line, code, msg, tuple(chain)))

    def subst(self, s, vars_):
        def r(m):
            v = vars_.get('&' + m.group(1))
            return str(v) if v is not None else ''
        return VAR.sub(r, s)

    def number(self, s, vars_):
        # sums and differences of numbers and variables
        total, sign = 0, 1
        for tok in re.findall(r"[+-]|L'[A-Z][A-Z0-9]*|&[A-Z][A-Z0-9]*|\d+", s):
            if tok[:2] == "L'":
                tok = (self.symbols.get(tok[2:]) or self.address(*self.ahead[tok[2:]]))['L']
            if tok == '+':
                sign = 1
            elif tok == '-':
                sign = -1
            else:
                v = vars_.get(tok, 0) if tok[0] == '&' else int(tok)
                total += sign * int(v or 0)
        return total

    def cond(self, s, vars_):
        m = re.match(r'\((\S+) (LT|GT|EQ|NE|LE|GE) (\S+)\)', s)
        a, b = self.number(m.group(1), vars_), self.number(m.group(3), vars_)
        return {'LT': a < b, 'GT': a > b, 'EQ': a == b, 'NE': a != b, 'LE': a <= b, 'GE': a >= b}[m.group(2)]

    def address(self, op, arg):
        """attributes of the name of an instruction or of a constant"""
        if op == 'LR':
            return {'': 'RELOC', 'L': '2', 'T': 'I'}
        m = re.match(r'\d*([A-Z])(?:L(\d+))?', arg)
        return {'': 'RELOC', 'L': m.group(2) or {'F': '4', 'H': '2', 'X': '1'}[m.group(1)], 'T': m.group(1)}

    def load_macro(self, name):
        r = self.resolve(name)
        if not r:
            return None
        return self.define_macro(self.flatten(*r), name)

    def define_macro(self, stmts, name):
        # stmts begin with MACRO
        i = 0
        while i < len(stmts) and stmts[i][2][1] != 'MACRO':
            i += 1
        if i >= len(stmts):
            return None
        proto = stmts[i + 1][2]
        body = []
        j = i + 2
        depth = 0
        while j < len(stmts):
            st = stmts[j]
            if st[2][1] == 'MEND':
                body.append((st[0], st[1], st[2], ()))
                break
            if st[2][1] == 'COPY':
                body.append((st[0], st[1], st[2], ()))
                self.inline_copy(st, body, ())
            else:
                body.append((st[0], st[1], st[2], ()))
            j += 1
        mac = {'params': [p for p in proto[2].split(',') if p], 'body': body, 'name': proto[1], 'label': proto[0], 'at': j}
        if proto[1] == name or name is None:
            self.macros[proto[1]] = mac
            return mac
        return None

    def inline_copy(self, st, body, cstack):
        r = self.resolve(st[2][2])
        here = ((st[0], st[1]),) + cstack
        if not r:
            return  # reported when the definition is processed
        for s in self.flatten(*r):
            body.append((s[0], s[1], s[2], here))
            if s[2][1] == 'COPY':
                self.inline_copy(s, body, here)

    def tick(self, stack, vars_):
        self.steps += 1
        if self.steps > self.MAXSTEP:
            raise RuntimeError('model: too many steps')
        depth = len(stack) - sum(n for n, _ in self.scopes)
        fr, gl = [], []
        for n, v in [(depth, vars_)] + self.scopes:
            fr += [{k: dict(x) if isinstance(x, dict) else x for k, x in v.items()}] * n
            gl += [{k: self.globals.get(k) for k in v.glob}] * n
        self.trace.append((stack, fr, dict(self.symbols), self.ends.get((stack[0][0], stack[0][1]), stack[0][1]), gl))

    def exec_block(self, stmts, vars_, outer, _unused, opencode):
        """stmts: list of (file, line, parsed[, copystack]); outer: frames below this one, innermost first"""
        # open code expands COPY when reached
        labels = {}
        items = []
        for s in stmts:
            items.append(s if len(s) == 4 else s + ((),))
        if opencode:
            items = self.expand_open(items)
            self.ahead = {s[2][0]: s[2][1:] for s in items if s[2][1] in ('DC', 'DS', 'LR')}
        for i, s in enumerate(items):
            if s[2][0].startswith('.'):
                labels.setdefault(s[2][0], i)
        i = 0
        while i < len(items):
            f, n, (lab, op, arg), cst = items[i]
            kind = 'COPY' if cst else ('OPENCODE' if opencode else 'MACRO')
            frames = [(f, n, kind)]
            for k, (cf, cn) in enumerate(cst):
                last = k == len(cst) - 1
                frames.append((cf, cn, ('OPENCODE' if opencode else 'MACRO') if last else 'COPY'))
            stack = frames + outer
            chain = [(x[0], x[1]) for x in stack[1:]]
            if op == 'MACRO' and opencode:
                self.tick(stack, vars_)
                sub = [(a, b, c) for a, b, c, d in items[i:]]
                mac = self.define_macro(sub, None)
                i += mac['at'] + 1
                continue
            self.tick(stack, vars_)
            if op in ('DC', 'DS', 'LR') and lab and not lab.startswith('.'):
                self.symbols.setdefault(self.subst(lab, vars_), self.address(op, arg))
            if op in ('SETA', 'SETB', 'SETC') and '(' in lab:
                k, x = lab[:-1].split('(')
                vars_.setdefault(k, {})[str(self.number(x, vars_))] = (
                    self.number(arg, vars_) if op == 'SETA' else self.subst(arg[1:-1], vars_) if op == 'SETC' else 'TRUE' if self.cond(arg, vars_) else 'FALSE')
            elif op == 'SETA':
                vars_[lab] = self.number(arg, vars_)
            elif op == 'SETB':
                vars_[lab] = 'TRUE' if self.cond(arg, vars_) else 'FALSE'
            elif op[:3] in ('GBL', 'LCL') and len(op) == 4:
                d = {'A': 0, 'B': 'FALSE', 'C': ''}[op[3]]
                for x in arg.split(','):
                    if op[0] == 'G' and x in vars_.keys():
                        pass  # an error: it is local already
                    elif op[0] == 'G':
                        vars_.glob.add(x)
                        self.globals.setdefault(x, d)
                    else:
                        vars_[x] = d
            elif op == 'SETC':
                vars_[lab] = self.subst(arg[1:-1], vars_)
            elif op == 'EQU':
                self.symbols.setdefault(self.subst(lab, vars_), {'': str(self.number(arg, vars_)), 'L': '1', 'T': 'U'})
            elif op in ('ANOP', 'LR', 'MEND', 'DC', 'DS', 'CSECT', 'BR', 'L', 'MNOTE'):
                pass
            elif op == 'AGO':
                i = labels[arg]
                continue
            elif op == 'AIF':
                m = re.match(r'(\(.*\))(\.\S+)', arg)
                if self.cond(m.group(1), vars_):
                    i = labels[m.group(2)]
                    continue
            elif op == 'COPY':
                if not self.resolve(arg):
                    self.diag(f, n, 'E058', 'Copy member not found', chain)
            elif op == 'MEXIT':
                return
            else:
                mac = self.macros.get(op) or self.load_macro(op)
                if mac is None:
                    self.diag(f, n, 'E049', 'Operation code not found - ' + op, chain)
                else:
                    loc = Vars(self.globals, {'&SYSNDX': '%04d' % self.sysndx})
                    self.sysndx += 1
                    args = [self.subst(a, vars_) for a in split_args(arg)] if arg else []
                    pos = 0
                    if mac['label']:
                        loc[mac['label']] = self.subst(lab, vars_)
                    for p in mac['params']:
                        if '=' in p:
                            k, d = p.split('=')
                            loc[k] = d
                    for a in args:
                        if '=' in a:
                            k, d = a.split('=')
                            loc['&' + k] = d
                    args = [a for a in args if '=' not in a]
                    sl = [self.subst(lab, vars_)] + args
                    loc['&SYSLIST'] = {'': '(' + ','.join(sl) + ')', **{str(k): as_list(a) for k, a in enumerate(sl)}}
                    loc['&SYSNEST'] = str(len(self.scopes) + 1)
                    for p in mac['params']:
                        if '=' not in p:
                            loc[p] = args[pos] if pos < len(args) else ''
                            pos += 1
                    self.scopes.insert(0, (len(frames), vars_))
                    self.exec_block(mac['body'], loc, stack, None, False)
                    self.scopes.pop(0)
            i += 1

    def expand_open(self, items):
        out = []
        for s in items:
            out.append(s)
            if s[2][1] == 'COPY':
                tmp = []
                self.inline_copy((s[0], s[1], s[2]), tmp, s[3])
                out.extend(tmp)
        return out
