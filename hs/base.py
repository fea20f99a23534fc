"""What a property check consists of, and the helpers they share."""
import json
from urllib.parse import quote, unquote


def uri(path):
    return path if path.startswith('untitled:') else 'file://' + quote(path, safe='/-._~')


def path_of(u):
    return unquote(u[7:]) if u.startswith('file://') else u


def sched_defaults(sc):
    return sc


class Prop:
    id = None
    level = 'exploration'
    rule = ''
    quick_s = 60
    quick_runs = 10 ** 9
    thorough_s = 1500
    assumptions = [
        'threads interleave at intercepted points: synchronisation calls, accesses to shared heap memory (sampled), I/O and time; '
        'sequentially consistent memory',
        'the simulated file system, clock and standard streams behave as their models in sim/ say',
    ]
    real = ['language_server (main, dispatcher, request_manager, LSP and DAP servers)', 'parser_library (all of it)',
            'utils', 'ANTLR runtime', 'libstdc++ streams and std::filesystem above the intercepted system calls']
    stubs = ['kernel scheduler -> seeded scheduler', 'pthread mutex/cond/thread -> simulated', 'files and directories -> in-memory '
             'file system with faults', 'stdin/stdout -> simulated pipes', 'clocks and sleeps -> simulated time',
             'editor -> simulated client']
    # make(rng, i) -> case (JSON-able). evaluate(run, case) -> (violations [(class, detail)], info)
    # where run(scenario) -> result of the simulator; info may hold 'nontrivial': key

    def make(self, rng, i):
        raise NotImplementedError

    def evaluate(self, run, case):
        raise NotImplementedError

    # for minimisation: lists inside the case that may be shortened
    def shrinkables(self, case):
        return [('sc', 'ops')]


def sim_violations(r, ignore=()):
    """violations the simulator itself raised (crash, deadlock, use-after-free, torn frame, ...)"""
    out = []
    for v in r['viol']:
        if v['class'] not in ignore:
            out.append((v['class'], v['detail']))
    return out


def diff_diags(a, b, la='history', lb='fresh', strict=False):
    """strict: also errors of a whole library member, which known finding F1 affects if several programs use it (half-typed text
    may use any member as a macro)"""
    out = []
    for u in sorted(set(a) | set(b)):
        x, y = list(a.get(u, [])), list(b.get(u, []))
        if not strict and '/lib' in u:
            x = [e for e in x if json.loads(e)['code'] != 'E059']
            y = [e for e in y if json.loads(e)['code'] != 'E059']
        if x == y:
            continue
        only_x, only_y = list(x), list(y)
        for e in y:
            if e in only_x:
                only_x.remove(e)
        for e in x:
            if e in only_y:
                only_y.remove(e)
        def s(v):
            r = []
            for e in v[:4]:
                e = json.loads(e)
                r.append('%s@%d:%s' % (e['code'], e['range']['start']['line'], e['message']))
            return r
        out.append('%s: only %s: %s; only %s: %s' % (u, la, s(only_x), lb, s(only_y)))
    return out
