#!/usr/bin/env python3
"""mutate.py [--seed N] [--time S] [--per S] [--files GLOB...]: small random changes to a scratch copy of the repository, each judged by
all the checks for a short time. Prints which were noticed by which property; the ones that were not are for reading."""
import argparse, glob, json, multiprocessing as mp, os, random, re, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/mut'
ap = argparse.ArgumentParser()
ap.add_argument('--seed', type=int, default=1)
ap.add_argument('--time', type=float, default=3600)
ap.add_argument('--per', type=float, default=60)
ap.add_argument('--procs', type=int, default=8)
ap.add_argument('--verif', default=V)
ap.add_argument('--out', default=W + '/results.jsonl')
ap.add_argument('--files', nargs='*')
ap.add_argument('--props', default=','.join('C%02d' % i for i in range(1, 15)))
A = ap.parse_args()
os.environ['HSIM_REPO'] = W + '/repo'
os.environ['HSIM_BUILD'] = W + '/build'
sys.path.insert(0, A.verif)
import check  # noqa: E402
from hs.runner import SimError  # noqa: E402

FILES = '''language_server/src/*.cpp language_server/src/*.h language_server/src/lsp/*.cpp language_server/src/dap/*.cpp
parser_library/src/workspaces/*.cpp parser_library/src/workspaces/*.h parser_library/src/debugging/*.cpp parser_library/src/debugging/*.h
parser_library/src/workspace_manager_impl.h parser_library/src/workspace_manager.cpp parser_library/src/lib_config.cpp
parser_library/src/config/*.cpp parser_library/src/diagnosable_impl.cpp parser_library/src/processing/processing_manager.cpp
utils/src/native_path.cpp parser_library/src/analyzer.cpp parser_library/src/protocol.cpp'''.split()


def candidates(rel):
    src = open('/repo/' + rel).read().split('\n')
    out = []
    incomment = False
    for i, l in enumerate(src):
        s = l.strip()
        if s.startswith('/*'):
            incomment = True
        if incomment:
            if '*/' in s:
                incomment = False
            continue
        if not s or s.startswith('//') or s.startswith('#'):
            continue

        def add(kind, new):
            if new != l:
                out.append((i, kind, l, new))
        if s.endswith(';') and not re.match(r'(using|typedef|return|break|continue|public|private|struct|class|enum|virtual|static|extern|friend|\}|case|default|else|for|namespace|:)', s) \
                and '(' in s and not re.match(r'^[\w:<>,\s&\*]+\s[\w:]+\([^=]*\)( const)?( override)?( noexcept)?( = 0| = default| = delete)?;$', s) and s.count('(') == s.count(')'):
            add('del', re.match(r'\s*', l).group(0) + ';')
        elif s.endswith(';') and re.match(r'^[\w\.\->\[\]\*]+ = .*;$', s):
            add('del', re.match(r'\s*', l).group(0) + ';')
        if re.match(r'^(\w+[\w\.\->_]*(\+\+|--)|(\+\+|--)[\w\.\->_]+);$', s):
            add('del', re.match(r'\s*', l).group(0) + ';')
        m = re.match(r'^(\s*(?:else )?(?:if|while) \()(.*)(\)\s*)$', l)
        if m and m.group(2).count('(') == m.group(2).count(')') and ';' not in m.group(2) and not re.match(r'(auto|const auto)', m.group(2)):
            add('neg', m.group(1) + '!(' + m.group(2) + ')' + m.group(3))
            if ' && ' in m.group(2):
                a, b = m.group(2).split(' && ', 1)
                add('and-l', m.group(1) + a + m.group(3) if a.count('(') == a.count(')') else l)
                add('and-r', m.group(1) + b + m.group(3) if b.count('(') == b.count(')') else l)
            if ' || ' in m.group(2):
                a, b = m.group(2).split(' || ', 1)
                add('or-l', m.group(1) + a + m.group(3) if a.count('(') == a.count(')') else l)
                add('or-r', m.group(1) + b + m.group(3) if b.count('(') == b.count(')') else l)
            if m.group(1).strip().startswith('if'):
                add('never', m.group(1) + '(' + m.group(2) + ') && false' + m.group(3))
        for a, b in ((' < ', ' <= '), (' <= ', ' < '), (' > ', ' >= '), (' >= ', ' > '), (' == ', ' != '), (' != ', ' == '), (' + 1', ''), (' - 1', ''), ('++', '--'), ('true', 'false'), ('false', 'true')):
            if a in l and not ('template' in l or 'operator' in l):
                if a in ('true', 'false') and not re.search(r'\b%s\b' % a, l):
                    continue
                add('swap' + a.strip(), l.replace(a, b, 1))
        m = re.match(r'^(\s*)return (?!true|false)(.*);$', l)
        if s == 'break;' or s == 'continue;':
            add('nobreak', l.replace(s, ';'))
    return [(rel,) + c for c in out]


def worker(k, props, deadline, stop, q):
    i = k
    sys.stdout = open(os.devnull, 'w')
    ps = [check.load(p) for p in props]
    R = check.Runner(cpu=None)
    rng = random.Random(k)
    base = 500000 + rng.randrange(10 ** 6)
    n = 0
    while time.time() < deadline and not stop.value:
        p = ps[(n + k * 2) % len(ps)]
        n += 1
        i = base + n * 8 + k
        case = p.make(check.case_rng(p.id, 1, i), i)
        try:
            v, _ = p.evaluate(R.run, case)
        except SimError as e:
            v = [('simerror', str(e))]
        if v:
            stop.value = 1
            q.put((p.id, i, v[0][0], v[0][1][:200]))
            break
    R.close()
    q.put(None)


def judge():
    stop = mp.Value('i', 0)
    q = mp.Queue()
    props = A.props.split(',')
    ps = [mp.Process(target=worker, args=(k, props, time.time() + A.per, stop, q)) for k in range(A.procs)]
    for p in ps:
        p.start()
    left, hit = A.procs, []
    while left:
        m = q.get()
        if m is None:
            left -= 1
        else:
            hit.append(m)
    for p in ps:
        p.join()
    return hit


def main():
    if not os.path.exists(W + '/repo'):
        subprocess.check_call(['git', 'clone', '-q', '/repo', W + '/repo'])
    subprocess.check_call(['git', '-C', W + '/repo', 'pull', '-q'])
    subprocess.check_call(['git', '-C', W + '/repo', 'checkout', '-q', '--', '.'])
    cs = []
    for g in A.files or FILES:
        for f in sorted(glob.glob('/repo/' + g)):
            if 'emscripten' not in f and 'tcp' not in f:
                cs += candidates(os.path.relpath(f, '/repo'))
    rng = random.Random(A.seed)
    rng.shuffle(cs)
    print(len(cs), 'candidates', flush=True)
    done = set()
    if os.path.exists(A.out):
        for l in open(A.out):
            r = json.loads(l)
            done.add((r['file'], r['line'], r['new']))
    t0 = time.time()
    for rel, i, kind, old, new in cs:
        if time.time() - t0 > A.time:
            break
        if (rel, i + 1, new) in done:
            continue
        path = W + '/repo/' + rel
        text = open('/repo/' + rel).read().split('\n')
        text[i] = new
        open(path, 'w').write('\n'.join(text))
        r = {'file': rel, 'line': i + 1, 'kind': kind, 'old': old.strip(), 'new': new}
        t = time.time()
        p = subprocess.run([sys.executable, A.verif + '/tools/build.py'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            r['result'] = 'nobuild'
        else:
            hit = judge()
            r['result'] = 'noticed' if hit else 'MISSED'
            r['hit'] = hit[:2]
        r['s'] = round(time.time() - t, 1)
        with open(A.out, 'a') as f:
            f.write(json.dumps(r) + '\n')
        if r['result'] != 'nobuild':
            print(r['result'], rel, i + 1, kind, '|', old.strip(), '|', [(h[0], h[2]) for h in r['hit']], r['s'], flush=True)
        open(path, 'w').write(open('/repo/' + rel).read())


main()
