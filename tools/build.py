#!/usr/bin/env python3
"""Builds the simulator binary (build/hsim) from /repo's current working tree and /verif/sim.

Content-hash based (never mtime based): an object is reused only if its command line and the contents of every file
it was compiled from are unchanged.
"""
import glob, hashlib, json, os, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get('HSIM_REPO', '/repo')
B = os.environ.get('HSIM_BUILD', os.path.join(V, 'build'))
DEPS = '/opt/vp/deps'
GRAMMAR = R + '/parser_library/src/parsing/grammar'
GEN = B + '/gen'

# translation units whose memory accesses and atomic operations are scheduling points
INSTR_PREFIXES = [
    'language_server/src/',
    'parser_library/src/workspaces/',
    'parser_library/src/debugging/',
    'parser_library/src/workspace_manager.cpp',
    'parser_library/src/analyzer.cpp',
    'parser_library/src/lib_config.cpp',
    'parser_library/src/diagnosable_impl.cpp',
    'parser_library/src/processing/processing_manager.cpp',
    'parser_library/src/config/',
]
EXCLUDE = ('emscripten',)

_hc = {}
def fhash(path):
    try:
        st = os.stat(path)
        k = (path, st.st_mtime_ns, st.st_size)
        if k not in _hc:
            with open(path, 'rb') as f:
                _hc[k] = hashlib.sha1(f.read()).hexdigest()
        return _hc[k]
    except OSError:
        return None

def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def gen_parser():
    os.makedirs(GEN + '/hlasmparser_out', exist_ok=True)
    g4 = sorted(glob.glob(GRAMMAR + '/*.g4'))
    key = hashlib.sha1(repr([(os.path.basename(f), fhash(f)) for f in g4]).encode()).hexdigest()
    stamp = GEN + '/stamp'
    if os.path.exists(stamp) and open(stamp).read() == key:
        return
    r = run(['java', '-jar', DEPS + '/antlr4cpp/tool/target/antlr4-4.7.2-complete.jar', '-Werror', '-Dlanguage=Cpp',
             '-lib', GRAMMAR + '/', '-o', GEN + '/hlasmparser_out/', '-package', 'hlasm_plugin::parser_library::parsing',
             'hlasmparser.g4'], cwd=GRAMMAR)
    if r.returncode != 0:
        sys.stderr.write(r.stdout); sys.exit('parser generation failed')
    for f in glob.glob(GEN + '/hlasmparser_out/*'):
        dst = GEN + '/' + os.path.basename(f)
        data = open(f, 'rb').read()
        if not os.path.exists(dst) or open(dst, 'rb').read() != data:
            open(dst, 'wb').write(data)
    with open(GEN + '/parser_library_export.h', 'w') as f:
        f.write('#pragma once\n#define PARSER_LIBRARY_EXPORT\n#define PARSER_LIBRARY_NO_EXPORT\n')
    open(stamp, 'w').write(key)

def sources():
    out = []
    for pat in ['parser_library/src', 'language_server/src', 'utils/src']:
        for root, _, files in os.walk(R + '/' + pat):
            for f in files:
                if f.endswith('.cpp') and not f.startswith(EXCLUDE):
                    out.append(os.path.relpath(os.path.join(root, f), R))
    return sorted(out)

BASE = ['g++', '-std=c++17', '-w', '-pipe', '-DNDEBUG', '-g1', '-fno-pie', '-fno-omit-frame-pointer', '-DANTLR4CPP_STATIC=1',
        '-DPARSER_LIBRARY_STATIC_DEFINE=1', '-DASIO_STANDALONE',
        '-include', DEPS + '/antlr4cpp/runtime/Cpp/runtime/antlr4_compat.h',
        '-I' + V + '/sim/stubs',
        '-I' + R + '/parser_library/include', '-I' + R + '/parser_library/src', '-I' + GEN,
        '-I' + R + '/utils/include', '-I' + R + '/language_server/src',
        '-isystem', '/usr/include/antlr4-runtime', '-isystem', DEPS + '/json/include',
        '-isystem', DEPS + '/asio/asio/include']

def units():
    # Link order matters: inline functions shared by several units resolve to the first definition, so the
    # uninstrumented units (simulator, then the bulk of the parser) come first and the instrumented ones last.
    plain, instrumented = [], []
    for s in sources():
        instr = any(s.startswith(p) for p in INSTR_PREFIXES)
        flags = ['-O1']
        if instr:
            flags += ['-fsanitize=thread']
        if s == 'language_server/src/main.cpp':
            flags += ['-Dmain=hlasm_server_main']
        if s == 'language_server/src/lsp/feature_workspace_folders.cpp':
            # the json library here is newer than the project's: its overload check needs the complete type
            flags += ['-include', R + '/parser_library/src/config/pgm_conf.h']
        (instrumented if instr else plain).append((R + '/' + s, s.replace('/', '_') + '.o', flags))
    gen = []
    for f in sorted(glob.glob(GEN + '/*.cpp')):
        b = os.path.basename(f)
        if 'Listener' in b or 'Visitor' in b:
            continue
        gen.append((f, 'gen_' + b + '.o', ['-O1']))
    sim = [(f, 'sim_' + os.path.basename(f) + '.o', ['-O1', '-fno-builtin-malloc'])
           for f in sorted(glob.glob(V + '/sim/*.cpp'))]
    return ([(V + '/sim/mark/begin.cpp', '00_begin.o', ['-O1'])] + sim + gen + plain + instrumented +
            [(V + '/sim/mark/end.cpp', '01_end.o', ['-O1'])])

def parse_d(path):
    try:
        t = open(path).read().replace('\\\n', ' ')
    except OSError:
        return None
    return t.split(':', 1)[1].split()

def main():
    t0 = time.time()
    os.makedirs(B + '/obj', exist_ok=True)
    gen_parser()
    us = units()
    todo = []
    objs = []
    for src, o, flags in us:
        obj = B + '/obj/' + o
        objs.append(obj)
        cmd = BASE + flags + ['-c', src, '-o', obj, '-MD', '-MF', obj + '.d']
        meta = None
        try:
            meta = json.load(open(obj + '.json'))
        except (OSError, ValueError):
            pass
        ok = False
        if meta and os.path.exists(obj) and meta['cmd'] == cmd:
            ok = all(fhash(f) == h for f, h in meta['deps'].items())
        if not ok:
            todo.append((src, obj, cmd))
    # long ones first
    def weight(t):
        b = os.path.basename(t[0])
        return (0 if b.startswith('hlasmparser') else 1, -os.path.getsize(t[0]))
    todo.sort(key=weight)
    errors = []
    def one(t):
        src, obj, cmd = t
        if errors:
            return
        for f in (obj, obj + '.json'):
            if os.path.exists(f):
                os.unlink(f)
        r = run(cmd)
        if r.returncode != 0:
            errors.append((src, r.stdout))
            return
        deps = {f: fhash(f) for f in parse_d(obj + '.d')}
        json.dump({'cmd': cmd, 'deps': deps}, open(obj + '.json', 'w'))
    with ThreadPoolExecutor(int(os.environ.get('HSIM_JOBS', '8'))) as ex:
        list(ex.map(one, todo))
    if errors:
        for s, out in errors:
            sys.stderr.write('FAILED %s\n%s\n' % (s, out[-4000:]))
        sys.exit(3)
    binp = B + '/hsim'
    key = hashlib.sha1(repr([(o, fhash(o)) for o in objs]).encode()).hexdigest()
    stamp = B + '/hsim.stamp'
    if todo or not os.path.exists(binp) or not os.path.exists(stamp) or open(stamp).read() != key:
        r = run(['g++', '-no-pie', '-static-libstdc++', '-static-libgcc', '-rdynamic', '-o', binp + '.tmp'] + objs +
                ['-Wl,--start-group', '/usr/lib/x86_64-linux-gnu/libantlr4-runtime.a', '-Wl,--end-group', '-ldl', '-lpthread'])
        if r.returncode != 0:
            sys.stderr.write(r.stdout[-6000:])
            sys.exit(3)
        os.replace(binp + '.tmp', binp)
        open(stamp, 'w').write(key)
    print('build: %d of %d units compiled in %.1f s' % (len(todo), len(us), time.time() - t0))

if __name__ == '__main__':
    main()
