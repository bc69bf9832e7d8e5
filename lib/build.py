#!/usr/bin/env python3
"""Builds the library under test from /repo's working tree, and the harnesses, into /verif/build.

Every object is keyed by the content of everything it was compiled from (command line, sources and headers, by hash),
never by time stamps: a changed tree is always seen, whatever its modification times are.
"""
import concurrent.futures, fcntl, glob, hashlib, json, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
BUILD = os.environ.get('VP_BUILD', os.path.join(VERIF, 'build'))
CXX = '/usr/bin/clang++-18'
JOBS = int(os.environ.get('VP_JOBS', os.cpu_count() or 8))

COMMON = ['-std=gnu++20', '-O1', '-w', '-mavx2', '-mbmi2', '-mavx', '-msse4.2', '-mbmi', '-DM_ENABLE_SANITY_FIELDS',
          '-fno-omit-frame-pointer', '-fsanitize=address,undefined', '-fno-sanitize=vptr',
          '-fno-sanitize-recover=undefined', '-gline-tables-only']
COV = ['-fsanitize-coverage=inline-8bit-counters']
TSAN = ['-std=gnu++20', '-O1', '-w', '-mavx2', '-mbmi2', '-mavx', '-msse4.2', '-mbmi', '-DM_ENABLE_SANITY_FIELDS',
          '-fno-omit-frame-pointer', '-fsanitize=thread', '-gline-tables-only']
LINK_LIBS = ['-l:libboost_container.a', '-l:libboost_thread.a', '-l:libboost_system.a', '-l:libboost_atomic.a', '-ldl',
             '-lpthread']

# Translation units of the library which need V8/Binaryen (not available here) are left out, as in the pinned build.
NEEDS_V8 = {'V8Engine.cpp', 'WasmDSL.cpp', 'WasmAlgo.cpp', 'WasmOperator.cpp', 'WasmUtil.cpp', 'WebAssembly.cpp'}
# This translation unit instantiates thousands of search configurations and takes minutes to compile with optimisation and
# all sanitizers.  Nothing else refers to it (it registers its enumerators in a static initializer), so only the
# harnesses named in WITH_SEARCH take it, at -O0.
SEARCH = 'HeuristicSearchPlanEnumerator.cpp'
WITH_SEARCH = {'h_plan', 'h_meta', 'tool:query_slicer'}
SEARCH_FLAGS = ['-O0', '-fno-sanitize=undefined']
# Sources in src/ itself which have a main().
TOOLS = {'shell.cpp', 'check.cpp', 'lex.cpp', 'parse.cpp', 'query_slicer.cpp', 'cardinality_gen.cpp',
         'allocator_benchmark.cpp', 'train-operator-model.cpp'}


def includes():
    return ['-I' + os.path.join(BUILD, 'gen'), '-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(REPO, 'src'),
            '-isystem', '/usr/include/eigen3', '-I' + os.path.join(VERIF, 'harness')]


def gen_headers():
    """Generated headers of the project's own build (git ignores them in /repo)."""
    d = os.path.join(BUILD, 'gen', 'mutable')
    os.makedirs(d, exist_ok=True)
    cfg = '\n'.join(['#ifndef M_EXPORT_H', '#define M_EXPORT_H', '#define M_EXPORT', '#define M_NO_EXPORT',
                     '#define M_DEPRECATED __attribute__ ((__deprecated__))', '#define M_DEPRECATED_EXPORT M_DEPRECATED',
                     '#define M_DEPRECATED_NO_EXPORT M_DEPRECATED', '#endif', ''])
    ver = 'X(GIT_REV, 0)\nX(GIT_BRANCH, none)\nX(SEM_VERSION, )\n'
    for name, text in (('mutable-config.hpp', cfg), ('gitversion.tbl', ver)):
        for base in (d,):
            p = os.path.join(base, name)
            if not os.path.exists(p) or open(p).read() != text:
                with open(p, 'w') as f:
                    f.write(text)


_hash_cache = {}


def fhash(path):
    h = _hash_cache.get(path)
    if h is None:
        try:
            with open(path, 'rb') as f:
                h = hashlib.sha256(f.read()).hexdigest()
        except OSError:
            h = 'missing'
        _hash_cache[path] = h
    return h


def parse_dep(path):
    with open(path) as f:
        txt = f.read().replace('\\\n', ' ')
    return [x for x in txt.split(':', 1)[1].split() if not x.startswith(('/usr/lib', '/usr/include'))]


def up_to_date(obj, cmdkey):
    meta = obj + '.meta'
    if not (os.path.exists(obj) and os.path.exists(meta)):
        return False
    try:
        m = json.load(open(meta))
    except ValueError:
        return False
    return m['cmd'] == cmdkey and all(fhash(p) == h for p, h in m['deps'].items())


def compile_one(src, obj, flags):
    cmd = [CXX] + flags + includes() + ['-MD', '-MF', obj + '.d', '-c', src, '-o', obj]
    cmdkey = hashlib.sha256(' '.join(cmd).encode()).hexdigest()
    if up_to_date(obj, cmdkey):
        return None
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    for p in (obj, obj + '.meta'):
        if os.path.exists(p):
            os.unlink(p)
    env = dict(os.environ)
    pre = []
    if shutil.which('ccache'):
        env.update(CCACHE_DIR=os.path.join(BUILD, 'ccache'), CCACHE_MAXSIZE='3G', LANG='C.UTF-8')
        env.pop('CCACHE_DISABLE', None)
        pre = [shutil.which('ccache')]
    r = subprocess.run(pre + cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        return (src, r.stdout)
    deps = {p: fhash(p) for p in parse_dep(obj + '.d')}
    with open(obj + '.meta', 'w') as f:
        json.dump({'cmd': cmdkey, 'deps': deps}, f)
    return None


def lib_sources():
    out = []
    for d in ('util', 'catalog', 'lex', 'parse', 'storage', 'io', 'IR', 'backend'):
        out += sorted(p for p in glob.glob(os.path.join(REPO, 'src', d, '*.cpp'))
                      if os.path.basename(p) not in NEEDS_V8)
    out += sorted(p for p in glob.glob(os.path.join(REPO, 'src', '*.cpp')) if os.path.basename(p) not in TOOLS)
    return out


NO_LIB = {'h_lock'}  # tests headers only, compiled against stand-ins


class BuildError(Exception):
    pass


# name -> dict(srcs: harness sources, tool: /repo tool source linked with the library, flags)
def target_spec(name):
    if name.startswith('tool:'):
        t = name.split(':')[1]
        return {'srcs': [os.path.join(REPO, 'src', t + '.cpp')], 'variant': 'asan', 'libcov': True,
                'extra': [os.path.join(VERIF, 'harness', 'tool_stub.cpp')]}
    if name.endswith('_tsan'):
        return {'srcs': [os.path.join(VERIF, 'harness', name + '.cpp')], 'variant': 'tsan'}
    return {'srcs': [os.path.join(VERIF, 'harness', name + '.cpp'), os.path.join(VERIF, 'harness', 'engine.cpp')],
            'variant': 'asan'}


def build(targets, verbose=False):
    """Builds the named targets; returns {target: executable}."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        _hash_cache.clear()
        gen_headers()
        jobs = {}
        out = {}
        links = []
        for t in targets:
            spec = target_spec(t)
            v = spec['variant']
            flags = TSAN if v == 'tsan' else COMMON
            libflags = flags if v == 'tsan' else flags + COV
            objs = []
            late = []
            for s in [] if t in NO_LIB else lib_sources():
                if os.path.basename(s) == SEARCH:
                    if t not in WITH_SEARCH:
                        continue
                    o = os.path.join(BUILD, v, 'search.o')
                    jobs[o] = (s, o, libflags + SEARCH_FLAGS)
                    late.append(o)
                    continue
                o = os.path.join(BUILD, v, os.path.relpath(s, os.path.join(REPO, 'src')) + '.o')
                jobs[o] = (s, o, libflags)
                objs.append(o)
            for s in spec['srcs'] + spec.get('extra', []):
                o = os.path.join(BUILD, v, 'harness', os.path.basename(s) + '.o')
                f = libflags if s.startswith(REPO) else flags
                jobs[o] = (s, o, f)
                objs.append(o)
            exe = os.path.join(BUILD, 'bin', t.replace(':', '_'))
            links.append((exe, objs + late, flags))
            out[t] = exe
        # big ones first
        todo = sorted(jobs.values(), key=lambda j: (os.path.basename(j[0]) != SEARCH, -os.path.getsize(j[0])))
        with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
            errs = [e for e in ex.map(lambda j: compile_one(*j), todo) if e]
        if errs:
            raise BuildError('\n'.join('%s:\n%s' % e for e in errs[:3]))
        os.makedirs(os.path.join(BUILD, 'bin'), exist_ok=True)

        def link(job):
            exe, objs, flags = job
            key = hashlib.sha256('\n'.join(fhash(o) for o in objs).encode()).hexdigest()
            stamp = exe + '.stamp'
            if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == key:
                return None
            cmd = [CXX] + [f for f in flags if f.startswith('-fsanitize') or f.startswith('-fno-sanitize')] + \
                ['-fuse-ld=lld', '-o', exe + '.tmp'] + objs + LINK_LIBS
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                return (exe, r.stdout)
            os.replace(exe + '.tmp', exe)
            with open(stamp, 'w') as f:
                f.write(key)
            return None
        with concurrent.futures.ThreadPoolExecutor(4) as ex:
            errs = [e for e in ex.map(link, links) if e]
        if errs:
            raise BuildError('\n'.join('%s:\n%s' % e for e in errs[:3]))
        return out


if __name__ == '__main__':
    t0 = time.time()
    ts = sys.argv[1:] or [os.path.basename(p)[:-4] for p in glob.glob(os.path.join(VERIF, 'harness', 'h_*.cpp'))]
    try:
        r = build(ts)
    except BuildError as e:
        print('BUILD FAILED\n' + str(e))
        sys.exit(2)
    print('built %d targets in %.1f s' % (len(r), time.time() - t0))
