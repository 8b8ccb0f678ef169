"""Builds the real `pyinterp.core` extension from /repo's working tree.

Every translation unit of the library and of the Python module is compiled;
an object is reused only when the compile command and the *contents* of every
file it was made from (its own source and all of /repo's headers it includes)
are unchanged.  The Python part of the package is copied verbatim next to it.
"""
import concurrent.futures
import fcntl
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('PYINTERP_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
CACHE = os.path.join(BUILD, 'cache')
SRC = os.path.join(REPO, 'src', 'pyinterp')

sys.path.insert(0, HERE)
import overlay  # noqa: E402

COMMON = [
    '-DHAVE_IEC559', '-Dcore_EXPORTS', '-std=c++17', '-fPIC',
    '-fvisibility=hidden', '-fvisibility-inlines-hidden', '-w'
]
FLAVOURS = {
    # production-like build watched by behavioural monitors; NDEBUG as in the
    # release build, standard-library precondition checks on
    'mon': ['-O1', '-DNDEBUG', '-D_GLIBCXX_ASSERTIONS'],
    # memory errors and undefined behaviour
    'asan': [
        '-O1', '-g1', '-DNDEBUG', '-D_GLIBCXX_ASSERTIONS',
        '-fno-omit-frame-pointer', '-fsanitize=address,undefined',
        '-fsanitize=float-cast-overflow', '-fno-sanitize=vptr,alignment',
        '-fno-sanitize-recover=all'
    ],
    # data races
    'tsan': ['-O1', '-g1', '-DNDEBUG', '-fno-omit-frame-pointer', '-fsanitize=thread'],
}
LINK = {
    'mon': [],
    'asan': ['-fsanitize=address,undefined'],
    'tsan': ['-fsanitize=thread'],
}


class BuildError(Exception):
    pass


_hashes = {}


def file_hash(path):
    if path not in _hashes:
        try:
            with open(path, 'rb') as f:
                _hashes[path] = hashlib.sha256(f.read()).hexdigest()
        except OSError:
            _hashes[path] = 'missing'
    return _hashes[path]


def sources():
    core = os.path.join(SRC, 'core')
    out = []
    for sub in ('lib', 'module'):
        out += glob.glob(os.path.join(core, sub, '**', '*.cpp'),
                         recursive=True)
    return sorted(out)


def _sig(parts):
    return hashlib.sha256('\0'.join(parts).encode()).hexdigest()


def _compile(flavour, src, ov):
    core = os.path.join(SRC, 'core')
    rel = os.path.relpath(src, core)
    cmd = [
        'g++', *COMMON, *FLAVOURS[flavour], f'-I{ov}',
        '-I/usr/include/eigen3', f'-I{core}/include', '-isystem',
        '/usr/include/python3.12'
    ]
    base = _sig([flavour, rel, ' '.join(cmd), file_hash(src)])[:40]
    mpath = os.path.join(CACHE, f'{base}.json')
    entries = []
    try:
        with open(mpath) as f:
            entries = json.load(f)
    except (OSError, ValueError):
        pass
    for e in entries:
        obj = os.path.join(CACHE, e['obj'])
        if os.path.exists(obj) and all(
                file_hash(p) == h for p, h in e['deps'].items()):
            return obj, False
    tmp = os.path.join(CACHE, f'{base}.{os.getpid()}.tmp')
    p = subprocess.run(cmd + ['-MMD', '-MF', tmp + '.d', '-c', src, '-o', tmp],
                       capture_output=True,
                       text=True)
    if p.returncode != 0:
        raise BuildError(f'{rel}: {p.stderr[-3000:]}')
    with open(tmp + '.d') as f:
        words = f.read().replace('\\\n', ' ').split()
    deps = sorted({
        os.path.abspath(w)
        for w in words[1:] if os.path.abspath(w).startswith(REPO + '/')
    })
    deps = {p: file_hash(p) for p in deps}
    name = _sig([base] + [f'{k}={v}' for k, v in deps.items()])[:40] + '.o'
    os.replace(tmp, os.path.join(CACHE, name))
    os.unlink(tmp + '.d')
    entries = [e for e in entries if e['obj'] != name][-5:]
    entries.append({'obj': name, 'deps': deps})
    with open(mpath + f'.{os.getpid()}', 'w') as f:
        json.dump(entries, f)
    os.replace(mpath + f'.{os.getpid()}', mpath)
    return os.path.join(CACHE, name), True


# What a Python-visible part of the extension needs besides its own unit.
NEEDS = {
    'geodetic': ['lib:geodetic'],
    'geohash': ['lib:geohash', 'lib:geodetic', 'geodetic'],
    'rtree': ['lib:geodetic', 'geodetic'],
    'binning': ['lib:geodetic', 'geodetic', 'axis'],
    'histogram2d': ['axis'],
    'grid': ['axis'],
    'bivariate': ['grid', 'bivariate_interpolator'],
    'trivariate': ['grid', 'bivariate_interpolator'],
    'quadrivariate': ['grid', 'bivariate_interpolator'],
    'bicubic': ['grid'],
    'interpolate1d': ['axis'],
    'fill': ['grid'],
    'period': ['dateutils'],
    'axis': ['dateutils'],
}

STUB = """#include <pybind11/pybind11.h>
#include <pybind11/eval.h>
namespace py = pybind11;
static void stub(py::module &m) {
  if (py::hasattr(m, "__getattr__")) return;
  py::exec(R"PY(
class _Meta(type):
    def __getattr__(cls, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return _Meta(name, (), {})
def __getattr__(name):
    import sys
    if name.startswith('__') or 'pyinterp.core' not in sys.modules:
        raise AttributeError(name)
    return _Meta(name, (), {})
)PY", m.attr("__dict__"));
}
"""


def select(parts, srcs):
    """The translation units that define the wanted parts, and a source that
    stubs the registration functions of the others; None when the layout of
    the module is not the expected one (then everything is built)."""
    want, todo, libs = set(), list(parts), set()
    while todo:
        part = todo.pop()
        if part.startswith('lib:'):
            libs.add(part[4:])
        elif part not in want:
            want.add(part)
            todo += NEEDS.get(part, [])
    main = [s for s in srcs if s.endswith('/module/main.cpp')]
    if len(main) != 1:
        return None
    with open(main[0]) as f:
        text = f.read()
    decl = re.findall(r'^extern void (init_\w+)\(([^;]*)\);', text, re.M)
    if not decl:
        return None
    where = {}
    for s in srcs:
        if '/module/' in s and s != main[0]:
            with open(s) as f:
                for name in re.findall(r'\bvoid\s+(init_\w+)\s*\(', f.read()):
                    where.setdefault(name, set()).add(s)
    units, stub = set(main), []
    for s in srcs:
        if '/lib/' in s and any(f'/lib/{x}/' in s for x in libs):
            units.add(s)
    names = {
        'geohash': ('init_geohash_class', 'init_geohash_int64',
                    'init_geohash_string')
    }
    wanted = {'init_enum'}
    for w in want:
        wanted.update(names.get(w, ('init_' + w, )))
    for name, args in decl:
        if name in where and len(where[name]) != 1:
            return None
        if name in wanted:
            if name not in where:
                return None
            units |= where[name]
    for name, args in decl:
        if name in where and not where[name] & units or name not in where:
            n = args.count(',') + 1
            if args.replace(' ', '') != ','.join(['py::module&'] * n):
                return None
            stub.append(f'void {name}(' +
                        ', '.join(f'py::module &m{i}' for i in range(n)) +
                        ') { ' + ' '.join(f'stub(m{i});'
                                          for i in range(n)) + ' }\n')
    if not wanted <= {n for n, _ in decl}:
        return None
    return sorted(units), STUB + ''.join(stub)


def natives(flavour, names, verbose=True):
    """The modules of native/ that show C++ interfaces of the library to the
    checks: the directories to put on PYTHONPATH.  One that does not compile
    (its interface has changed) is left out, and so are the cases that use
    it."""
    os.makedirs(CACHE, exist_ok=True)
    ov = overlay.make(os.path.join(BUILD, 'overlay'))
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        out = list(ex.map(lambda name: _native(flavour, name, ov), names))
    for old in sorted(glob.glob(os.path.join(BUILD, 'native', '*')),
                      key=os.path.getmtime)[:-60]:
        shutil.rmtree(old, ignore_errors=True)
    return [dst for dst in out if dst]


def _native(flavour, name, ov):
    try:
        obj, _ = _compile(flavour, os.path.join(VERIF, 'native',
                                                name + '.cpp'), ov)
    except BuildError as e:
        print(f'native/{name}.cpp does not compile: {str(e)[:300]}',
              file=sys.stderr)
        return None
    dst = os.path.join(BUILD, 'native',
                       f'{flavour}-' + os.path.basename(obj)[:24])
    lib = os.path.join(dst, f'vtn_{name}.so')
    if not os.path.exists(lib):
        os.makedirs(dst, exist_ok=True)
        tmp = lib + f'.{os.getpid()}'
        p = subprocess.run([
            'g++', '-shared', *LINK[flavour], '-o', tmp, obj, '-lpthread'
        ],
                           capture_output=True,
                           text=True)
        if p.returncode == 0:
            os.replace(tmp, lib)
            if flavour == 'mon':
                p = subprocess.run(['python3-vt', '-c', f'import vtn_{name}'],
                                   capture_output=True,
                                   text=True,
                                   env=dict(os.environ, PYTHONPATH=dst))
        if p.returncode != 0:
            print(f'native/{name}.cpp cannot be used: {p.stderr[-300:]}',
                  file=sys.stderr)
            if os.path.exists(lib):
                os.remove(lib)
            return None
    os.utime(dst)
    return dst


def build(flavour, parts=None, verbose=True, native=()):
    """Returns what to put on PYTHONPATH.  With `parts`, only these parts of
    the extension are compiled (the others are absent from it)."""
    os.makedirs(CACHE, exist_ok=True)
    overlay.make(os.path.join(BUILD, 'overlay'))
    with concurrent.futures.ThreadPoolExecutor(1) as ex:
        extra = ex.submit(natives, flavour, native)
        dst = package(flavour, parts, verbose)
        return ':'.join([dst] + extra.result())


def package(flavour, parts, verbose):
    if parts:
        try:
            dst = _build(flavour, parts, verbose)
            if dst and importable(flavour, dst):
                return dst
        except BuildError as e:
            print(f'partial build failed ({str(e)[-300:]}), building all',
                  file=sys.stderr)
    return _build(flavour, None, verbose)


def preload(flavour):
    lib = {'asan': 'libasan.so', 'tsan': 'libtsan.so'}.get(flavour)
    if not lib:
        return None
    return ':'.join(
        subprocess.run(['gcc', f'-print-file-name={x}'],
                       capture_output=True,
                       text=True).stdout.strip()
        for x in (lib, 'libstdc++.so'))


def environment(flavour, dst):
    env = {
        k: v
        for k, v in os.environ.items()
        if not k.endswith('SAN_OPTIONS') and k != 'LD_PRELOAD'
    }
    env['PYTHONPATH'] = f'{dst}:{HERE}/stubs:{HERE}:{VERIF}/checks'
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    for k in ('OPENBLAS_NUM_THREADS', 'OMP_NUM_THREADS', 'MKL_NUM_THREADS'):
        env[k] = '1'
    pre = preload(flavour)
    if pre:
        env['LD_PRELOAD'] = pre
    if flavour == 'asan':
        env['PYTHONMALLOC'] = 'malloc'
        env['ASAN_OPTIONS'] = ('detect_leaks=0:abort_on_error=1:'
                               'allocator_may_return_null=1:'
                               'detect_odr_violation=0')
        env['UBSAN_OPTIONS'] = 'print_stacktrace=1:abort_on_error=1'
    if flavour == 'tsan':
        env['TSAN_OPTIONS'] = 'halt_on_error=0:exitcode=0:report_bugs=1'
    return env


def importable(flavour, dst):
    ok = os.path.join(dst, '.imports')
    if not os.path.exists(ok):
        p = subprocess.run(['python3-vt', '-c', 'import pyinterp'],
                           env=environment(flavour, dst),
                           capture_output=True,
                           text=True)
        if p.returncode:
            print(f'partial build does not import: {p.stderr[-500:]}',
                  file=sys.stderr)
            return False
        open(ok, 'w').close()
    return True


def _build(flavour, parts, verbose):
    os.makedirs(CACHE, exist_ok=True)
    t0 = time.time()
    with open(os.path.join(BUILD, f'.lock-{flavour}'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        ov = overlay.make(os.path.join(BUILD, 'overlay'))
        srcs = sources()
        if not srcs:
            raise BuildError('no sources found')
        if parts:
            chosen = select(parts, srcs)
            if chosen is None:
                return None
            srcs, stub = chosen
            name = os.path.join(BUILD, 'stub',
                                _sig([stub])[:16] + '.cpp')
            os.makedirs(os.path.dirname(name), exist_ok=True)
            if not os.path.exists(name):
                with open(name + f'.{os.getpid()}', 'w') as f:
                    f.write(stub)
                os.replace(name + f'.{os.getpid()}', name)
            srcs = srcs + [name]
        # longest first
        order = {
            'geodetic.cpp': 0,
            'rtree.cpp': 1,
            'polygon.cpp': 2,
            'multipolygon.cpp': 3,
            'grid.cpp': 4,
            'line_string.cpp': 5,
            'binning.cpp': 6,
            'fill.cpp': 7,
            'bicubic.cpp': 8,
        }
        todo = sorted(srcs,
                      key=lambda s: (order.get(os.path.basename(s), 99), s))
        objs, rebuilt = {}, 0
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            futs = {ex.submit(_compile, flavour, s, ov): s for s in todo}
            for fut in concurrent.futures.as_completed(futs):
                obj, new = fut.result()
                objs[futs[fut]] = obj
                rebuilt += new
        objs = [objs[s] for s in srcs]
        pyfiles = sorted(
            p for p in glob.glob(os.path.join(SRC, '**', '*.py'),
                                 recursive=True)
            if '/tests/' not in p and '/core/' not in p)
        key = _sig([flavour] + objs +
                   [os.path.relpath(p, SRC) + file_hash(p)
                    for p in pyfiles])[:24]
        dst = os.path.join(BUILD, 'pkg', f'{flavour}-{key}')
        if os.path.exists(dst):
            os.utime(dst)
        if not os.path.exists(os.path.join(dst, '.ok')):
            for old in sorted(glob.glob(
                    os.path.join(BUILD, 'pkg', f'{flavour}-*')),
                              key=os.path.getmtime)[:-40]:
                shutil.rmtree(old, ignore_errors=True)
            shutil.rmtree(dst, ignore_errors=True)
            pkg = os.path.join(dst, 'pyinterp')
            os.makedirs(pkg)
            for p in pyfiles:
                to = os.path.join(pkg, os.path.relpath(p, SRC))
                os.makedirs(os.path.dirname(to), exist_ok=True)
                shutil.copyfile(p, to)
            vpath = os.path.join(pkg, 'version.py')
            with open(vpath, 'w') as f:
                f.write('def release():\n    return "0"\n\n\n'
                        'def date():\n    return "0"\n')
            p = subprocess.run([
                'g++', '-shared', *LINK[flavour], '-o',
                os.path.join(pkg, 'core.so'), *objs, '-lpthread'
            ],
                               capture_output=True,
                               text=True)
            if p.returncode != 0:
                raise BuildError(f'link: {p.stderr[-3000:]}')
            open(os.path.join(dst, '.ok'), 'w').close()
        if verbose:
            print(f'build[{flavour}]: {rebuilt}/{len(srcs)} objects compiled, '
                  f'{time.time() - t0:.1f} s',
                  file=sys.stderr,
                  flush=True)
    return dst


def prune(keep_gb=6):
    files = sorted((p for p in glob.glob(os.path.join(CACHE, '*.o'))),
                   key=os.path.getmtime)
    total = sum(os.path.getsize(p) for p in files)
    for p in files:
        if total < keep_gb * 1e9:
            break
        total -= os.path.getsize(p)
        os.unlink(p)


if __name__ == '__main__':
    for fl in sys.argv[1:] or list(FLAVOURS):
        print(build(fl))
    prune()
