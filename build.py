"""Builds the checks' programs from /repo's working tree (and /verif's harnesses) into /verif/build.

An object is reused only if the command that made it and the contents (not the times) of every
non-system file that it was made from are unchanged.

build.py [TARGET...]      build the named programs, or all of them
"""

import concurrent.futures
import hashlib
import json
import os
import re
import subprocess
import sys
import threading

from targets import TARGETS

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(HERE, 'build'))
JOBS = int(os.environ.get('VERIF_JOBS', '8'))

PKGS = 'openssl libxml++-2.6 xmlsec1-openssl sndfile libopenjp2 xerces-c fmt libavcodec libavutil'.split()

DEFINES = ['-D_FILE_OFFSET_BITS=64', '-D__STDC_FORMAT_MACROS', '-DLIBDCP_VERSION="devel"', '-DLIBDCP_LINUX',
           '-DLIBDCP_MPEG2_TRANSCODE', '-DLIBDCP_HAVE_NO_CHECK_TIME=1', '-DLIBDCP_HAVE_WEAKLY_CANONICAL=1',
           '-DLIBDCP_HAVE_COPY_OPTIONS=1', '-DLIBDCP_HAVE_REPLACE_EXTENSION=1', '-DLIBDCP_HAVE_HARU=1']

VARIANTS = {
    'asan': ['-O1', '-g1', '-fno-omit-frame-pointer', '-fsanitize=address,undefined', '-fno-sanitize=vptr',
             '-fno-sanitize-recover=all'],
    'tsan': ['-O1', '-g1', '-fsanitize=thread'],
    'plain': ['-O1', '-g0'],
}

# Library sources which need the stand-ins for libcxml / asdcplib only for what their headers declare
CORE_EXTRA = ['exceptions', 'locale_convert']


class BuildError(Exception):
    pass


_pkg = {}


def pkg(what):
    if what not in _pkg:
        out = subprocess.run(['pkg-config', '--' + what] + PKGS, stdout=subprocess.PIPE, text=True, check=True).stdout.split()
        _pkg[what] = [o for o in out if '\\' not in o and '"' not in o]
    return _pkg[what]


_digests = {}
_lock = threading.Lock()


def digest(path):
    with _lock:
        if path in _digests:
            return _digests[path]
    try:
        with open(path, 'rb') as f:
            d = hashlib.sha256(f.read()).hexdigest()
    except OSError:
        d = None
    with _lock:
        _digests[path] = d
    return d


INCLUDE = re.compile(r'^\s*#\s*include\s*(["<])([^">]+)', re.M)
_needs = {}


def needs_missing(path, stack=()):
    """True if path, or a project header it includes, includes one of the libraries which are not here"""
    if path in _needs:
        return _needs[path]
    result = False
    with open(path, encoding='utf-8', errors='replace') as f:
        text = f.read()
    for _, name in INCLUDE.findall(text):
        if name.startswith(('libcxml/', 'asdcp/')):
            result = True
            break
        for d in (os.path.dirname(path), REPO + '/src'):
            p = os.path.normpath(os.path.join(d, name))
            if os.path.isfile(p):
                if p not in stack and needs_missing(p, stack + (path,)):
                    result = True
                break
        if result:
            break
    _needs[path] = result
    return result


def listed():
    with open(REPO + '/src/wscript') as f:
        text = re.sub(r'^\s*#.*$', '', f.read(), flags=re.M)
    names = sorted(set(re.findall(r'\b(\w+)\.cc\b', text)) - {'version'})
    return [n for n in names if os.path.exists(f'{REPO}/src/{n}.cc')]


def library(kind):
    names = listed()
    if kind == 'core':
        return [f'{REPO}/src/{n}.cc' for n in names if n in CORE_EXTRA or not needs_missing(f'{REPO}/src/{n}.cc')]
    if kind == 'full':
        return [f'{REPO}/src/{n}.cc' for n in names] + [HERE + '/shim/version.cc', HERE + '/shim/cxml.cc', HERE + '/shim/asdcp.cc']
    if kind == 'none':
        return []
    if isinstance(kind, list):
        return [f'{REPO}/src/{n}.cc' for n in kind if n in names] + [f'{HERE}/{s}' for s in kind if s.startswith('shim/')]
    raise BuildError('unknown library ' + kind)


def compile_cmd(source, variant):
    inside = source.startswith(REPO + '/')
    cmd = ['g++', '-std=c++11' if inside else '-std=c++17', '-w', '-fPIC', '-pthread'] + VARIANTS[variant] + DEFINES
    cmd += ['-I' + REPO + '/src', '-I' + HERE + '/shim', '-I' + HERE + '/pbt', '-I' + HERE + '/props', '-I' + REPO]
    return cmd + pkg('cflags')


def object_path(source, variant):
    if source.startswith(REPO + '/'):
        rel = 'repo/' + os.path.relpath(source, REPO)
    else:
        rel = 'verif/' + os.path.relpath(source, HERE)
    return os.path.join(BUILD, variant, rel + '.o')


def up_to_date(obj, cmd):
    try:
        with open(obj + '.json') as f:
            info = json.load(f)
    except (OSError, ValueError):
        return False
    if info['cmd'] != cmd or not os.path.exists(obj):
        return False
    return all(digest(p) == d for p, d in info['deps'].items())


def compile_one(source, variant):
    obj = object_path(source, variant)
    cmd = compile_cmd(source, variant) + ['-c', source]
    if up_to_date(obj, cmd):
        return obj, False
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    tmp = obj + '.tmp'
    dep = obj + '.d'
    p = subprocess.run(cmd + ['-MMD', '-MF', dep, '-o', tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    if p.returncode:
        raise BuildError(f'could not compile {source} ({variant}):\n{p.stdout[:6000]}')
    with open(dep) as f:
        text = f.read().replace('\\\n', ' ')
    deps = text.split(':', 1)[1].split()
    os.replace(tmp, obj)
    os.unlink(dep)
    with open(obj + '.json', 'w') as f:
        json.dump({'cmd': cmd, 'deps': {os.path.normpath(d): digest(os.path.normpath(d)) for d in deps}}, f)
    return obj, True


class LinkError(BuildError):
    pass


LIBS = ['-lboost_filesystem', '-lboost_system', '-lboost_date_time', '-lboost_thread', '-lhpdf', '-ldl']


def link(out, variant, objs, extra):
    cmd = ['g++', '-pthread'] + VARIANTS[variant] + ['-o', out + '.tmp'] + objs + extra + LIBS + pkg('libs')
    key = {'cmd': cmd, 'objs': [digest(o) for o in objs]}
    try:
        with open(out + '.json') as f:
            if json.load(f) == key and os.path.exists(out):
                return out
    except (OSError, ValueError):
        pass
    os.makedirs(os.path.dirname(out), exist_ok=True)
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    if p.returncode:
        raise LinkError(f'could not link {out}:\n{p.stdout[:6000]}')
    os.replace(out + '.tmp', out)
    with open(out + '.json', 'w') as f:
        json.dump(key, f)
    return out


def build(names, whole=()):
    """Build some targets and return {name: path of program}.  A target's lib is 'core' (linked into the program),
    'full' (a shared library of everything, with the stand-ins), 'none', or a list of the only library sources that it needs.
    whole is the targets for which such a list turned out not to be enough.
    """
    objects = {}
    shared = set()
    work = {}
    for n in names:
        t = TARGETS[n]
        variant = t.get('variant', 'asan')
        lib = 'full' if n in whole else t['lib']
        objects[n] = [(s, variant) for s in [HERE + '/' + s for s in t['src']] + [HERE + '/pbt/pbt.cc']]
        if lib == 'full':
            shared.add(variant)
        else:
            objects[n] += [(s, variant) for s in library(lib)]
        for s in objects[n]:
            work[s] = None
    for v in shared:
        for s in library('full'):
            work[(s, v)] = None
    # Big ones first
    order = sorted(work, key=lambda s: -os.path.getsize(s[0]))
    with concurrent.futures.ThreadPoolExecutor(JOBS) as pool:
        futures = {s: pool.submit(compile_one, *s) for s in order}
        errors = []
        for s, f in futures.items():
            try:
                work[s] = f.result()
            except BuildError as e:
                errors.append(str(e))
        if errors:
            raise BuildError('\n'.join(errors[:3]))

        for s in work:
            with _lock:
                _digests.pop(work[s][0], None)

        for v in shared:
            link(os.path.join(BUILD, v, 'bin', 'libfull.so'), v, [work[(s, v)][0] for s in library('full')], ['-shared'])

        def program(n):
            t = TARGETS[n]
            variant = t.get('variant', 'asan')
            bin = os.path.join(BUILD, variant, 'bin')
            extra = t.get('link', [])
            if t['lib'] == 'full' or n in whole:
                extra = extra + [os.path.join(bin, 'libfull.so'), '-Wl,-rpath,$ORIGIN']
            return link(os.path.join(bin, n), variant, [work[s][0] for s in objects[n]], extra)

        futures = {n: pool.submit(program, n) for n in names}
        programs = {}
        again = []
        for n, f in futures.items():
            try:
                programs[n] = f.result()
            except LinkError:
                if n in whole or not isinstance(TARGETS[n]['lib'], list):
                    raise
                again.append(n)
    if again:
        programs.update(build(again, again))
    return programs


if __name__ == '__main__':
    try:
        for n, p in build(sys.argv[1:] or list(TARGETS)).items():
            print(n, p)
    except BuildError as e:
        print(e, file=sys.stderr)
        sys.exit(2)
