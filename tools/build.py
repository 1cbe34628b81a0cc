"""Builds harnesses from /repo's working tree and /verif's sources.

Objects are cached in /verif/build by the hash of their command line, their
source and every header they may include, so that a stale object is never used.
"""
import hashlib
import os
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
CXX = 'clang++'

BACKENDS = {
    'nlohmann': ('CPPDAP_JSON_NLOHMANN', 'nlohmann_json_serializer.cpp', [], []),
    'rapid': ('CPPDAP_JSON_RAPID', 'rapid_json_serializer.cpp', [], []),
    'jsoncpp': ('CPPDAP_JSON_JSONCPP', 'jsoncpp_json_serializer.cpp',
                ['-I/usr/include/jsoncpp'], ['-ljsoncpp']),
}

SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all',
       '-fno-omit-frame-pointer',
       '-fsanitize-ignorelist=' + os.path.join(VERIF, 'engine', 'ubsan.ignore')]
KINDS = {
    # flags for the library, flags for the harness, link flags
    'asan': (SAN, SAN, SAN),
    'plain': ([], [], []),
    # gcc, unoptimized: marks the virtual tables of destructed objects.
    'gcc': (['-fsanitize=address,undefined', '-fno-sanitize-recover=all'],
            ['-fsanitize=address,undefined', '-fno-sanitize-recover=all'],
            ['-fsanitize=address,undefined']),
    'fuzz': (SAN + ['-fsanitize=fuzzer-no-link'],
             SAN + ['-fsanitize=fuzzer-no-link'], SAN + ['-fsanitize=fuzzer']),
    # -fsanitize=thread instrumentation, with the runtime of engine/vsched.cpp.
    'vs': (['-fsanitize=thread', '-mllvm', '-tsan-instrument-func-entry-exit=0'],
           ['-fsanitize=thread', '-mllvm', '-tsan-instrument-func-entry-exit=0'],
           ['-rdynamic']),
}


class BuildError(Exception):
    pass


def _read(path):
    with open(path, 'rb') as f:
        return f.read()


def _headers(dirs):
    h = hashlib.sha256()
    for d in dirs:
        for root, subdirs, files in os.walk(d):
            subdirs.sort()
            for f in sorted(files):
                if f.endswith(('.h', '.hpp', '.inc', '.def')):
                    p = os.path.join(root, f)
                    h.update(p.encode() + b'\0' + _read(p) + b'\0')
    return h.digest()


class Builder:
    def __init__(self):
        os.makedirs(os.path.join(BUILD, 'obj'), exist_ok=True)
        os.makedirs(os.path.join(BUILD, 'bin'), exist_ok=True)
        self.repo_headers = _headers([REPO + '/include', REPO + '/src'])
        self.own_headers = _headers([VERIF + '/engine', VERIF + '/harness'])
        self.jobs = {}

    def obj(self, src, flags, own, cxx=CXX):
        cmd = [cxx] + flags + ['-c', src]
        h = hashlib.sha256()
        h.update('\0'.join(cmd).encode())
        h.update(_read(src))
        h.update(self.repo_headers)
        if own:
            h.update(self.own_headers)
        out = os.path.join(BUILD, 'obj', os.path.basename(src) + '.' +
                           h.hexdigest()[:24] + '.o')
        self.jobs[out] = cmd
        return out

    def run(self, jobs=8):
        todo = [(o, c) for o, c in self.jobs.items() if not os.path.exists(o)]
        self.jobs = {}

        def one(job):
            out, cmd = job
            tmp = '%s.%d.tmp' % (out, os.getpid())
            r = subprocess.run(cmd + ['-o', tmp], stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT)
            if r.returncode != 0:
                return ' '.join(cmd) + '\n' + r.stdout.decode(errors='replace')
            os.rename(tmp, out)
            return None

        with ThreadPoolExecutor(jobs) as ex:
            errs = [e for e in ex.map(one, todo) if e]
        if errs:
            raise BuildError('\n'.join(errs))

    def lib_sources(self, backend):
        """The library's sources for a JSON back end ('multi' for all three,
        without the session)."""
        out = []
        for f in sorted(os.listdir(REPO + '/src')):
            if not f.endswith('.cpp') or f.endswith('_test.cpp'):
                continue
            if f.endswith('_json_serializer.cpp') and f != 'null_json_serializer.cpp':
                owner = [b for b in BACKENDS if BACKENDS[b][1] == f]
                if owner and backend != 'multi' and owner != [backend]:
                    continue
            out.append(os.path.join(REPO, 'src', f))
        return out

    def harness(self, name, sources, kind='asan', backend='nlohmann',
                extra=(), libs=(), opt='-O1', uninstrumented=(),
                exclude_lib=(), lib_extra=()):
        """Registers the jobs for a harness, returning a function that links
        it."""
        lflags, hflags, ldflags = KINDS[kind]
        cxx = 'g++' if kind == 'gcc' else CXX
        inc = ['-I' + REPO + '/include', '-I' + REPO + '/src']
        common = ['-g1', '-pthread', '-Wno-everything']
        objs = []
        link = []
        multi = backend == 'multi'
        backends = list(BACKENDS) if multi else [backend]
        binc = []
        for b in backends:
            binc += BACKENDS[b][2]
            link += BACKENDS[b][3]
        # Harness first: of the inline functions the first definition is used.
        for s in sources:
            defs = [] if multi else ['-D%s=1' % BACKENDS[backend][0]]
            objs.append(self.obj(os.path.join(VERIF, 'harness', s),
                                 ['-std=c++17', opt] + common + hflags + inc +
                                 ['-I' + VERIF + '/engine', '-I' + VERIF + '/harness'] +
                                 binc + defs + list(extra), True, cxx))
        late = []
        for s in self.lib_sources(backend):
            base = os.path.basename(s)
            if base in exclude_lib:
                continue
            own = [b for b in BACKENDS if BACKENDS[b][1] == base]
            if multi:
                defs = ['-D%s=1' % BACKENDS[own[0] if own else 'nlohmann'][0]]
            else:
                defs = ['-D%s=1' % BACKENDS[backend][0]]
            flags = lflags
            is_late = False
            if kind == 'vs' and (own or base.startswith('protocol_')):
                flags = []  # not instrumented
                is_late = True
            o = self.obj(s, ['-std=c++11', opt] + common + list(flags) + inc +
                         binc + defs + list(lib_extra), False, cxx)
            (late if is_late else objs).append(o)
        objs += late
        eng = ['pbt.cpp']
        eng += ['vsched.cpp'] if kind == 'vs' else ['alloc.cpp']
        if kind == 'fuzz':
            eng = ['fuzzmain.cpp', 'alloc.cpp']
        for s in eng + list(uninstrumented):
            d = VERIF + ('/engine/' if s in eng else '/harness/')
            objs.append(self.obj(d + s, ['-std=c++17', '-O2'] + common + inc +
                                 ['-I' + VERIF + '/engine', '-I' + VERIF + '/harness'], True, cxx))

        def do_link():
            h = hashlib.sha256()
            cmd = [cxx] + ldflags + ['-pthread'] + objs + link + list(libs) + ['-ldl']
            h.update('\0'.join(cmd).encode())
            out = os.path.join(BUILD, 'bin', name + '.' + h.hexdigest()[:24])
            if not os.path.exists(out):
                tmp = '%s.%d.tmp' % (out, os.getpid())
                r = subprocess.run(cmd + ['-o', tmp], stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT)
                if r.returncode != 0:
                    raise BuildError('link %s\n' % name +
                                     r.stdout.decode(errors='replace')[-6000:])
                os.rename(tmp, out)
            return out
        return do_link
