"""C29: the protocol generator emits code that matches any schema.

Generated schemas (in the dialect of the DAP schema) are served to the real
generator; the C++ it emits is compiled together with a check program made from
the schema by a model of the mapping, and run. Failures are shrunk.
"""
import copy
import json
import os
import queue
import random
import re
import shutil
import subprocess
import time
from concurrent.futures import ThreadPoolExecutor

import build

VERIF = build.VERIF
OUT_FILES = ['include/dap/protocol.h', 'src/protocol_requests.cpp',
             'src/protocol_response.cpp', 'src/protocol_events.cpp',
             'src/protocol_types.cpp', 'fuzz/fuzz.h', 'fuzz/dictionary.txt',
             'CMakeLists.txt']
CMAKE = ('cmake_minimum_required(VERSION 3.13)\n# %s\n\n'
         'project(cppdap VERSION 1.0.0 LANGUAGES CXX C)\n\nset (CMAKE_CXX_STANDARD 11)\n')
PRIMS = ['string', 'integer', 'number', 'boolean', 'object']
BASES = ('Request', 'Response', 'Event')

# --------------------------------------------------------------------------
# Schemas
# --------------------------------------------------------------------------
WORDS = ('Alpha Bravo Break Cache Data Entry Frame Group Handle Index Join Key Line '
         'Module Node Offset Point Query Range Scope Thread Unit Value Watch Xray '
         'Yield Zone').split()
PWORDS = ('id name line column source path kind reason text count state flags hint '
          'body arguments command event seq success message threads frames value '
          'result data origin adapter level').split()
ENUMS = ('first second all none source-only pause.step some value data_breakpoint '
         'x X 1 two2 keep').split()


def describe(r):
    if r.random() < 0.3:
        return None
    parts = []
    for _ in range(r.randint(1, r.choice([3, 12, 40]))):
        parts.append(r.choice([
            'the', 'value', 'of', 'a', 'client', '`request`', 'is', '"quoted"', "it's",
            'caf\u00e9', '//', '/*', '*/', '{', '};', '#define', 'C:\\dir\\file', '\\n',
            '%s', '(since 1.2)', '\n', '\n\n', '\t', 'https://x.y/z?a=b&c', '<T>']))
    s = ' '.join(parts)
    k = r.random()
    if k < 0.06:
        s += r.choice(['\\', ' \\', '\\ ', '\\\nmore'])
    elif k < 0.10:
        s += r.choice(['\r\nmore', '\rmore', '\r'])
    return s


def enum_values(r):
    return r.sample(ENUMS, r.randint(1, 4))


class Gen:
    def __init__(self, r):
        self.r = r
        self.defs = {}
        self.structs = []   # names that may be referenced, lower rank first
        self.plain = []     # of these, the ones that are not derived
        self.enums = []
        self.used = set(BASES) | {'ProtocolMessage'}

    def name(self, suffix=''):
        while True:
            n = ''.join(self.r.choice(WORDS) for _ in range(self.r.randint(1, 2)))
            if self.r.random() < 0.2:
                n += str(self.r.randint(0, 99))
            if self.r.random() < 0.1:
                n = self.r.choice(['Request', 'Response', 'Event']) + n
            n += suffix
            stem = n[:-len(suffix)] if suffix else n
            if n not in self.used and stem + 'Response' not in self.used and not (
                    not suffix and re.search('(Request|Response|Event)$', n)):
                self.used.add(n)
                return n

    def with_desc(self, d):
        s = describe(self.r)
        if s is not None:
            d['description'] = s
        return d

    def prop(self, depth=0, self_name=None):
        r = self.r
        k = r.random()
        if k < 0.30:
            d = {'type': r.choice(PRIMS)}
            if d['type'] == 'object' and r.random() < 0.4:
                d['properties'] = {'inner': {'type': 'string'}, 'other': {'type': 'integer'}}
                d['required'] = ['inner']
        elif k < 0.42:
            d = {'type': 'string', 'enum': enum_values(r)}
        elif k < 0.50:
            d = {'type': 'string', '_enum': enum_values(r)}
        elif k < 0.66 and self.structs:
            d = {'$ref': '#/definitions/' + r.choice(self.structs)}
        elif k < 0.72 and self.enums:
            d = {'$ref': '#/definitions/' + r.choice(self.enums)}
        elif k < 0.86 and depth < 2:
            d = {'type': 'array'}
            if r.random() < 0.9:
                if self_name and r.random() < 0.25:
                    d['items'] = {'$ref': '#/definitions/' + self_name}
                else:
                    d['items'] = self.prop(depth + 1)
        elif k < 0.95 and depth < 2:
            alts = r.sample(PRIMS + ['null', 'array'], r.randint(1, 5))
            d = {'type': alts}
            if 'array' in alts and r.random() < 0.4:
                d['items'] = {'type': r.choice(PRIMS)}
        elif depth < 2:
            d = {'oneOf': [self.prop(2) for _ in range(r.randint(1, 3))]}
        else:
            d = {'type': r.choice(PRIMS)}
        if depth == 0 or r.random() < 0.2:
            self.with_desc(d)
        return d

    def obj(self, self_name=None, taken=(), least=0):
        r = self.r
        d = {'type': 'object'}
        self.with_desc(d)
        props = {}
        taken = set(taken)
        for _ in range(max(least, r.choice([0, 1, 1, 2, 3, 4, 6]))):
            k = r.random()
            if k < 0.06:
                n = 'default'
            elif k < 0.12:
                n = '__' + r.choice(PWORDS)
            elif k < 0.15:
                n = r.choice(PWORDS) + '_'
            else:
                n = r.choice(PWORDS)
                if r.random() < 0.4:
                    n += r.choice(WORDS)
                if r.random() < 0.1:
                    n += '_' + r.choice(PWORDS)
            if cname(n) in taken:
                continue
            taken.add(cname(n))
            props[n] = self.prop(0, self_name)
        if props or r.random() < 0.5:
            d['properties'] = props
        req = [n for n in props if r.random() < 0.45]
        r.shuffle(req)
        if req or r.random() < 0.1:
            d['required'] = req
        return d

    def all_names(self, n):
        d = self.defs[n]
        if 'allOf' in d:
            b = d['allOf'][0]['$ref'].split('/')[-1]
            return self.all_names(b) | set(map(cname, d['allOf'][1].get('properties', {})))
        return set(map(cname, d.get('properties', {})))

    def body(self):
        """An inline object or a reference to a plain one."""
        r = self.r
        if self.plain and r.random() < 0.3:
            return {'$ref': '#/definitions/' + r.choice(self.plain)}
        if r.random() < 0.3:
            n = self.name('Arguments')
            self.defs[n] = self.obj()
            return {'$ref': '#/definitions/' + n}
        return self.obj()

    def message(self, base, key=None, value=None, body_key=None):
        r = self.r
        d = {'type': 'object'}
        self.with_desc(d)
        props = {}
        req = []
        if key:
            props[key] = {'type': 'string', 'enum': [value]}
            req.append(key)
        if r.random() < 0.75:
            props[body_key] = self.body()
            if r.random() < 0.7:
                req.append(body_key)
        if props:
            d['properties'] = props
        if req:
            d['required'] = req
        return {'allOf': [{'$ref': '#/definitions/' + base}, d]}

    def run(self):
        r = self.r
        for _ in range(r.randint(0, 3)):
            n = self.name(r.choice(['', '', 'Kind']))
            d = {'type': 'string'}
            k = r.random()
            if k < 0.6:
                d['enum'] = enum_values(r)
            elif k < 0.9:
                d['_enum'] = enum_values(r)
            self.with_desc(d)
            self.defs[n] = d
            self.enums.append(n)
        for _ in range(r.randint(0, 6)):
            n = self.name(r.choice(['', '', 'Info', 'Arguments']))
            if self.structs and r.random() < 0.3:
                b = r.choice(self.structs)
                self.defs[n] = {'allOf': [{'$ref': '#/definitions/' + b},
                                          self.obj(n, self.all_names(b))]}
            else:
                # (the library cannot tell an absent empty struct from a present one)
                self.defs[n] = self.obj(n, (), 1)
                self.plain.append(n)
            self.structs.append(n)
        for _ in range(r.randint(1, 4)):
            n = self.name('Request')
            stem = n[:-7]
            self.used.add(stem + 'Response')
            cmd = stem[0].lower() + stem[1:]
            if r.random() < 0.1:
                cmd = 'custom-' + cmd
            self.defs[n] = self.message('Request', 'command', cmd, 'arguments')
            self.defs[stem + 'Response'] = self.message('Response', None, None, 'body')
        if r.random() < 0.5:
            self.defs[self.name('Response')] = self.message('Response', None, None, 'body')
        for _ in range(r.randint(0, 3)):
            n = self.name('Event')
            self.defs[n] = self.message('Event', 'event', n[0].lower() + n[1:-5], 'body')
        pm = {'type': 'object', 'title': 'Base Protocol',
              'properties': {'seq': {'type': 'integer'},
                             'type': {'type': 'string', '_enum': ['request', 'response', 'event']}},
              'required': ['seq', 'type']}
        self.defs['ProtocolMessage'] = pm
        for b in BASES:
            self.defs[b] = {'allOf': [
                {'$ref': '#/definitions/ProtocolMessage'},
                {'type': 'object', 'properties': {
                    'type': {'type': 'string', 'enum': [b.lower()]}}, 'required': ['type']}]}
        return self.defs


def gen_case(seed):
    r = random.Random(seed)
    defs = Gen(r).run()
    return {'seed': seed, 'version': '%d.%d.%d' % (r.randint(0, 3), r.randint(0, 99), r.randint(0, 9)),
            'format': r.random() < 0.25, 'twice': r.random() < 0.5,
            'definitions': defs}


# --------------------------------------------------------------------------
# The model of the mapping
# --------------------------------------------------------------------------
def cname(wire):
    s = wire.strip('_')
    return 'def' if s == 'default' else s


class Model:
    def __init__(self, defs):
        self.defs = defs
        self.emitted = []
        self.structs = {}
        self.aliases = set()
        for n in sorted(defs):
            if n in BASES or n == 'ProtocolMessage':
                continue
            if self.kind(n) in BASES:
                self.reach(n)

    def kind(self, n):
        d = self.defs[n]
        if 'allOf' in d:
            b = ref(d['allOf'][0])
            return b if b in BASES else 'Derived'
        return 'Alias' if d.get('type') == 'string' else 'Type'

    def own_body(self, n):
        d = self.defs[n]
        k = self.kind(n)
        if k in BASES:
            b = d['allOf'][1].get('properties', {}).get(
                'arguments' if k == 'Request' else 'body')
            if b is not None and '$ref' in b:
                b = self.defs[ref(b)]
            return b or {}
        return d['allOf'][1] if k == 'Derived' else d

    def base(self, n):
        return ref(self.defs[n]['allOf'][0]) if 'allOf' in self.defs[n] else None

    def reach(self, n):
        if n in self.structs or n in self.aliases:
            return
        if self.kind(n) == 'Alias':
            self.aliases.add(n)
            return
        body = self.own_body(n)
        req = set(body.get('required', []))
        self.structs[n] = [(p, d, p in req) for p, d in sorted(body.get('properties', {}).items())]
        b = self.base(n)
        if b and b not in BASES:
            self.reach(b)
        for _, d, _ in self.structs[n]:
            self.reach_type(d)
        if self.kind(n) == 'Request':
            self.reach(n[:-7] + 'Response')

    def reach_type(self, d):
        if '$ref' in d:
            self.reach(ref(d))
        elif 'oneOf' not in d and d.get('type') == 'array' and 'items' in d:
            self.reach_type(d['items'])

    def fields(self, n):
        b = self.base(n)
        return (self.fields(b) if b and b not in BASES else []) + self.structs[n]

    def cpp(self, d):
        if '$ref' in d:
            return ref(d)
        if 'oneOf' in d:
            return 'object'
        t = d['type']
        if isinstance(t, list):
            return 'variant<%s>' % ', '.join(self.cpp(dict(d, type=x)) for x in t)
        if t == 'array':
            return 'array<%s>' % (self.cpp(d['items']) if 'items' in d else 'any')
        return t

    def default(self, d):
        """The value of a required property that was not assigned."""
        if '$ref' in d:
            n = ref(d)
            if self.kind(n) == 'Alias':
                return (self.defs[n].get('enum') or [''])[0]
            return self.default_struct(n)
        if 'oneOf' in d:
            return {}
        t = d['type']
        if isinstance(t, list):
            return self.default({'type': t[0]})
        if t == 'string':
            return (d.get('enum') or [''])[0]
        return {'integer': 0, 'number': 0, 'boolean': False, 'object': {}, 'array': [],
                'null': None}[t]

    def default_struct(self, n):
        return {p: self.default(d) for p, d, req in self.fields(n) if req}

    def value(self, r, d, depth):
        if '$ref' in d:
            n = ref(d)
            if self.kind(n) == 'Alias':
                return r.choice(ENUMS)
            return self.value_struct(r, n, depth - 1)
        if 'oneOf' in d:
            return {'k': r.randint(0, 9)}
        t = d['type']
        if isinstance(t, list):
            alts = [x for x in t if x != 'null']
            return self.value(r, dict(d, type=r.choice(alts)), depth) if alts else None
        if t == 'array':
            if depth <= 0:
                return []
            items = d.get('items')
            return [self.value(r, items or {'type': r.choice(PRIMS)}, depth - 1)
                    for _ in range(r.randint(0, 2))]
        return {'string': lambda: 's%d' % r.randint(0, 999),
                'integer': lambda: r.randint(1, 1 << 40),
                'number': lambda: r.randint(1, 999) + 0.5,
                'boolean': lambda: True,
                'object': lambda: {'m': r.randint(0, 99), 'n': 'x'}}[t]()

    def value_struct(self, r, n, depth, optional=None):
        out = {}
        for p, d, req in self.fields(n):
            if req or (depth > 0 if optional is None else optional):
                out[p] = self.value(r, d, depth)
        return out

    def names(self):
        out = set()
        for n, fs in self.structs.items():
            v = self.wire_name(n)
            if v:
                out.add(v)
            for p, d, _ in fs:
                out.add(p)
                out.update(d.get('enum', []) + d.get('_enum', []))
        for n in self.aliases:
            out.update(self.defs[n].get('enum', []) + self.defs[n].get('_enum', []))
        return out

    def wire_name(self, n):
        k = self.kind(n)
        if k in ('Request', 'Event'):
            return self.defs[n]['allOf'][1]['properties'][
                'command' if k == 'Request' else 'event']['enum'][0]
        return ''


def ref(d):
    return d['$ref'].split('/')[-1]


def raw(v):
    return 'R"~~(%s)~~"' % json.dumps(v)


def program(case):
    m = Model(case['definitions'])
    r = random.Random(case['seed'] * 7 + 1)
    o = ['#include "support.h"', '#include "dap/protocol.h"',
         '#include "protocol_requests.cpp"', '#include "protocol_response.cpp"',
         '#include "protocol_events.cpp"', '#include "protocol_types.cpp"',
         '#include <set>', '#include <typeinfo>',
         'static std::set<std::string> listed;',
         'template <typename REQ, typename RES> void one() {',
         '  static_assert(std::is_same<typename REQ::Response, RES>::value, "fuzz.h: response of a request");',
         '  if (!listed.insert(typeid(REQ).name()).second) bad("fuzz.h: a request is listed twice");', '}',
         '#define DAP_REQUEST(REQ, RES) one<REQ, RES>();', '#include "../fuzz/fuzz.h"',
         'namespace dap {']
    for n in sorted(m.aliases):
        o.append('static_assert(std::is_same<%s, string>::value, "%s is a string");' % (n, n))
    calls = []
    for n in sorted(m.structs):
        k = m.kind(n)
        b = m.base(n)
        if b:
            o.append('static_assert(std::is_base_of<%s, %s>::value, "base of %s");' % (b, n, n))
        if k == 'Request':
            o.append('static_assert(std::is_same<%s::Response, %sResponse>::value, "response of %s");'
                     % (n, n[:-7], n))
        for p, d, req in m.fields(n):
            t = m.cpp(d)
            if not req:
                t = 'optional<%s>' % t
            o.append('static_assert(std::is_same<decltype(%s::%s), %s>::value, "type of %s.%s");'
                     % (n, cname(p), t, n, p))
        o.append('static void check_%s() {' % n)
        o.append('  auto t = TypeOf<%s>::type();' % n)
        if k in ('Request', 'Event'):
            o.append('  if (t->name() != "%s") bad("%s is named " + t->name());' % (m.wire_name(n), n))
        o.append('  { %s s; auto e = enc(t, &s); if (!same(e, %s)) bad("default %s is " + e); }'
                 % (n, raw(m.default_struct(n)), n))
        for opt in (None, True, False):
            v = m.value_struct(r, n, 3, opt)
            o.append('  { %s s; if (!dec(t, &s, %s)) bad("%s not decoded"); auto e = enc(t, &s);'
                     % (n, raw(v), n))
            o.append('    if (!same(e, %s)) bad("%s decoded as " + e);' % (raw(v), n))
            for p, d, _ in m.fields(n):
                if p in v:
                    f = cname(p)
                    o.append('    { auto g = enc(TypeOf<decltype(s.%s)>::type(), &s.%s); if (!same(g, %s)) '
                             'bad("%s.%s holds " + g); }' % (f, f, raw(v[p]), n, p))
            o.append('  }')
        o.append('}')
        calls.append('  dap::check_%s();' % n)
    o.append('}')
    o.append('int main() {')
    o += calls
    o.append('  DAP_REQUEST_LIST()')
    reqs = [n for n in m.structs if m.kind(n) == 'Request']
    for n in reqs:
        o.append('  if (!listed.count(typeid(dap::%s).name())) bad("fuzz.h does not list %s");' % (n, n))
    o.append('  if (listed.size() != %d) bad("fuzz.h lists too many requests");' % len(reqs))
    o.append('  return done();\n}\n')
    return '\n'.join(o), m


# --------------------------------------------------------------------------
# Running one case
# --------------------------------------------------------------------------
def shuffled(r, v):
    if isinstance(v, dict):
        items = list(v.items())
        r.shuffle(items)
        return {k: shuffled(r, x) for k, x in items}
    if isinstance(v, list):
        return [shuffled(r, x) for x in v]
    return v


class Workers:
    def __init__(self, count, root):
        self.root = root
        shutil.rmtree(root, ignore_errors=True)
        os.makedirs(root)
        self.free = queue.Queue()
        env = dict(os.environ, GOCACHE=os.path.join(build.BUILD, 'gocache'), GO111MODULE='off',
                   GOPROXY='off', GOTOOLCHAIN='local', GOFLAGS='', CGO_ENABLED='0')
        gen_dir = build.REPO + '/tools/protocol_gen'
        srcs = [f for f in sorted(os.listdir(gen_dir))
                if f.endswith('.go') and not f.endswith('_test.go')]

        def make(k):
            d = os.path.join(root, 'w%d' % k)
            g = d + '/tools/protocol_gen'
            for s in (g, d + '/include/dap', d + '/src', d + '/fuzz'):
                os.makedirs(s)
            for f in srcs:
                shutil.copy(os.path.join(gen_dir, f), g)
            shutil.copy(VERIF + '/harness/c29/zz_verif_serve.go', g)
            if os.path.exists(build.REPO + '/.clang-format'):
                shutil.copy(build.REPO + '/.clang-format', d)
            for f in os.listdir(build.REPO + '/include/dap'):
                if f != 'protocol.h':
                    shutil.copy(build.REPO + '/include/dap/' + f, d + '/include/dap')
            shutil.copy(VERIF + '/harness/c29/support.h', d)
            r = subprocess.run(['go', 'build', '-o', d + '/gen'] + srcs + ['zz_verif_serve.go'],
                               cwd=g, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                raise build.BuildError('the generator does not compile:\n' + r.stdout.decode())
            self.free.put(d)
        make(0)
        with ThreadPoolExecutor(count) as ex:
            list(ex.map(make, range(1, count)))
        # The library, as the emitted code uses it.
        b = build.Builder()
        self.objs = []
        inc = ['-I' + build.REPO + '/include', '-I' + build.REPO + '/src']
        for s in b.lib_sources('nlohmann'):
            if not os.path.basename(s).startswith('protocol_'):
                self.objs.append(b.obj(s, ['-std=c++11', '-O0', '-Wno-everything',
                                           '-DCPPDAP_JSON_NLOHMANN=1'] + inc, False))
        self.objs.append(b.obj(VERIF + '/harness/c29/support.cpp',
                               ['-std=c++11', '-O0', '-Wno-everything', '-DCPPDAP_JSON_NLOHMANN=1',
                                '-I' + VERIF + '/harness/c29'] + inc, True))
        b.run()
        self.lib = os.path.join(root, 'lib.a')
        subprocess.run(['ar', 'rcs', self.lib] + self.objs, check=True)

    def generate(self, d, case, shuffle):
        defs = case['definitions']
        if shuffle:
            # The order of keys means nothing; the order of lists may.
            defs = shuffled(random.Random(case['seed'] + shuffle), defs)
        with open(d + '/schema.json', 'w') as f:
            json.dump({'$schema': 'http://json-schema.org/draft-04/schema#', 'title': 'T',
                       'description': 'D', 'type': 'object', 'definitions': defs}, f)
        with open(d + '/package.json', 'w') as f:
            json.dump({'name': 'x', 'version': case['version']}, f)
        with open(d + '/CMakeLists.txt', 'w') as f:
            f.write(CMAKE % case['version'])
        env = {'VERIF_SCHEMA': d + '/schema.json', 'VERIF_PACKAGE': d + '/package.json',
               'HOME': d, 'PATH': os.environ['PATH'] if case['format'] else '/nonexistent'}
        try:
            r = subprocess.run([d + '/gen'], cwd=d, env=env, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=60)
        except subprocess.TimeoutExpired:
            return None, 'it does not end within 60 s'
        if r.returncode:
            return None, r.stdout.decode(errors='replace')[-1500:]
        return {f: open(os.path.join(d, f), 'rb').read() for f in OUT_FILES}, ''

    def run(self, case):
        """None, or (class of failure, text)."""
        d = self.free.get()
        try:
            return self.run_in(d, case)
        finally:
            self.free.put(d)

    def run_in(self, d, case):
        files, err = self.generate(d, case, 0)
        if files is None:
            return 'generate', 'the generator fails: ' + err
        if case['twice']:
            again, err = self.generate(d, case, 1)
            if again != files:
                diff = [f for f in OUT_FILES if not again or again[f] != files[f]]
                return 'twice', 'the same schema, with its keys in another order, gives other files: %s %s' % (
                    diff, err)
        cm = files['CMakeLists.txt'].decode()
        want = (CMAKE % case['version']).replace('1.0.0', case['version'], 1)
        if cm.split() != want.split():
            return 'cmake', 'CMakeLists.txt is now\n' + cm
        for f in OUT_FILES[:5]:
            if case['version'].encode() not in files[f]:
                return 'version', f + ' does not name the version'
        text, m = program(case)
        names = set()
        for line in files['fuzz/dictionary.txt'].decode().split('\n'):
            if not line:
                continue
            if not re.match(r'^"[^"\\]+"$', line):
                return 'dictionary', 'fuzz/dictionary.txt has the line ' + line
            names.add(line[1:-1])
        missing = m.names() - names
        if missing:
            return 'dictionary', 'fuzz/dictionary.txt lacks %s' % sorted(missing)
        with open(d + '/src/check.cpp', 'w') as f:
            f.write(text)
        r = subprocess.run([build.CXX, '-std=c++11', '-O0', '-g0', '-Wno-everything', '-ferror-limit=3',
                            '-I' + d + '/include', '-I' + d + '/src', '-I' + d, d + '/src/check.cpp',
                            self.lib, '-pthread', '-o', d + '/check'],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
        if r.returncode:
            return 'compile', 'the emitted code does not compile, or does not declare what the schema says:\n' + \
                r.stdout.decode(errors='replace')[:3000]
        try:
            r = subprocess.run([d + '/check'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=120)
        except subprocess.TimeoutExpired:
            return 'run', 'the emitted code does not end'
        out = r.stdout.decode(errors='replace')
        if r.returncode != 0 or out != 'ok\n':
            return 'run', 'the emitted code does not do what the schema says:\n' + out[:3000]
        return None


# --------------------------------------------------------------------------
# Shrinking
# --------------------------------------------------------------------------
def referenced(v, n):
    if isinstance(v, dict):
        return v.get('$ref') == '#/definitions/' + n or any(referenced(x, n) for x in v.values())
    if isinstance(v, list):
        return any(referenced(x, n) for x in v)
    return False


def candidates(case):
    defs = case['definitions']
    fixed = set(BASES) | {'ProtocolMessage'}
    for n in sorted(defs):
        if n in fixed or any(referenced(d, n) for k, d in defs.items() if k != n):
            continue
        if n.endswith('Response') and n[:-8] + 'Request' in defs:
            continue
        c = copy.deepcopy(case)
        del c['definitions'][n]
        yield c
    for key in ('twice', 'format'):
        if case[key]:
            c = copy.deepcopy(case)
            c[key] = False
            yield c

    paths = []

    def walk(v, path):
        if isinstance(v, dict):
            if isinstance(v.get('properties'), dict):
                for p in v['properties']:
                    if p not in ('command', 'event') or 'enum' not in v['properties'][p]:
                        paths.append(('del', path + ['properties', p]))
                        if v['properties'][p] != {'type': 'integer'} and p not in ('body', 'arguments'):
                            paths.append(('int', path + ['properties', p]))
            if 'description' in v:
                paths.append(('del', path + ['description']))
            for k in v:
                walk(v[k], path + [k])
        elif isinstance(v, list):
            for k, x in enumerate(v):
                walk(x, path + [k])
    for n in sorted(defs):
        if n not in fixed:
            walk(defs[n], [n])
    for what, path in paths:
        c = copy.deepcopy(case)
        v = c['definitions']
        parent = None
        for k in path[:-1]:
            parent = v
            v = v[k]
        if what == 'del':
            del v[path[-1]]
            if len(path) == 3 and path[1] == 'properties' and not v:
                continue
            if isinstance(parent, dict) and path[-2] == 'properties' and 'required' in parent:
                parent['required'] = [x for x in parent['required'] if x != path[-1]]
        else:
            v[path[-1]] = {'type': 'integer'}
        yield c


def size(case):
    return len(json.dumps(case))


def shrink(workers, case, cls, deadline, ex):
    runs = 0
    while time.time() < deadline:
        cs = list(candidates(case))
        found = None
        for i in range(0, len(cs), 8):
            if time.time() > deadline:
                break
            batch = cs[i:i + 8]
            runs += len(batch)
            for c, res in zip(batch, ex.map(workers.run, batch)):
                if res and res[0] == cls:
                    found = c
                    break
            if found:
                break
        if not found:
            break
        case = found
    return case, runs


# --------------------------------------------------------------------------
def main(args, tier, seed, ev_dir, replay_dir):
    t0 = time.time()
    jobs = 8
    root = os.path.join(build.BUILD, 'c29.%d' % os.getpid())
    try:
        return run(args, tier, seed, ev_dir, replay_dir, t0, jobs, root)
    except build.BuildError as e:
        print(e)
        print('BUILD FAILED: the tree or the harness does not compile')
        return 2
    finally:
        shutil.rmtree(root, ignore_errors=True)


def run(args, tier, seed, ev_dir, replay_dir, t0, jobs, root):
    workers = Workers(jobs, root)
    build_s = time.time() - t0
    if args.build_only:
        return 0
    if args.replay:
        case = json.load(open(args.replay))['case']
        res = workers.run(case)
        print(res[1] if res else 'no failure')
        return 1 if res else 0
    planned, cap = (160, 60) if tier == 'quick' else (6000, 600)
    planned = max(1, int(planned * args.scale))
    end = time.time() + cap
    labels = {}
    samples = []
    done = nontrivial = 0
    distinct = set()
    failure = None
    with ThreadPoolExecutor(jobs) as ex:
        def one(k):
            if failure or time.time() > end:
                return None
            case = gen_case(seed * 1000003 + k)
            return case, workers.run(case)
        for res in ex.map(one, range(planned)):
            if res is None:
                continue
            case, bad = res
            done += 1
            m = Model(case['definitions'])
            feats = features(case, m)
            for f in feats:
                labels[f] = labels.get(f, 0) + 1
            if len(m.structs) >= 3 and sum(len(m.fields(n)) for n in m.structs) >= 4:
                nontrivial += 1
                distinct.add(json.dumps(case['definitions'], sort_keys=True))
                if len(samples) < 3:
                    samples.append('; '.join('%s{%s}' % (n, ', '.join(
                        '%s%s %s' % ('' if q else '?', m.cpp(d), p) for p, d, q in m.fields(n)))
                        for n in sorted(m.structs))[:700])
            if bad and not failure:
                failure = (case, bad)
        runs = 0
        replay = None
        if failure:
            case, bad = failure
            case, runs = shrink(workers, case, bad[0], time.time() + 120, ex)
            bad = workers.run(case) or bad
            replay = os.path.join(replay_dir, 'C29-%d.json' % case['seed'])
            with open(replay, 'w') as f:
                json.dump({'case': case, 'failure': bad[1]}, f, indent=1)
            print(bad[1])
            print(json.dumps({k: v for k, v in case['definitions'].items()
                              if k not in BASES and k != 'ProtocolMessage'}, indent=1)[:3000])
    ev = {
        'property': 'C29', 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': done, 'distinct_nontrivial': len(distinct),
            'rule': 'schemas whose model has at least three structs and four fields, counted by '
                    'distinct definitions',
            'samples': samples,
            'per_harness': [{'harness': 'c29', 'evaluations': done, 'planned': planned,
                             'nontrivial': nontrivial, 'distinct_nontrivial': len(distinct),
                             'labels': labels, 'time_capped': done < planned and not failure,
                             'shrink_runs': runs}],
        },
        'assumptions': [],
        'build_s': round(build_s, 1), 'wall_s': round(time.time() - t0, 2),
        'violations': 1 if failure else 0,
    }
    with open(os.path.join(ev_dir, 'C29.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('[C29] %d schemas, %d distinct non-trivial, %.1f s (build %.1f s)' % (
        done, len(distinct), time.time() - t0, build_s))
    if failure:
        print('VIOLATION property=C29 replay=%s' % replay)
        return 1
    return 0


def features(case, m):
    out = set()
    text = json.dumps(case['definitions'])
    for k, pat in (('union', '"type": ["'), ('oneOf', '"oneOf"'), ('closed enum', '"enum"'),
                   ('open enum', '"_enum"'), ('default', '"default"'), ('array', '"array"')):
        if pat in text:
            out.add(k)
    if case['twice']:
        out.add('generated twice')
    if case['format']:
        out.add('formatted')
    for n in m.structs:
        if m.kind(n) == 'Derived':
            out.add('derived type')
            if m.base(n) > n:
                out.add('base sorts after derived')
        if any(p.startswith('_') for p, _, _ in m.fields(n)):
            out.add('underscore')
        if any(ref(d.get('items', {'$ref': ''})) == n for _, d, _ in m.structs[n]
               if d.get('type') == 'array' and '$ref' in d.get('items', {})):
            out.add('recursive')
    return out
