#!/usr/bin/env python3
"""Writes harness/c08_table.inc: the DAP messages and types, as declared by the
reviewed version of include/dap/protocol.h. Run once; the table is committed and
is the specification that C08 compares the library with. The wire names follow
from the rules of the DAP specification (a message is named as its struct without
the suffix, a key as its member, with the listed exceptions), and the script stops
where the sources it is made from disagree with these rules."""
import os
import re
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = sys.argv[1] if len(sys.argv) > 1 else '/repo'
EXCEPTIONS = {('ExceptionBreakpointsFilter', 'def'): 'default',
              ('LaunchRequest', 'restart'): '__restart',
              ('AttachRequest', 'restart'): '__restart'}

CHUNKS = 8

src = open(REPO + '/include/dap/protocol.h').read()
src = re.sub(r'//[^\n]*', '', src)
alias = dict(re.findall(r'using (\w+) = (\w+);', src))
alias = {k: v for k, v in alias.items() if k != 'Response'}
structs = {}
order = []
for m in re.finditer(r'struct (\w+)(?:\s*:\s*public (\w+))?\s*\{(.*?)\n?\};', src, re.S):
    name, base, body = m.groups()
    if name in ('Request', 'Response', 'Event'):
        continue
    fields = []
    response = None
    for st in body.split(';'):
        st = ' '.join(st.split())
        if not st:
            continue
        r = re.match(r'using Response = (\w+)$', st)
        if r:
            response = r.group(1)
            continue
        st = st.split(' = ')[0]
        t, f = re.match(r'(.*) (\w+)$', st).groups()
        t = re.sub(r'\w+', lambda x: alias.get(x.group(0), x.group(0)), t).replace(' ', '')
        fields.append((f, t))
    structs[name] = dict(base=base, fields=fields, response=response)
    order.append(name)

wire = {}
for f in ('requests', 'response', 'events', 'types'):
    t = open(REPO + '/src/protocol_%s.cpp' % f).read()
    for m in re.finditer(r'DAP_IMPLEMENT_STRUCT_TYPEINFO(?:_EXT)?\((.*?)\);', t, re.S):
        a = m.group(1)
        n = re.match(r'\s*(\w+)', a).group(1)
        name = re.search(r'"([^"]*)"', a).group(1)
        wire[n] = (name, re.findall(r'DAP_FIELD\(\s*(\w+),\s*"([^"]*)"\)', a))

assert set(wire) == set(structs), set(wire) ^ set(structs)
out = []
for n in order:
    s = structs[n]
    kind = s['base'] if s['base'] in ('Request', 'Response', 'Event') else 'Type'
    fields = list(s['fields'])
    w = wire[n]
    want = [(f, EXCEPTIONS.get((n, f), f)) for f, _ in fields]
    assert sorted(want) == sorted(w[1]), (n, want, w[1])
    if s['base'] and kind == 'Type':
        fields = structs[s['base']]['fields'] + fields
    name = ''
    if kind in ('Request', 'Event'):
        name = n[:-len(kind)]
        name = name[0].lower() + name[1:]
        assert name == w[0], (name, w[0])
    f = ''.join('\n    F(%s, "%s", "%s")' % (x, EXCEPTIONS.get((n, x), x), t) for x, t in fields)
    if kind == 'Request':
        out.append('M_REQUEST(%s, %s, "%s",%s)' % (n, s['response'], name, f))
    else:
        out.append('M_%s(%s, "%s",%s)' % (kind.upper(), n, name, f))
with open(VERIF + '/harness/c08_table.inc', 'w') as f:
    f.write('// Made by tools/mkc08.py: the messages and types of the DAP specification.\n')
    step = (len(out) + CHUNKS - 1) // CHUNKS
    for k in range(CHUNKS):
        f.write('#if C08_CHUNK == %d || C08_CHUNK == -1\n' % k)
        f.write('\n'.join(out[k * step:(k + 1) * step]) + '\n#endif\n')
print(len(out), 'structs')
