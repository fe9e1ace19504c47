#!/usr/bin/env python3
"""Writes /verif/corpus: one package of type declarations per supported field shape.

Development tool; no check runs it. A declaration is kept if the unchanged generator accepts it and its output
compiles (probed with the driver given as argument)."""
import os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VGEN = sys.argv[1]
WORK = '/tmp/x/mkc'
OUT = '/verif/corpus'

AUX = {
 'NStr': 'type NStr string', 'NInt': 'type NInt int', 'NI32': 'type NI32 int32', 'NU8': 'type NU8 uint8',
 'NF32': 'type NF32 float32', 'NBool': 'type NBool bool', 'NPtrI32': 'type NPtrI32 *int32', 'NPtrStr': 'type NPtrStr *string',
 'NI8': 'type NI8 int8', 'NU64': 'type NU64 uint64', 'NF64': 'type NF64 float64',
 'NBytes': 'type NBytes []byte', 'TBytes': '//json:json\ntype TBytes []byte', 'TArr8': '//json:json\ntype TArr8 [8]byte',
 'NSliceI': 'type NSliceI []int', 'TSliceI': '//json:json\ntype TSliceI []int', 'TSliceS': '//json:json\ntype TSliceS []Sub',
 'TMapI': '//json:json\ntype TMapI map[string]int', 'NMapI': 'type NMapI map[string]int', 'TMapS': '//json:json\ntype TMapS map[string]Sub',
 'TI32': '//json:json\ntype TI32 int32', 'TStr': '//json:json\ntype TStr string', 'TTime': '//json:json\ntype TTime time.Time',
 'TUUID': '//json:json\ntype TUUID uuid.UUID',
 'Sub': '//json:strict\ntype Sub struct {\n\tX int `json:"x"`\n\tY string `json:"y,omitempty"`\n}',
 'TSub2': '//json:json\ntype TSub2 Sub',
 'Cust': '//json:custom\ntype Cust struct {\n\tQ int `json:"q"`\n}',
}
DEPS = {'TSliceS': ['Sub'], 'TMapS': ['Sub'], 'TSub2': ['Sub']}

def idents(s): return re.findall(r'[A-Za-z_][A-Za-z0-9_]*', s)

def source(pkg, decls):
    text = '\n\n'.join(decls)
    need, todo = [], [i for i in idents(text) if i in AUX]
    while todo:
        i = todo.pop(0)
        if i in need: continue
        need.append(i)
        todo += DEPS.get(i, [])
    aux = [AUX[i] for i in AUX if i in need]
    body = '\n\n'.join(decls + aux)
    imps = []
    if 'time.' in body: imps.append('"time"')
    if 'uuid.' in body: imps.append('"github.com/google/uuid"')
    head = f'package {pkg}\n\n'
    if imps: head += 'import (\n' + ''.join(f'\t{i}\n' for i in imps) + ')\n\n'
    return head + body + '\n'

prims = 'bool string int int8 int16 int32 int64 uint uint8 uint16 uint32 uint64 float32 float64'.split()
el = [p for p in prims if p not in ()]
named = ['NStr', 'NInt', 'NI32', 'NU8', 'NI8', 'NU64', 'NF32', 'NF64', 'NBool']
shapes = []
def add(*xs):
    for x in xs:
        if x not in shapes: shapes.append(x)
add(*prims); add(*['*' + p for p in prims])
add('time.Time', '*time.Time', 'uuid.UUID', '*uuid.UUID')
add(*named); add(*['*' + n for n in named])
add('NPtrI32', 'NPtrStr', '*NPtrI32', '*NPtrStr', 'NBytes', 'TBytes', 'TArr8', 'NMapI', 'NSliceI', 'TI32', 'TMapI', 'TMapS', 'TSliceI', 'TSliceS', 'TStr', 'TTime', 'TUUID', 'Sub', 'TSub2', '*Sub', '*TI32', '*TStr', '*TSub2', '*TSliceI', '*TTime', '*TUUID', '[]byte', '[4]byte')
elems = prims + named + ['Sub', 'TSub2', 'TI32', 'TStr', 'TSliceI', 'TBytes', 'TMapI', 'TMapS', 'time.Time', 'uuid.UUID', 'TTime', 'TUUID', 'NPtrI32']
for c in ['[]', '[]*', '[3]', '[3]*', '[][]', 'map[string]', 'map[string]*', 'map[NStr]', 'map[NStr]*', '[]map[string]', 'map[string][]', '[][3]', '[3][]', '[][]*', '[][][]']:
    for e in elems:
        if c in ('map[NStr]*', '[]map[string]', 'map[string][]', '[][3]', '[3][]', '[][]*', '[][][]', '[3]*') and e not in ('int', 'int8', 'string', 'Sub', 'NStr', 'time.Time', 'bool', 'float32'): continue
        add(c + e)

CTX = [
 ('T1', lambda x: f'//json:json\ntype T1 struct {{\n\tA0 int `json:"a0,omitempty"`\n\tF {x} `json:"f"`\n\tZ string `json:"z"`\n}}'),
 ('T2', lambda x: f'//json:json\ntype T2 struct {{\n\tF {x} `json:"f,omitempty"`\n\tG {x} `json:"g"`\n\tH {x} `json:"h,omitempty"`\n}}'),
 ('T3', lambda x: f'//json:strict\ntype T3 struct {{\n\tF {x} `json:"f,required"`\n\tB bool `json:"b"`\n}}'),
]
NAMED = [
 ('L', lambda x: f'//json:json\ntype D {x}'),
]
def default_for(x):
    b = x.lstrip('*')
    m = {'NStr': 'string', 'NInt': 'int', 'NI32': 'int32', 'NU8': 'uint8', 'NI8': 'int8', 'NU64': 'uint64', 'NF32': 'float32', 'NF64': 'float64', 'NBool': 'bool', 'NPtrI32': 'int32', 'NPtrStr': 'string', 'TI32': 'int32', 'TStr': 'string'}
    b = m.get(b, b)
    if b == 'string': return 'some text'
    if b == 'bool': return 'true'
    if b.startswith('int'): return '-17'
    if b.startswith('uint'): return '42'
    if b.startswith('float'): return '2.5'
    return None

cands = []   # (group, name, decl)
for x in shapes:
    for n, f in CTX: cands.append((x, n, f(x)))
    d = default_for(x)
    if d is not None:
        cands.append((x, 'T4', f'//json:json\ntype T4 struct {{\n\tA0 {x} `json:"a0"`\n\tF {x} `json:"f,omitempty" default:"{d}"`\n\tG {x} `json:"g" default:"{d}"`\n}}'))
    if 'time.Time' in x and x.lstrip('*') == 'time.Time':
        for i, l in enumerate(['2006-01-02', 'time.RFC1123', 'time.RFC3339', '15:04 "q"', 'time.Kitchen']):
            cands.append((x, f'T{5+i}', f'//json:json\ntype T{5+i} struct {{\n\tF {x} `json:"f" layout:"{l}"`\n\tG {x} `json:"g,omitempty" layout:"{l}"`\n\tH {x} `json:"h"`\n}}'.replace('"15:04 "q""', '"15:04 \\"q\\""')))
tn = []
for x in shapes:
    if x.startswith('*') or x in AUX and x not in ('Sub', 'TSub2', 'TI32', 'TSliceI', 'TMapI', 'NStr', 'NI32', 'TTime', 'TStr', 'TBytes', 'NBool', 'NU64'): continue
    cands.append((x, 'D', f'//json:json\ntype D {x}'))

only = sys.argv[2:]
shutil.rmtree(WORK, ignore_errors=True); os.makedirs(WORK)
shutil.copy('/repo/test/tests/fill/go.mod', WORK); shutil.copy('/repo/test/tests/fill/go.sum', WORK)

def probe(cs):
    """cs: list of (dir, {file: text}); returns set of dirs that generate and compile"""
    def one(c):
        d, files = c
        p = f'{WORK}/{d}'
        for fn, text in files.items():
            os.makedirs(os.path.dirname(f'{p}/{fn}'), exist_ok=True)
            open(f'{p}/{fn}', 'w').write(text)
        open(f'{p}/go.mod', 'w').write(f'module fill/{d}\n\ngo 1.18\n')
        ok = True
        for fn in files:
            r = subprocess.run([VGEN, f'{p}/{fn}', f'{p}/{fn}.out.go'], capture_output=True, text=True)
            ok = ok and r.returncode == 0
        os.remove(f'{p}/go.mod')
        if not ok: shutil.rmtree(p)
        return ok
    with ThreadPoolExecutor(8) as ex: oks = list(ex.map(one, cs))
    r = subprocess.run(['bash', '-c', '. /opt/vp/env.sh; go vet -composites=false ./... 2>&1; go build -gcflags=-e ./... 2>&1'], cwd=WORK, capture_output=True, text=True)
    bad = set(m.group(1) for m in re.finditer(r'^# fill/([a-z0-9_]+)', r.stdout, re.M))
    b2 = set()
    r = subprocess.run(['bash', '-c', '. /opt/vp/env.sh; go build -gcflags=-e ./... 2>&1'], cwd=WORK, capture_output=True, text=True)
    for m in re.finditer(r'^# fill/([a-z0-9_]+)', r.stdout, re.M): b2.add(m.group(1))
    return {d for (d, _), ok in zip(cs, oks) if ok and d.split('/')[0] not in b2}

cs = [(f'c{i}', {'t.go': source(f'c{i}', [decl])}) for i, (x, n, decl) in enumerate(cands)]
good = probe(cs)
keep = {}
for i, (x, n, decl) in enumerate(cands):
    if f'c{i}' in good: keep.setdefault(x, []).append((n, decl))
bad = {}
for i, (x, n, decl) in enumerate(cands):
    if f'c{i}' not in good: bad.setdefault(x, []).append(n)
def slug(x):
    s = x.replace('map[string]', 'map_').replace('map[NStr]', 'nmap_').replace('[]', 's_').replace('[3]', 'a3_').replace('[4]', 'a4_').replace('*', 'p_').replace('time.Time', 'time').replace('uuid.UUID', 'uuid')
    return s
if os.path.isdir(OUT):
    for d in os.listdir(OUT):
        if d.startswith('f_') or d.startswith('d_'): shutil.rmtree(f'{OUT}/{d}')
n = 0
for x, ds in keep.items():
    flds = [d for nme, d in ds if nme != 'D']
    tops = [d for nme, d in ds if nme == 'D']
    for pre, decls in (('f_', flds), ('d_', tops)):
        if not decls: continue
        p = pre + slug(x).lower() if slug(x).islower() else pre + slug(x)
        p = pre + re.sub(r'[A-Z]', lambda m: m.group(0).lower(), slug(x))
        os.makedirs(f'{OUT}/{p}', exist_ok=True)
        open(f'{OUT}/{p}/t.go', 'w').write(source(p, decls)); n += 1
subprocess.run(['gofmt', '-w', OUT])
print(n, 'packages;', sum(len(d) for d in keep.values()), 'declarations')
for x, ns in bad.items(): print('rejected', x, ' '.join(ns))
