#!/usr/bin/env python3
"""Writes the r_* groups of /verif/corpus: declarations mixed at random (fixed seeds) from the shapes of the f_* groups.

Development tool; no check runs it. A declaration is kept if the unchanged generator accepts it and its output compiles
(probed with the driver given as argument)."""
import os, re, random, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
VGEN, N = sys.argv[1], int(sys.argv[2])
WORK, OUT = '/tmp/x/mkr', '/verif/corpus'
src = open('/verif/tools/mkcorpus.py').read()
ns = {}
exec(re.search(r"AUX = \{.*?\n\}\nDEPS.*?\n", src, re.S).group(0), ns)
exec(re.search(r"def idents.*?\ndef source.*?return head.*?\n", src, re.S).group(0), {'re': re}, ns)
AUX, DEPS = ns['AUX'], ns['DEPS']
g = {'re': re, 'AUX': AUX, 'DEPS': DEPS}
exec(re.search(r"def idents.*?\ndef source.*?return head.*?\n", src, re.S).group(0), g)
source = g['source']
dg = {}
exec(re.search(r"def default_for.*?    return None\n", src, re.S).group(0), dg)
base_of = {'NStr': 'string', 'NInt': 'int', 'NI32': 'int32', 'NU8': 'uint8', 'NI8': 'int8', 'NU64': 'uint64', 'NF32': 'float32', 'NF64': 'float64', 'NBool': 'bool', 'NPtrI32': 'int32', 'NPtrStr': 'string', 'TI32': 'int32', 'TStr': 'string'}
shapes = []
for d in sorted(os.listdir(OUT)):
    if d.startswith('f_'):
        m = re.search(r'^\tF\s+(\S+)', open(f'{OUT}/{d}/t.go').read(), re.M)
        shapes.append(m.group(1))
shapes = sorted(set(shapes))
lens = ['1', '2', '3', '8', '16', '100']
def default_of(r, x):
    b = base_of.get(x.lstrip('*'), x.lstrip('*'))
    if b == 'string': return r.choice(['x', 'some text', "it's", 'a,b', 'ünï', '%d', '0', 'null', 'true', '{}', 'a/b', ' lead', 'a=b', 'say \\"hi\\" to \\"me\\"', '#'])
    if b == 'bool': return r.choice(['true', 'false'])
    bits = {'int': 64, 'int8': 8, 'int16': 16, 'int32': 32, 'int64': 64, 'uint': 64, 'uint8': 8, 'uint16': 16, 'uint32': 32, 'uint64': 64}.get(b)
    if bits and b[0] == 'i': return r.choice(['0', '1', '-1', '100', str(2**(bits-1)-1), str(-2**(bits-1))])
    if bits: return r.choice(['0', '1', '7', '200', str(2**bits-1)])
    if b.startswith('float'): return r.choice(['0', '1', '-1', '2.5', '1e10', '-1.25e-3', '0.1', '3.0'])
    return None
words = 'id name Title kind_of x Y2 createdAt data-set a.b user:id $v @t имя 名 list ITEMS value key err result type v s o w len map n_1 _p 0 12 really_quite_a_long_member_name_of_the_object'.split()
layouts = ['2006-01-02', 'time.RFC1123', 'time.RFC3339', 'time.RFC3339Nano', 'time.Kitchen', 'time.DateOnly', '15:04:05', '02.01.2006', 'Jan 2 2006', 'time.StampMicro', '2006/01', 'time.TimeOnly', 'time.ANSIC']
fnames = 'A B Cc ID Name URL X1 Y_z Items Übung Data Length Zz K2 Total QWERTY Val Obj Out Flag Rate Size Port Host Idx First Last Next Prev Kind Mode Note Tags Meta Path Code Unit'.split()
def field(r, fname, jname, top):
    x = r.choice(shapes)
    x = re.sub(r'^\[3\]', lambda m: f'[{r.choice(lens)}]', x)
    opt = r.choice(['', '', '', ',omitempty', ',omitempty', ',required'])
    extra = ''
    d = default_of(r, x)
    if opt != ',required' and d is not None and r.random() < .25: extra += f' default:"{d}"'
    if x.lstrip('*') == 'time.Time' and r.random() < .6: extra += f' layout:"{r.choice(layouts)}"'
    return f'\t{fname} {x} `json:"{jname}{opt}"{extra}`'
def struct(seed):
    r = random.Random(seed)
    n = r.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 20, 24])
    fs, js, used, usedj = [], [], [], []
    out = []
    for i in range(n):
        f = r.choice([x for x in fnames if x not in used]); used.append(f)
        j = r.choice(words + [f.lower()] * 15 + [f'f{i}'] * 15)
        while j in usedj: j = r.choice(words + [f'{f.lower()}{r.randrange(99)}'])
        usedj.append(j)
        out.append(field(r, f, j, i))
    ann = r.choice(['//json:json', '//json:strict', '//json:json', '// json:strict', '//json: strict', '//json:json\n//json:strict', '// {n} is documented.\n//\n//json:json', '//json:strict,json'])
    name = r.choice(['T', 'Msg', 'A', 'lower', 'With_Under', 'Öffnung', 'LongTypeNameOfTheMessage', 'T9', 'HTTPReply']) + ('' if seed % 3 else str(seed))
    return f'{ann.format(n=name)}\ntype {name} struct {{\n' + '\n'.join(out) + '\n}'
shutil.rmtree(WORK, ignore_errors=True); os.makedirs(WORK)
shutil.copy('/repo/test/tests/fill/go.mod', WORK); shutil.copy('/repo/test/tests/fill/go.sum', WORK)
cs = []
for i in range(N):
    cs.append((f'r_{i:03d}', source(f'r{i}', [struct(i)])))
def one(c):
    d, text = c
    p = f'{WORK}/{d}'; os.makedirs(p)
    open(f'{p}/t.go', 'w').write(text)
    open(f'{p}/go.mod', 'w').write(f'module fill/{d}\n\ngo 1.18\n')
    r = subprocess.run([VGEN, f'{p}/t.go', f'{p}/t.go.out.go'], capture_output=True, text=True)
    os.remove(f'{p}/go.mod')
    if r.returncode: print(d, r.stdout[:200])
    return r.returncode == 0
with ThreadPoolExecutor(8) as ex: oks = list(ex.map(one, cs))
for (d, _), ok in zip(cs, oks):
    if not ok: shutil.rmtree(f'{WORK}/{d}')
r = subprocess.run(['bash', '-c', '. /opt/vp/env.sh; go build -gcflags=-e ./... 2>&1'], cwd=WORK, capture_output=True, text=True)
bad = set(m.group(1) for m in re.finditer(r'^# fill/(r_[0-9]+)', r.stdout, re.M))
open('/tmp/x/mkr.log', 'w').write(r.stdout)
for d in os.listdir(OUT):
    if d.startswith('r_'): shutil.rmtree(f'{OUT}/{d}')
n = 0
for (d, text), ok in zip(cs, oks):
    if ok and d not in bad:
        os.makedirs(f'{OUT}/{d}'); open(f'{OUT}/{d}/t.go', 'w').write(text); n += 1
subprocess.run(['gofmt', '-w'] + [f'{OUT}/{d}' for d in os.listdir(OUT) if d.startswith('r_')])
print(n, 'of', N, 'bad', len(bad))
