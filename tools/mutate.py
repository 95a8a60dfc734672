#!/usr/bin/env python3
"""mutate.py OUT [--files PATTERN] [--sample N] [--seed S] [--jobs J] [--list] [--only ID,ID]
Development tool: single-site mutants of /repo's sources, each run against the checks (stop at the
first violation); the survivors are what the checks do not see (or equivalent mutants).
Works in /tmp/mut on copies; nothing in /repo or /verif is touched."""
import os, re, sys, subprocess, random, json, shutil, threading, argparse, time
ap = argparse.ArgumentParser()
ap.add_argument('out'); ap.add_argument('--files', default=''); ap.add_argument('--sample', type=int, default=0)
ap.add_argument('--seed', type=int, default=1); ap.add_argument('--jobs', type=int, default=2)
ap.add_argument('--workers', type=int, default=8); ap.add_argument('--cap', type=int, default=60)
ap.add_argument('--list', action='store_true'); ap.add_argument('--only', default=''); ap.add_argument('--full', action='store_true')
ap.add_argument('--maxchecks', type=int, default=99)
A = ap.parse_args()
V = '/verif'; W = '/tmp/mut'; R = W + '/repo'

def sources():
    l = []
    for top in ('src', 'backends/open62541/src'):
        for d, _, fs in os.walk('/repo/' + top):
            for f in fs:
                if f.endswith(('.c', '.h')): l.append(os.path.relpath(os.path.join(d, f), '/repo'))
    return sorted(f for f in l if re.search(A.files, f))

def masked(s):
    """comments, strings, chars and preprocessor lines replaced by spaces of equal length"""
    def sp(m): return re.sub(r'[^\n]', ' ', m.group(0))
    s = re.sub(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'', sp, s, flags=re.S)
    s = re.sub(r'^[ \t]*#(?:[^\n]*\\\n)*[^\n]*', sp, s, flags=re.M)
    return s

SRC = {}
REL = {'==': '!=', '!=': '==', '<=': '<', '>=': '>', '<': '<=', '>': '>='}
def mutants(f):
    s = SRC[f] = open('/repo/' + f).read(); m = masked(s); out = []
    def add(a, b, new, kind):
        out.append((f, a, b, new, kind))
    for x in re.finditer(r'==|!=|<=|>=|(?<![-<>])[<>](?![<>=])', m):
        # no casts/templates in C; "->" and shifts are excluded
        add(x.start(), x.end(), REL[x.group(0)], 'rel')
    for x in re.finditer(r'&&|\|\|', m):
        add(x.start(), x.end(), '||' if x.group(0) == '&&' else '&&', 'logic')
    for x in re.finditer(r'\b(if|while)\s*\(', m):
        d = 0; i = x.end() - 1
        while i < len(m):
            if m[i] == '(': d += 1
            if m[i] == ')':
                d -= 1
                if d == 0: break
            i += 1
        if x.group(1) == 'if': add(x.end(), i, '1||(' + s[x.end():i] + ')', 'if1')
        add(x.end(), i, '0&&(' + s[x.end():i] + ')', x.group(1) + '0')
    for x in re.finditer(r'\b(true|false|UA_TRUE|UA_FALSE)\b', m):
        v = x.group(1); add(x.start(), x.end(), {'true': 'false', 'false': 'true', 'UA_TRUE': 'UA_FALSE', 'UA_FALSE': 'UA_TRUE'}[v], 'bool')
    for x in re.finditer(r'(?<![\w.])(\d+)(?![\w.])', m):
        n = int(x.group(1)); add(x.start(), x.end(), str(n + 1), 'const+')
        if n >= 1: add(x.start(), x.end(), str(n - 1), 'const-')
    for x in re.finditer(r'(?<=[\w\)\]]) ([+\-]) (?=[\w(])', m):
        add(x.start(1), x.end(1), '-' if x.group(1) == '+' else '+', 'arith')
    # statement deletion: from the previous ; { } to the ;
    for x in re.finditer(r'(?<=[;{}:])(\s*)([^;{}]+;)', m):
        st = x.group(2).strip()
        if not st or re.match(r'(typedef|struct|static|const|extern|enum|UA_\w+ \*?\w+( =|;)|\w+ \*+\w+|(unsigned |size_t|int|bool|char|void)\b|for\b|else\b|case\b|NL_\w+ \*?\w+( =|;)|[A-Z]\w+ \*?\w+( =|;)|default|do\b|goto)', st): continue
        if re.match(r'return\b', st): continue
        if re.match(r'if\s*\(', st) : continue
        # top level?
        if m.count('{', 0, x.start()) == m.count('}', 0, x.start()): continue
        b = x.end(); a = x.start(2)
        add(a, b, ';', 'del')
    # calls: f(x) in string constants etc. are not mutated; string constants: first char
    for x in re.finditer(r'"((?:\\.|[^"\\\n])+)"', s):
        if m[x.start()] != ' ' or s.rfind('\n', 0, x.start()) < 0: continue
        line = s[s.rfind('\n', 0, x.start()) + 1:s.find('\n', x.start())]
        if line.lstrip().startswith('#') or 'log' in line or '//' in line: continue
        add(x.start() + 1, x.start() + 2, 'Q', 'str')
    return out

def text(mu):
    f, a, b, new, kind = mu
    s = SRC[f]
    ln = s.count('\n', 0, a) + 1
    ls = s.rfind('\n', 0, a) + 1; le = s.find('\n', b)
    return '%s:%d %s  [%s]  ->  [%s]' % (f, ln, kind, re.sub(r'\s+', ' ', s[ls:le].strip())[:150], re.sub(r'\s+', ' ', (s[ls:a] + new + s[b:le]).strip())[:150])

ms = [m for f in sources() for m in mutants(f)]
random.seed(A.seed)
ms = [m for m in ms if not ('base64' in m[0] and m[4].startswith('const') and SRC[m[0]].count('\n', 0, m[1]) < 70)]
random.seed(A.seed)
if A.sample and A.sample < len(ms): ms = random.sample(ms, A.sample)
if A.list:
    for m in ms: print(text(m))
    print(len(ms)); sys.exit()

os.makedirs(W, exist_ok=True); [shutil.rmtree(os.path.join(W, x), ignore_errors=True) for x in os.listdir(W) if x != 'base']; shutil.rmtree(W + '/v', ignore_errors=True)
subprocess.check_call(['cp', '-a', '/repo', R]); subprocess.call(['git', '-C', R, 'checkout', '-q', '--', '.'])
shutil.copytree(V, W + '/v', copy_function=shutil.copy2, ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence'))
V2 = W + '/v'
IDS = sorted(f[:3] for f in os.listdir(V + '/checks') if re.match(r'[BC]\d\d\.cpp', f))
if A.only: IDS = A.only.split(',')
def make(id, repo, b, n=8):
    return subprocess.run(['make', '-s', '-j%d' % n, '-f', V2 + '/mc/Makefile', 'V=' + V2, 'REPO=' + repo, 'B=' + b, 'ID=' + id, b + '/check'], capture_output=True, text=True)
print('building', flush=True)
for i in IDS:
    r = make(i, R, W + '/base/' + i)
    if r.returncode: print(i, r.stderr[-2000:]); sys.exit(1)
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:exitcode=99:abort_on_error=0:handle_abort=1:quarantine_size_mb=8:thread_local_quarantine_size_kb=64:symbolize=0:malloc_context_size=2:external_symbolizer_path=/nonexistent")
PRIO = 'C01 C05 C07 C16 C02 C08 C09 C13 C15 C06 B04 B07 B01 B02 B05 B12 B08 B11'.split()
score = {}   # (file, check) -> [kills, runs]
lock = threading.Lock(); log = open(A.out, 'a')
def order(f):
    back = f.startswith('backends')
    ids = [i for i in IDS if i[0] == 'B' or not back]
    def key(i):
        k, n = score.get((f, i), (0, 0))
        return (-(k + 0.5) / (n + 1), i[0] == 'B' and not back, PRIO.index(i) if i in PRIO else 99, i)
    return sorted(ids, key=key)
def run(mu, slot):
    f = mu[0]; d = '%s/s%d' % (W, slot)
    shutil.rmtree(d, ignore_errors=True)
    subprocess.check_call(['cp', '-a', R, d + '-repo']) if not os.path.isdir(d + '-repo') else None
    s = open(R + '/' + f).read(); open(d + '-repo/' + f, 'w').write(s[:mu[1]] + mu[3] + s[mu[2]:])
    res = 'SURVIVED'; capped = []; t0 = time.time()
    try:
        tried = 0
        while True:
            todo = [i for i in order(f) if i not in capped]
            if not todo or tried >= A.maxchecks: break
            i = todo[0]; tried += 1
            b = d + '-b'; shutil.rmtree(b, ignore_errors=True)
            subprocess.check_call(['cp', '-a', W + '/base/' + i, b])
            # objects of the changed file (all, for a header) are rebuilt
            if f.endswith('.c'):
                os.unlink(b + '/' + f[:-2] + '.o')
            else:
                for top in ('src', 'backends'): shutil.rmtree(b + '/' + top, ignore_errors=True)
            os.unlink(b + '/check')
            # other prerequisites look older than the copied sources: touch objects
            for dd, _, fs in os.walk(b):
                for x in fs: os.utime(os.path.join(dd, x))
            r = make(i, d + '-repo', b, 4)
            if r.returncode: res = 'NOBUILD'; break
            p = subprocess.run([b + '/check', '--verif', V2, '--tier', 'quick', '--workers', str(A.workers), '--cap', str(A.cap), '--first'], capture_output=True, text=True, errors='replace', env=ENV, cwd=V2)
            capped.append(i)
            killed = p.returncode == 1 or 'unconfirmed: ' in p.stderr or p.returncode not in (0, 1)
            with lock:
                k, n = score.get((f, i), (0, 0)); score[(f, i)] = (k + killed, n + 1)
            if killed:
                key = re.search(r'key=(.*)', p.stdout)
                res = 'killed %s rc=%d %s' % (i, p.returncode, key.group(1)[:60] if key else p.stderr[:100].replace('\n', ' '))
                break
    finally:
        open(d + '-repo/' + f, 'w').write(s)
    with lock:
        log.write('%s | %s | %.0fs\n' % (res, text(mu), time.time() - t0)); log.flush()
it = iter(ms)
def loop(slot):
    while True:
        with lock: mu = next(it, None)
        if mu is None: return
        try: run(mu, slot)
        except Exception as e:
            with lock: log.write('ERROR %r | %s\n' % (e, text(mu))); log.flush()
th = [threading.Thread(target=loop, args=(k,)) for k in range(A.jobs)]
[t.start() for t in th]; [t.join() for t in th]
