#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from tools/bugs/<id>.py and confirms each bug.
   mkbugs.py [id...]   (all when none is given)
A definition sets: property, needs, breaks, edits=[(file, old, new)], xml={name: text},
cmds=[dump steps], and optionally gen (python source making files in the cwd),
sanitize=True, main (replacement for dump.c), check (python source judging out.txt)."""
import sys, os, subprocess, shutil, json, tempfile, re
V = '/verif'; R = '/repo'; KIT = V + '/tools/bugkit'
def sh(cmd, **k): return subprocess.run(cmd, shell=True, text=True, capture_output=True, **k)
def original_lines(f):
    """line numbers of HEAD's f that stem from the base commit"""
    base = sh(f'git -C {R} rev-list --max-parents=0 HEAD').stdout.strip()
    o = sh(f'git -C {R} blame -s -l {f}').stdout.splitlines()
    return {i + 1 for i, l in enumerate(o) if l.lstrip('^')[:39] == base[:39]}
def make(bid):
    d = {}
    exec(open(f'{V}/tools/bugs/{bid}.py').read(), d)
    out = f'{V}/seeded/{bid}'
    shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
    tmp = tempfile.mkdtemp(prefix='bug.', dir='/tmp')
    try:
        wt = tmp + '/repo'
        sh(f'cp -a {R} {wt}'); sh('git checkout -q -- .', cwd=wt)
        for f, old, new in d['edits']:
            p = f'{wt}/{f}'; s = open(p).read()
            if s.count(old) != 1: return f'{f}: old text occurs {s.count(old)} times'
            open(p, 'w').write(s.replace(old, new))
        patch = sh('git diff', cwd=wt).stdout
        open(out + '/patch.diff', 'w').write(patch)
        # original lines changed?
        hit = 0; cur = None; ln = 0
        for l in patch.splitlines():
            if l.startswith('--- a/'): cur = original_lines(l[6:])
            elif l.startswith('@@'): ln = int(re.match(r'@@ -(\d+)', l).group(1))
            elif l.startswith('-'): hit += ln in cur; ln += 1
            elif not l.startswith('+'): ln += 1
        if not hit: return 'changes no original line'
        json.dump({'property': d['property'], 'needs': d['needs'], 'what_it_breaks': d['breaks']}, open(out + '/meta.json', 'w'), indent=1)
        if d.get('kit', 'core') == 'core':
            shutil.copytree(V + '/shim', out + '/shim', ignore=shutil.ignore_patterns('server.cpp', '*.hpp') )
            for f in ('heap.c', 'demo.sh'): shutil.copy(f'{KIT}/{f}', out)
            if 'main' in d: open(out + '/dump.c', 'w').write(d['main'])
            else: shutil.copy(KIT + '/dump.c', out)
        else:
            r = sh(f'cp -a {KIT}/{d["kit"]}/. {out}/ && cp -a {V}/shim {out}/')
            if 'main' in d: open(out + '/srv.cpp', 'w').write(d['main'])
        for n, t in d.get('xml', {}).items(): open(f'{out}/{n}', 'w').write(t)
        if d.get('gen'): open(out + '/gen.py', 'w').write(d['gen'])
        if d.get('check'): open(out + '/check.py', 'w').write(d['check'])
        if d.get('sanitize'): open(out + '/sanitize', 'w').write('')
        if d.get('threads'): open(out + '/threads', 'w').write('')
        open(out + '/cmds', 'w').write('\n'.join(d['cmds']) + '\n')
        open(out + '/expected.txt', 'w').close()
        demo = tmp + '/demo'; shutil.copytree(out, demo); 
        for f in ('patch.diff', 'meta.json'): os.remove(f'{demo}/{f}')
        clean = tmp + '/clean'; sh(f'cp -a {R} {clean}; git -C {clean} checkout -q -- .')
        r = sh(f'RECORD={out}/expected.txt bash {demo}/demo.sh', cwd=clean)
        exp = open(out + '/expected.txt').read()
        if 'exit 0' not in exp or re.search(r'exit (?!0\b)\d', exp): return 'clean run fails: ' + exp[-500:] + r.stdout[-300:] + r.stderr[-300:]
        shutil.copy(out + '/expected.txt', demo + '/expected.txt')
        r = sh(f'bash {demo}/demo.sh', cwd=clean)
        if r.returncode != 0: return 'demo fails on the clean tree: ' + r.stdout[-500:]
        r = sh(f'bash {demo}/demo.sh', cwd=wt)
        if r.returncode == 0: return 'demo does not notice the bug'
        show = r.stdout[:400]
        if 'build failed' in r.stdout: return 'does not compile: ' + r.stderr[-400:]
        if os.environ.get('NOBASE'): return 'demo OK, baseline not run\n    ' + show.replace('\n', '\n    ')
        # baseline
        r = sh(f'git -C {R} apply {out}/patch.diff && bash /opt/vp/test.sh {tmp}/res.json; git -C {R} checkout -q -- .')
        res = json.load(open(tmp + '/res.json'))
        if res['failed'] or len(res['passed']) < 5: return f'baseline tests: {res}'
        return 'OK\n    ' + show.replace('\n', '\n    ')
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
ids = sys.argv[1:] or sorted(f[:-3] for f in os.listdir(V + '/tools/bugs') if f.endswith('.py'))
for b in ids: print(b, make(b), flush=True)
