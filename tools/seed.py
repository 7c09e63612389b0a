#!/usr/bin/env python3
"""Development tool (used by no check): makes and confirms planted bugs.
seed.py make SPEC.py        write /verif/seeded/<id> from a specification
seed.py try ID...           in a scratch copy of /repo: patch applies, builds, tests pass, demo 0/nonzero, which check reports it
"""
import sys, os, subprocess, json, shutil, tempfile, re
V = '/verif'; S = V + '/seeded'; LIB = V + '/tools/seedlib'
def sh(cmd, **k): return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def make(spec):
    ns = {}
    exec(open(spec).read(), ns)
    for s in ns['SEEDS']:
        d = f"{S}/{s['id']}"; os.makedirs(d, exist_ok=True)
        t = tempfile.mkdtemp(prefix='mk'); diff = ''
        files = {}
        for f, old, new in s['edits']:
            if f not in files: files[f] = open('/repo/' + f).read()
            n = files[f].count(old)
            if n != 1: sys.exit(f"{s['id']}: {n} matches in {f}: {old[:60]}")
            files[f] = files[f].replace(old, new)
        for f in files:
            os.makedirs(os.path.dirname(f'{t}/b/{f}'), exist_ok=True)
            open(f'{t}/b/{f}', 'w').write(files[f])
            r = sh(f"diff -u --label a/{f} --label b/{f} /repo/{f} {t}/b/{f}").stdout
            diff += r
        open(d + '/patch.diff', 'w').write(diff)
        shutil.rmtree(t)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        shutil.copy(LIB + '/demo.h', d)
        if 'sh' in s: open(d + '/demo.sh', 'w').write(s['sh'])
        else: shutil.copy(LIB + '/demo.sh', d)
        if s.get('plain'): os.remove(d + '/demo.h')
        for k, v in s.get('files', {}).items(): open(f'{d}/{k}', 'w').write(v)
        for k, v in s.get('stub', {}).items():
            os.makedirs(d + '/stub', exist_ok=True); open(f'{d}/stub/{k}', 'w').write(v)
        os.chmod(d + '/demo.sh', 0o755)
        if 'demo' in s:
            body = s['demo']
            open(d + '/demo.cpp', 'w').write(body if '#include' in body else '#include "demo.h"\n' + (s.get('pre', '')) + 'int main()\n{\n' + '\n'.join('  ' + l for l in body.strip().split('\n')) + '\n  puts("ok");\n  return 0;\n}\n')
def attempt(i, checks=None):
    d = f'{S}/{i}'; meta = json.load(open(d + '/meta.json'))
    w = f'/tmp/seed.{i}'
    if os.path.exists(w): shutil.rmtree(w)
    os.makedirs(w)
    res = {'id': i, 'property': meta['property']}
    try:
        sh(f'cp -a /repo {w}/repo')
        r0 = sh(f'bash {d}/demo.sh', cwd=w + '/repo')
        res['demo_clean'] = r0.returncode
        a = sh(f'git apply {d}/patch.diff', cwd=w + '/repo')
        if a.returncode: res['apply'] = a.stdout; return res
        tests(w, res)
        r1 = sh(f'bash {d}/demo.sh', cwd=w + '/repo')
        res['demo_patched'] = r1.returncode; res['demo_out'] = r1.stdout.strip()[-200:] if r1.returncode != 0 else ''
        if r0.returncode: res['demo_clean_out'] = r0.stdout[-400:]
        for c in checks or [meta['property']]:
            sh(f'mkdir {w}/v; cp -a {V}/Makefile {V}/run.sh {V}/mc {V}/checks {V}/tools {V}/known_findings.txt {w}/v/; mkdir -p {w}/v/evidence {w}/v/out')
            k = sh(f'REPO={w}/repo ./run.sh {c}', cwd=w + '/v')
            m = re.findall(r'VIOLATION.*', k.stdout)
            res['check'] = (c, k.returncode, m[:1], k.stdout[-300:] if k.returncode not in (0, 1) else '')
    finally:
        shutil.rmtree(w)
    return res
def tests(w, res):
    # the repository's own tests, built from the scratch copy
    mk = re.search(r"MK='{3}(.*?)'{3}", open(V + '/tools/mutate.py').read(), re.S)[1].encode().decode('unicode_escape')
    open(w + '/Makefile', 'w').write(mk)
    b = sh(f'make -s -j8 -C {w} t/all 2>&1 | tail -5; {w}/t/all', cwd=w)
    res['tests'] = b.returncode if b.returncode == 0 else (b.returncode, b.stdout[-300:])
if __name__ == '__main__':
    if sys.argv[1] == 'make': make(sys.argv[2])
    else:
        for i in sys.argv[2:]:
            r = attempt(i)
            print(json.dumps(r)); sys.stdout.flush()
