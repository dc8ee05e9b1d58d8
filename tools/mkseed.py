"""mkseed.py ID: builds /verif/seeded/ID/patch.diff from /verif/seeded/ID/edit.py-like spec given on stdin (JSON):
{"property", "needs", "what_it_breaks", "edits": [[file, old, new], ...], "demo": text, "files": {name: text}}
Confirms in a scratch copy: tests pass with the change, demo passes without and fails with it."""
import json, os, re, shutil, subprocess, sys, tempfile
REPO, ROOT = '/repo', os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = json.load(sys.stdin)
sid = sys.argv[1]
d = os.path.join(ROOT, 'seeded', sid)
os.makedirs(d, exist_ok=True)
for n, t in spec.get('files', {}).items(): open(os.path.join(d, n), 'w').write(t)
open(os.path.join(d, 'demo.sh'), 'w').write(spec['demo'])
tmp = tempfile.mkdtemp(prefix='seed', dir='/tmp')
run = lambda c, **k: subprocess.run(c, shell=True, capture_output=True, text=True, **k)
try:
    r = os.path.join(tmp, 'repo')
    shutil.copytree(REPO, r, symlinks=True)
    for f, old, new in spec['edits']:
        p = os.path.join(r, f)
        s = open(p).read()
        assert s.count(old) == 1, (f, old, s.count(old))
        # the changed lines must be original ones
        line = s[:s.index(old)].count('\n') + 1
        n = old.rstrip('\n').count('\n') + 1
        b = run(f'git blame -s -L{line},{line + n - 1} HEAD -- {f}', cwd=REPO).stdout
        b = [l for l in b.splitlines() if not l.startswith('^') and '056ba42' not in l[:9]]
        if b: print('NOT ORIGINAL:', b)
        open(p, 'w').write(s.replace(old, new))
    diff = run('git diff', cwd=r).stdout
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    meta = {k: spec[k] for k in ('property', 'needs', 'what_it_breaks')}
    json.dump(meta, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    a = run(f'timeout 300 bash {d}/demo.sh', cwd=REPO)
    assert run('git -C /repo apply ' + os.path.join(d, 'patch.diff')).returncode == 0
    try:
        run('bash /opt/vp/build.sh')
        t = run(f'bash /opt/vp/test.sh {tmp}/o.json')
        o = json.load(open(tmp + '/o.json'))
        b = run(f'timeout 300 bash {d}/demo.sh', cwd=REPO)
    finally: run('git -C /repo checkout -- .'); run('bash /opt/vp/build.sh')
    fails = o['failed'] if isinstance(o['failed'], int) else len(o['failed'])
    print(sid, 'demo clean', a.returncode, 'demo patched', b.returncode, 'tests failed', fails)
    if a.returncode: print(a.stdout[-800:], a.stderr[-800:])
    if a.returncode == 0 and b.returncode != 0 and fails == 0: print('OK')
    else: print('REJECTED', b.stdout[-500:], b.stderr[-500:])
finally: shutil.rmtree(tmp)
