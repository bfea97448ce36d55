"""mkseed.py ID: (re)builds seeded/ID from tools/seeds/ID.py (PROPERTY, FILE, EDITS=[(old,new)], NEEDS, BREAKS, DEMO) and confirms it in a scratch copy"""
import sys, os, subprocess, shutil, json, importlib.util, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMOSH = '''#!/bin/bash
d="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1 PYTHONWARNINGS=ignore
exec /opt/venv/bin/python "$d/demo.py"
'''
def main(i):
    s = importlib.util.spec_from_file_location('s', os.path.join(H, 'tools', 'seeds', i + '.py')); m = importlib.util.module_from_spec(s); sys.dont_write_bytecode = True; s.loader.exec_module(m)
    tmp = tempfile.mkdtemp(prefix='seed_'); r = os.path.join(tmp, 'repo')
    try:
        subprocess.run(['cp', '-a', '/repo', r], check=True); subprocess.run(['git', '-C', r, 'checkout', '-q', '--', '.'], check=True)
        for f, old, new in m.EDITS:
            p = os.path.join(r, f); b = open(p, 'rb').read(); crlf = b'\r\n' in b
            e = lambda t: t.replace('\n', '\r\n').encode() if crlf else t.encode()
            assert b.count(e(old)) == 1, (f, old, b.count(e(old)))
            open(p, 'wb').write(b.replace(e(old), e(new)))
        diff = subprocess.run(['git', '-C', r, 'diff', '--binary'], capture_output=True, check=True).stdout
        out = os.path.join(H, 'seeded', i); os.makedirs(out, exist_ok=True)
        open(os.path.join(out, 'patch.diff'), 'wb').write(diff)
        open(os.path.join(out, 'demo.sh'), 'w').write(DEMOSH); os.chmod(os.path.join(out, 'demo.sh'), 0o755)
        open(os.path.join(out, 'demo.py'), 'w').write(m.DEMO)
        json.dump(dict(property=m.PROPERTY, needs=m.NEEDS, what_it_breaks=m.BREAKS), open(os.path.join(out, 'meta.json'), 'w'), indent=1)
        run = lambda cwd: subprocess.run(['bash', os.path.join(out, 'demo.sh')], cwd=cwd, capture_output=True, text=True, timeout=300)
        a = run('/repo'); b = run(r)
        print(i, 'unchanged rc', a.returncode, 'patched rc', b.returncode)
        if a.returncode: print(a.stdout[-800:], a.stderr[-800:])
        print('   ', (b.stdout + b.stderr).strip().splitlines()[-1:] )
        if '--check' in sys.argv:
            c = subprocess.run(['python3-vt', 'check.py', m.PROPERTY], cwd=H, capture_output=True, text=True, env=dict(os.environ, HAPUA_REPO=r)); print('    CHECK rc', c.returncode, c.stdout[-600:])
    finally: shutil.rmtree(tmp)
for i in [x for x in sys.argv[1:] if not x.startswith('--')]: main(i)
