#!/usr/bin/env python3
"""seeds.py [--notest] [ID...]: writes seeded/<ID> from the definitions in seeds/*.py and verifies each in
/repo's working tree (restored afterwards): builds, passes the stable tests, demo fails with and passes
without the patch. Prints which checks notice it."""
import glob, importlib.util, json, os, subprocess, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRE = '''#!/bin/bash
# exit 0: behaves as promised; nonzero: the promise is broken
. /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d) || exit 3
trap 'rm -rf "$w"' EXIT
(cd src && go build -o "$w/vxlisp" .) || exit 3
cp -r dist/vxlisp "$w/prj"
p="$w/prj"
mkdir "$w/run"
vx() { (cd "$w/run" && timeout 120 "$w/vxlisp" "$@" --path "$p" > "$w/out.txt" 2>&1); }
'''
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
def stable():
    b = json.load(open('/opt/vp/BASELINE.json'))
    r = sh('python3 /tmp/w/cmp.py /tmp/w/seed.json')
    return r.stdout.strip()
def main():
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    test = '--notest' not in sys.argv
    for f in sorted(glob.glob(os.path.join(here, 'tools/seeds/*.py'))):
        sid = os.path.basename(f)[:-3]
        if args and sid not in args: continue
        spec = importlib.util.spec_from_file_location(sid, f); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
        d = os.path.join(here, 'seeded', sid); os.makedirs(d, exist_ok=True)
        assert sh('git -C /repo status --porcelain').stdout == '', 'dirty /repo'
        print('==', sid, m.property)
        demo = os.path.join(d, 'demo.sh')
        open(demo, 'w').write(PRE + m.demo.lstrip('\n'))
        json.dump({"property": m.property, "needs": m.needs, "what_it_breaks": m.breaks}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        for name, text in getattr(m, 'files', {}).items():
            open(os.path.join(d, name), 'w').write(text)
        sh('bash /opt/vp/build.sh')
        r = sh('bash ' + demo, cwd='/repo')
        print('  demo clean:', r.returncode, '' if r.returncode == 0 else (r.stdout + r.stderr)[-600:])
        try:
            for path, old, new in m.edits:
                p = os.path.join('/repo', path); s = open(p).read()
                assert s.count(old) == 1, (path, s.count(old), old)
                open(p, 'w').write(s.replace(old, new))
            open(os.path.join(d, 'patch.diff'), 'w').write(sh('git -C /repo diff').stdout)
            b = sh('bash /opt/vp/build.sh')
            if b.returncode: print('  BUILD FAILED', b.stderr[:500]); continue
            r = sh('bash ' + demo, cwd='/repo')
            print('  demo patched:', r.returncode, (r.stdout + r.stderr)[-300:].strip())
            if test:
                sh('bash /opt/vp/test.sh /tmp/w/seed.json'); print('  tests:', stable()[:300])
            cl = json.load(open(os.path.join(here, 'tools/claims.json')))
            ids = [k for k, v in sorted(cl.items()) if 'reason' not in v]
            env = dict(os.environ, VERIF_DIR='/tmp/w/mutverif')
            os.makedirs('/tmp/w/mutverif/evidence', exist_ok=True)
            sh('cp %s/known-findings.txt /tmp/w/mutverif/' % here)
            for i in ids:
                r = sh('cd %s && . ./env.sh && VERIF_DIR=/tmp/w/mutverif GOFLAGS=-mod=readonly bin/vxverif %s' % (here, i))
                if r.returncode:
                    print('  caught by', i, r.returncode, '\n      ' + '\n      '.join(l[:230] for l in r.stdout.splitlines()[:2]))
        finally:
            sh('git -C /repo checkout -q .')
main()
