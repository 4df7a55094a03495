#!/usr/bin/env python3
"""trybug.py DIR [--confirm] [CHECK...]   DIR holds patch.diff (and demo.sh): applies it to a scratch copy of /repo under /tmp,
confirms (builds, stable tests pass, demo passes without and fails with it) and runs the checks against that copy."""
import json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if a[0] != '-']; d, checks = os.path.abspath(args[0]), args[1:]
w = tempfile.mkdtemp(prefix='bug-', dir='/tmp'); R = os.path.join(w, 'repo'); vp = os.path.join(w, 'vp')
def sh(c, cwd=None, env=None, timeout=1500):
    r = subprocess.run(c, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return r.returncode, r.stdout
try:
    sh('cp -a /repo %s && cp -a /opt/vp %s && grep -rlI /repo %s | xargs sed -i "s#/repo\\b#%s#g; s#/opt/vp#%s#g"' % (R, vp, vp, R, vp))
    if '--confirm' in sys.argv:
        dd = os.path.join(w, 'demo'); shutil.copytree(d, dd)
        sh('rm -f %s/*.diff %s/*.patch %s/meta.json' % (dd, dd, dd))
        rc, o = sh('bash %s/build.sh' % vp); assert rc == 0, o[-2000:]
        rc, o = sh('bash %s/demo.sh' % dd, cwd=R, timeout=300); print('demo unchanged rc', rc, o[-300:].strip())
        assert rc == 0
    rc, o = sh('git apply %s/patch.diff' % d, cwd=R); assert rc == 0, o
    if '--confirm' in sys.argv:
        rc, o = sh('bash %s/build.sh' % vp); print('build rc', rc); assert rc == 0, o[-3000:]
        rc, o = sh('bash %s/demo.sh' % dd, cwd=R, timeout=300); print('demo patched rc', rc, o[-300:].strip()); assert rc != 0
        rc, o = sh('bash %s/test.sh %s/out.json' % (vp, w)); x = json.load(open(w + '/out.json'))
        b = json.load(open('/opt/vp/BASELINE.json')); base = b if isinstance(b, list) else b.get('passed') or b.get('tests') or list(b.values())[0]
        miss = sorted(set(base) - set(x['passed'])); print('stable tests', len(base), 'missing', len(miss), miss[:4]); assert not miss
    env = dict(os.environ, YV_REPO=R, YV_CACHE=os.path.join(w, 'cache'), VERIF_SEED='1', VERIF_TIER='quick')
    for c in checks:
        rc, o = sh('%s/check.py %s' % (V, c), env=env)
        v = re.findall(r'^VIOLATION.*$', o, re.M)
        print(c, 'rc', rc, (v[0] if v else o[-200:].strip().splitlines()[-1:]))
finally:
    shutil.rmtree(w, ignore_errors=True)
