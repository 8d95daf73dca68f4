#!/usr/bin/env python3
# plants one bug: makes the patch in a scratch worktree, confirms that it counts, and says whether the check catches it
import json, os, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def confirm(id):
    d = V + '/seeded/' + id
    meta = json.load(open(d + '/meta.json'))
    assert sh('git -C /repo status --porcelain').stdout.strip() == ''
    r0 = sh('cd /repo && bash %s/demo.sh' % d)
    print('demo unchanged:', r0.returncode, '' if r0.returncode == 0 else r0.stdout[-1500:])
    a = sh('git -C /repo apply %s/patch.diff' % d)
    if a.returncode: print('APPLY FAILS', a.stdout); return
    try:
        b = sh('bash /opt/vp/build.sh'); print('build:', b.returncode, b.stdout[-800:] if b.returncode else '')
        sh('bash /opt/vp/test.sh /tmp/out.json')
        base = json.load(open('/opt/vp/BASELINE.json')); out = json.load(open('/tmp/out.json'))
        def names(x):
            if isinstance(x, list): return set(x)
            for k in ('stable', 'passed', 'pass', 'tests'):
                if k in x: return names(x[k])
            return {k for k, v in x.items() if v in ('pass', 'passed', True)}
        miss = names(base) - names(out)
        print('stable tests:', 'ok' if not miss else 'BROKEN ' + str(list(miss)[:5]))
        r1 = sh('cd /repo && bash %s/demo.sh' % d); print('demo patched:', r1.returncode, r1.stdout[-600:])
        c = sh('cd %s && VERIF_SEED=1 VERIF_TIER=quick bash check.sh %s' % (V, meta['property'])); print('check:', c.returncode); print(c.stdout[-1800:])
    finally:
        sh('git -C /repo checkout -- .')
def plant(id, prop, edits, pkg, demo, needs, breaks):
    d = V + '/seeded/' + id
    shutil.rmtree('/tmp/wt', ignore_errors=True)
    sh('git -C /repo worktree prune; git -C /repo worktree add --detach /tmp/wt HEAD')
    for f, old, new in edits:
        p = '/tmp/wt/' + f; s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    diff = sh('git -C /tmp/wt diff').stdout
    sh('git -C /repo worktree remove --force /tmp/wt')
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo_test.go', 'w').write(demo)
    open(d + '/demo.sh', 'w').write(open(V + '/tools/demo_template.sh').read().replace('@PKG@', pkg))
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    print('==', id); confirm(id)
if __name__ == '__main__':
    for i in sys.argv[1:]: print('==', i); confirm(i)
