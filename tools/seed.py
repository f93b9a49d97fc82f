#!/usr/bin/env python3
"""seed.py ID [--no-test] [--checks C01,..]: verify /verif/seeded/ID in a scratch copy mounted over /repo
(private mount namespace), then run the property's check against the changed tree.
With edits.txt in the directory ('=== file' / old / '---' / new blocks) patch.diff is regenerated first."""
import json
import os
import re
import subprocess
import sys

W = '/tmp/seedw'
SEEDED = '/verif/seeded'


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **kw)


def inrepo(cmd, timeout=900):
    return sh("unshare -m bash -c 'mount --bind %s /repo && cd /repo && %s'" % (W, cmd), timeout=timeout)


def main():
    sid = sys.argv[1]
    d = os.path.join(SEEDED, sid)
    meta = json.load(open(os.path.join(d, 'meta.json')))
    if not os.path.exists(W):
        sh('cp -a /repo ' + W)
    sh('cd %s && git checkout -q -f . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD' % W)
    ed = os.path.join('/tmp/edits', sid + '.txt')
    if os.path.exists(ed):
        for blk in re.split(r'^=== ', open(ed).read(), flags=re.M)[1:]:
            f, body = blk.split('\n', 1)
            old, new = body.split('\n---', 1)
            new = new[1:] if new.startswith('\n') else new
            new = new.rstrip('\n')
            p = os.path.join(W, f.strip())
            s = open(p).read()
            assert s.count(old) == 1, (f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        diff = sh('cd %s && git diff' % W).stdout
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        sh('cd %s && git checkout -q -f .' % W)
    r = sh('cd %s && git apply %s/patch.diff' % (W, d))
    assert r.returncode == 0, r.stdout
    r = inrepo('bash /opt/vp/build.sh')
    print('build', r.returncode)
    if r.returncode:
        print(r.stdout[-3000:])
        return 1
    miss = None
    if '--no-test' not in sys.argv:
        r = inrepo('bash /opt/vp/test.sh /tmp/seedw.json')
        res = json.load(open('/tmp/seedw.json'))
        base = json.load(open('/opt/vp/BASELINE.json'))
        want = set(base.get('stable', base.get('passed', [])))
        miss = want - set(res['passed'])
        print('tests: %d passed, missing stable: %s' % (len(res['passed']), sorted(miss)[:5]))
    sh('rm -rf /tmp/seeddemo && mkdir /tmp/seeddemo && cp -a %s/. /tmp/seeddemo/ && rm -f /tmp/seeddemo/*.diff /tmp/seeddemo/meta.json' % d)
    r = inrepo('timeout 300 bash /tmp/seeddemo/demo.sh')
    print('demo with bug: rc=%d %s' % (r.returncode, r.stdout[-600:]))
    bug = r.returncode
    chk = [meta['property']]
    for a in sys.argv:
        if a.startswith('--checks='):
            chk = a[9:].split(',')
    for c in chk:
        r = sh('VERIF_REPO=%s VERIF_CACHE=/tmp/seedcache python3 /verif/check.py %s' % (W, c))
        print('check %s: rc=%d %s' % (c, r.returncode, r.stdout[-700:]))
    sh('cd %s && git apply -R %s/patch.diff' % (W, d))
    r = inrepo('bash /opt/vp/build.sh')
    r = inrepo('timeout 300 bash /tmp/seeddemo/demo.sh')
    print('demo clean: rc=%d %s' % (r.returncode, r.stdout[-600:] if r.returncode else ''))
    print('SEED %s: %s' % (sid, 'valid' if bug and not r.returncode and not miss else 'INVALID'))


main()
