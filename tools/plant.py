#!/usr/bin/env python3
"""Makes and confirms planted bugs: plant.py SPEC.py [id...]

SPEC.py calls S(id, property, edits, demo, needs, breaks, flags=..., sh=...). Each is applied in a scratch copy of /repo, which is
mounted over /repo in a namespace of its own to build it and to run the tests and the demonstration. Confirmed ones are
written into /verif/seeded/<id>/. Nothing here is used by the checks.
"""
import json, os, re, subprocess, sys, shutil

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPECS = {}
DEMO = '''#!/bin/bash
# exit 0: the property holds, anything else: it does not
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
if timeout 200 %s -Iinclude -Isingle-header "$d/demo.cpp" -o "$t/demo"; then
	timeout 60 "$t/demo"
	r=$?
else
	r=3
fi
rm -f "$t/demo"
rmdir "$t"
exit $r
'''


def S(id, prop, edits, demo, needs, breaks, flags='g++ -std=c++20 -O1 -w', sh=None):
    SPECS[id] = dict(prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, flags=flags, sh=sh)


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def plant(i):
    s = SPECS[i]
    d = os.path.join('/tmp/pl', i)
    out = os.path.join('/tmp/pl', i + '.seed')
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    if not os.path.isdir(d):
        subprocess.check_call(['git', 'clone', '-q', '/repo', d])
    subprocess.check_call(['git', '-C', d, 'fetch', '-q'])
    subprocess.check_call(['git', '-C', d, 'reset', '-q', '--hard', 'origin/main'])
    open(os.path.join(out, 'demo.cpp'), 'w').write(s['demo'])
    open(os.path.join(out, 'demo.sh'), 'w').write(s['sh'] or DEMO % s['flags'])
    os.chmod(os.path.join(out, 'demo.sh'), 0o755)
    r = run(['bash', os.path.join(out, 'demo.sh')], cwd=d)
    if r.returncode != 0:
        return i, 'demo fails on the unchanged tree: ' + r.stdout[-600:]
    for f, old, new in s['edits']:
        p = os.path.join(d, f)
        t = open(p).read()
        if t.count(old) != 1:
            return i, 'text found %d times in %s: %s' % (t.count(old), f, old[:60])
        open(p, 'w').write(t.replace(old, new))
    diff = run(['git', '-C', d, 'diff']).stdout
    # the changed lines are lines of the original repository
    base = run(['git', '-C', d, 'rev-list', '--max-parents=0', 'HEAD']).stdout.strip()
    orig = {}
    bad = []
    cur = None
    for line in diff.splitlines():
        if line.startswith('--- a/'):
            cur = line[6:]
            orig[cur] = set(run(['git', '-C', d, 'show', base + ':' + cur]).stdout.splitlines())
        elif line.startswith('-') and not line.startswith('---') and line[1:].strip() and line[1:] not in orig[cur]:
            bad.append(line)
    if bad:
        return i, 'changes lines of my own commits: ' + bad[0]
    r = run(['bash', os.path.join(out, 'demo.sh')], cwd=d)
    if r.returncode == 0:
        return i, 'demo passes with the change'
    note = 'demo exit %d' % r.returncode
    res = os.path.join('/tmp/pl', i + '.json')
    r = run(['unshare', '-Urm', 'bash', '-c', 'mount --bind %s /repo && bash /opt/vp/build.sh > /tmp/pl/%s.build 2>&1 || exit 9; bash /opt/vp/test.sh %s' % (d, i, res)])
    if r.returncode == 9:
        return i, 'does not build: ' + run(['tail', '-5', '/tmp/pl/%s.build' % i]).stdout
    want = set(json.load(open('/opt/vp/BASELINE.json')).get('stable') or [])
    if not want:
        b = json.load(open('/opt/vp/BASELINE.json'))
        want = set(next(v for k, v in b.items() if isinstance(v, (list, dict)) and len(v) > 1000))
    o = json.load(open(res))
    got = None
    for k, v in o.items():
        if k in ('passed', 'pass'):
            got = set(v)
    if got is None:
        got = {k for k, v in (o.get('tests') or o).items() if v in (True, 'passed', 'pass', 'PASS')}
    missing = want - got
    if missing:
        return i, '%d tests fail, as %s' % (len(missing), sorted(missing)[:2])
    open(os.path.join(out, 'patch.diff'), 'w').write(diff)
    json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(os.path.join(out, 'meta.json'), 'w'), indent=1)
    dst = os.path.join(V, 'seeded', i)
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(out, dst)
    return i, 'CONFIRMED ' + note


def main():
    exec(open(sys.argv[1]).read(), dict(S=S))
    ids = sys.argv[2:] or list(SPECS)
    for i in ids:
        print(*plant(i), flush=True)


if __name__ == '__main__':
    main()
