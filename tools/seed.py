#!/usr/bin/env python3
"""Write planted bugs into /verif/seeded and try them out.

  seed.py write FILE            create /verif/seeded/<id> for every seed FILE describes
  seed.py try [--checks C01,..] [ID...]   build, test, demo and check each seed

FILE is a Python file calling S(id, prop, needs, breaks, edits, demo, shims=bool, flags=str).
`edits` is a list of (path under /repo, old text, new text[, nth occurrence]).

Nothing here is used by a check.  `try` runs every seed in a copy of /repo and of /verif
that is bind-mounted over the originals in a private mount namespace.
"""
import json, os, shutil, subprocess, sys, threading, queue

SEEDED = '/verif/seeded'
SCR = '/tmp/s'
BASE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])

DEMO = '''#!/bin/bash
# cwd: the repository.  Exit 0 when the property holds.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
g++ -std=c++14 -include cstdint %(flags)s -w %(inc)s-I include "$d/demo.cpp" -o "$t/demo" || exit 3
cd "$t" && timeout 120 ./demo
'''
HEAD = '''#include <cstdio>
#include <cstdlib>
#define EXPECT(c) do { if(!(c)) { std::printf("failed: %s (line %d)\\n", #c, __LINE__); return 1; } } while(0)
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          universal_newlines=True, **kw)


def write(path):
    seeds = []

    def S(id, prop, needs, breaks, edits, demo, shims=False, flags='-O1', sh=None):
        seeds.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo,
                          shims=shims, flags=flags, sh=sh))
    exec(compile(open(path).read(), path, 'exec'), {'S': S})
    work = SCR + '/w'
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(SCR, exist_ok=True)
    sh('git clone -q /repo ' + work)
    for s in seeds:
        d = os.path.join(SEEDED, s['id'])
        if os.path.isdir(d):
            shutil.rmtree(d)
        os.makedirs(d)
        old = {}
        for e in s['edits']:
            f, a, b = e[:3]
            nth = e[3] if len(e) > 3 else None
            p = os.path.join(work, f)
            src = open(p).read()
            old.setdefault(p, src)
            n = src.count(a)
            if n == 0 or (n > 1 and nth is None):
                print('!!', s['id'], 'edit matches', n, 'times:', a[:60]); continue
            if nth is None:
                src = src.replace(a, b)
            else:
                parts = src.split(a)
                src = a.join(parts[:nth]) + b + a.join(parts[nth:])
            open(p, 'w').write(src)
        diff = sh('git -C %s diff' % work).stdout
        for p, src in old.items():
            open(p, 'w').write(src)
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
                  open(os.path.join(d, 'meta.json'), 'w'), indent=2)
        if s['demo'] is not None:
            open(os.path.join(d, 'demo.cpp'), 'w').write(HEAD + s['demo'].lstrip('\n'))
        inc = ''
        if s['shims']:
            shutil.copytree('/verif/shims', os.path.join(d, 'shims'))
            inc = '-I "$d/shims" '
        open(os.path.join(d, 'demo.sh'), 'w').write(s['sh'] or DEMO % dict(flags=s['flags'], inc=inc))
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        print('wrote', s['id'], len(diff.splitlines()))


INNER = r'''
set -e
mount --bind %(r)s /repo
mount --bind %(v)s /verif
cd /repo
cp -a %(seed)s %(scr)s/seed
demo() { (cd /repo; timeout 300 bash %(scr)s/seed/demo.sh >%(scr)s/demo.out 2>&1; echo $?); }
echo DEMO_CLEAN $(demo)
tail -3 %(scr)s/demo.out
git apply %(seed)s/patch.diff
if bash /opt/vp/test.sh %(scr)s/o.json >%(scr)s/test.out 2>&1; then :; fi
echo DEMO_PATCHED $(demo)
tail -3 %(scr)s/demo.out
cd /verif
for c in %(checks)s; do
  s=$(date +%%s)
  set +e
  VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 run.py $c >%(scr)s/check.out 2>&1; rc=$?
  set -e
  echo CHECK $c $rc $(( $(date +%%s) - s ))s "$(grep VIOLATION %(scr)s/check.out | head -2 | tr '\n' ' ')"
  [ $rc = 1 ] || tail -5 %(scr)s/check.out
done
cd /repo; git checkout -q -- .
rm -rf %(scr)s/seed
'''


def try_one(slot, sid, checks):
    r, v, scr = ['%s/%s%d' % (SCR, x, slot) for x in ('r', 'v', 'x')]
    os.makedirs(scr, exist_ok=True)
    shutil.rmtree(scr + '/seed', ignore_errors=True)
    meta = json.load(open('%s/%s/meta.json' % (SEEDED, sid)))
    seed = '%s/seed_%s' % (scr, sid)
    shutil.rmtree(seed, ignore_errors=True)
    shutil.copytree('%s/%s' % (SEEDED, sid), seed)
    sh('git -C %s checkout -q -- .' % r)
    out = sh("unshare -Urm bash -s", input=INNER % dict(
        r=r, v=v, scr=scr, seed=seed, checks=' '.join(checks or [meta['property']]))).stdout
    try:
        passed = set(json.load(open(scr + '/o.json'))['passed'])
        miss = BASE - passed
    except Exception as e:
        miss = {repr(e)}
    shutil.rmtree(seed, ignore_errors=True)
    dc, dp, ch = '?', '?', []
    for line in out.splitlines():
        w = line.split()
        if line.startswith('DEMO_CLEAN'): dc = w[1]
        if line.startswith('DEMO_PATCHED'): dp = w[1]
        if line.startswith('CHECK'): ch.append((w[1], w[2]))
    ok = dc == '0' and dp not in ('0', '?') and not miss
    caught = any(c[1] == '1' for c in ch)
    return ('%s %-28s demo %s/%s tests-missing %d %s %s' % (
        'OK ' if ok else 'BAD', sid, dc, dp, len(miss), 'caught' if caught else 'MISSED', ch)), out, ok and caught


def main():
    if sys.argv[1] == 'write':
        for f in sys.argv[2:]:
            write(f)
        return
    args = sys.argv[2:]
    checks = None
    slots = 5
    while args and args[0].startswith('--'):
        if args[0] == '--checks':
            checks = args[1].split(','); args = args[2:]
        elif args[0] == '--slots':
            slots = int(args[1]); args = args[2:]
    ids = args or sorted(os.listdir(SEEDED))
    slots = min(slots, len(ids))
    os.makedirs(SCR, exist_ok=True)
    for i in range(slots):
        r, v = '%s/r%d' % (SCR, i), '%s/v%d' % (SCR, i)
        sh('rm -rf %s; cp -a /repo %s' % (r, r))
        sh('mkdir -p %s; rsync -a --delete --exclude seeded --exclude .git --exclude build --exclude replays --exclude evidence /verif/ %s/ || '
           '(rm -rf %s && mkdir %s && cd /verif && cp -a $(ls -A | grep -v -e seeded -e .git -e build -e replays -e evidence) %s/)' % (v, v, v, v, v))
        sh('mkdir -p %s/replays %s/evidence' % (v, v))
    q = queue.Queue()
    for i in ids:
        q.put(i)

    def work(slot):
        while True:
            try:
                sid = q.get_nowait()
            except queue.Empty:
                return
            try:
                line, out, good = try_one(slot, sid, checks)
            except Exception as e:
                line, out, good = 'EXC %s %r' % (sid, e), '', False
            print(line, flush=True)
            open('/tmp/w/seed_%s.log' % sid, 'w').write(out)
            if not good:
                print('    ' + '\n    '.join(out.splitlines()[-14:]), flush=True)
    ts = [threading.Thread(target=work, args=(i,)) for i in range(slots)]
    [t.start() for t in ts]
    [t.join() for t in ts]


main()
