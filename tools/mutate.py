#!/usr/bin/env python3
"""Mutation testing of the checks (nothing here is used by a check).

  mutate.py list [FILE...]          count the mutants per file
  mutate.py run [--slots n] [--every k] [--offset o] [--retry F] [--scratch D] [--out F] [FILE...]

Every mutant is one small change to one line of a source file of /repo.  The checks of all
properties anchored in that file run on it, in copies of /repo and /verif that are bind-mounted
over the originals in a private mount namespace, until one reports a violation.  Survivors are
written to the output file with the result of the repository's stable tests.
"""
import json, os, re, shutil, subprocess, sys, threading, queue

SCR = '/tmp/m'
BASE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
PROPS = [json.loads(l) for l in open('/verif/properties.jsonl')]

RULES = [
    (r'(?<![<>=!\-+*/&|])<(?![<=])(?= )', '<='), (r'<=', '<'), (r'(?<![>\-])>(?![>=])(?= )', '>='), (r'>=', '>'),
    (r'==', '!='), (r'!=', '=='), (r'&&', '||'), (r'\|\|', '&&'),
    (r'(?<= )\+(?= )', '-'), (r'(?<= )-(?= )', '+'), (r'(?<= )\*(?= )', '/'), (r'(?<= )/(?= )', '*'), (r'(?<= )%(?= )', '/'),
    (r'\+=', '-='), (r'-=', '+='), (r'\*=', '/='), (r'\+\+', '--'), (r'(?<![\w.])-(?=[\w(])', ''),
    (r'(?<![\w.])0(?![\w.])', '1'), (r'(?<![\w.])1(?![\w.])', '0'), (r'(?<![\w.])1(?![\w.])', '2'), (r'(?<![\w.])2(?![\w.])', '1'),
    (r'(?<![\w.])3(?![\w.])', '2'), (r'(?<![\w.])4(?![\w.])', '2'), (r'(?<![\w.])8(?![\w.])', '4'), (r'(?<![\w.])6(?![\w.])', '3'),
    (r'(?<![\w.])0\.5(?![\w])', '1.'), (r'(?<![\w.])1\.(?!\d)', '-1.'), (r'(?<![\w.])2\.(?!\d)', '1.'), (r'(?<![\w.])0\.(?!\d)', '1.'),
    (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'!(?=[\w(])', ''),
    (r'\breal\(\)', 'imag()'), (r'\bimag\(\)', 'real()'), (r'\bcos\b', 'sin'), (r'\bsin\b', 'cos'),
    (r'\bindex1\b', 'index2'), (r'\bindex2\b', 'index1'), (r'\bi\b', 'j'), (r'\bj\b', 'i'), (r'\bj\b', 'k'), (r'\bk\b', 'j'),
    (r'_x\b', '_y'), (r'_y\b', '_x'), (r'\bNx\b', 'Ny'), (r'\bNy\b', 'Nx'), (r'\bdx\b', 'dy'), (r'\bdy\b', 'dx'),
    (r'_x_', '_y_'), (r'_y_', '_x_'), (r'\ba\b', 'b'), (r'\bb\b', 'a'),
    (r'\bmax\b', 'min'), (r'\bmin\b', 'max'), (r'\bfloor\b', 'ceil'), (r'\bround\b', 'floor'), (r'\bfirst\b', 'second'),
    (r'\bdouble\b', 'float'), (r'\buint64_t\b', 'uint8_t'), (r'\buint64_t\b', 'uint16_t'), (r'\bFloat\b', 'float'), (r'\bIndex\b', 'uint8_t'),
    (r'\bSiteIndex\b', 'uint8_t'), (r'\bstd::size_t\b', 'uint8_t'), (r'\bBasisIndex\b', 'uint8_t'),
    (r'(?<=^)(\s{8,})(const )?auto&? ', r'\1static \2auto '), (r'(?<=^)(\s{8,})((?:std::)?\w+(?:<[^=]*>)? \w+(?:\(.*\)| *= .*)?;)', r'\1static \2'),
    (r'\bcrbegin\b', 'cbegin'), (r'\bcrend\b', 'cend'), (r'\.front\(\)', '.back()'), (r'\.back\(\)', '.front()'),
    (r'\bhopping1\b', 'hopping2'), (r'\bhopping2\b', 'hopping1'), (r'\bt1\b', 't2'), (r'\bt2\b', 't1'),
    (r'\brows\b', 'columns'), (r'\bcolumns\b', 'rows'), (r'\bgreater\b', 'less'), (r'\bstep\b', 'step_size'),
    (r'firstprivate', 'shared'), (r'#pragma omp critical', ''), (r'#pragma omp parallel for.*', ''), (r'break;', ''), (r'continue;', ''),
    (r'return true', 'return false'), (r'return false', 'return true'),
    (r'if\((.+)\) \{', 'if(true) {'), (r'if\((.+)\) \{', 'if(false) {'),
]


def mutants(path):
    lines = open(os.path.join('/repo', path)).read().split('\n')
    out, seen = [], set()
    comment = False
    for n, l in enumerate(lines):
        s = l.strip()
        if s.startswith('/*'):
            comment = True
        if comment:
            comment = '*/' not in s
            continue
        if not s or s.startswith('//') or s.startswith('#i') or s.startswith('#e') or s.startswith('#d') \
           or s.startswith('template') or s.startswith('using') or s.startswith('namespace') or s.startswith('static_assert') \
           or s.startswith('assert') or 'get_loggers' in s or s.startswith('struct') or s.startswith('class') or s.startswith('friend'):
            continue
        cand = []
        code = l.split('//')[0] if '"' not in l else l
        for pat, rep in RULES:
            for m in re.finditer(pat, code):
                new = code[:m.start()] + m.expand(rep) + code[m.end():]
                cand.append(new)
        if s.endswith(';') and not re.match(r'(return|const|static|break|continue|typename|auto|[\w:<>, ]+ \w+( =.*)?;|\})', s):
            cand.append(re.match(r'\s*', l).group(0) + ';')
        for c in cand:
            if c != l and (n, c) not in seen:
                seen.add((n, c))
                out.append((path, n, l, c))
    return out


INNER = r'''
mount --bind %(r)s /repo; mount --bind %(v)s /verif
cd /verif
for c in %(checks)s; do
  VERIF_SEED=1 VERIF_TIER=quick timeout 240 python3 run.py $c >%(scr)s/check.out 2>&1; rc=$?
  if [ $rc = 1 ]; then echo CAUGHT $c; exit; fi
  if [ $rc = 2 ]; then echo NOBUILD $c; exit; fi
  if [ $rc != 0 ]; then echo TIMEOUT $c; exit; fi
done
rm -f %(scr)s/o.json
timeout 300 bash /opt/vp/test.sh %(scr)s/o.json >%(scr)s/test.out 2>&1
echo SURVIVED
'''


def main():
    cmd, args = sys.argv[1], sys.argv[2:]
    slots, every, out = 6, 1, '/tmp/m/out.txt'
    only, offset, retry, scr = None, 0, None, None
    while args and args[0].startswith('--'):
        if args[0] == '--slots': slots = int(args[1])
        if args[0] == '--every': every = int(args[1])
        if args[0] == '--out': out = args[1]
        if args[0] == '--offset': offset = int(args[1])
        if args[0] == '--retry': retry = args[1]
        if args[0] == '--scratch': scr = args[1]
        if args[0] == '--checks': only = args[1].split(',')
        args = args[2:]
    owners = {}
    for p in PROPS:
        fs = (p.get('anchors') or p.get('anchor') or p)
        fs = fs if isinstance(fs, dict) else {}
        for f in fs.get('files', []):
            owners.setdefault(f, []).append(p['id'])
    files = args or sorted(owners)
    todo = []
    for f in files:
        ms = mutants(f)
        if cmd == 'list':
            print(len(ms), f, owners.get(f))
        todo += ms[offset::every]
    if retry:  # what survived an earlier run
        todo, ls = [], open(retry).read().split('\n')
        for i, l in enumerate(ls):
            m = re.match(r'SURVIVED .* (\S+):(\d+)$', l)
            if m:
                f, n = m.group(1), int(m.group(2)) - 1
                src = open(os.path.join('/repo', f)).read().split('\n')
                if src[n].strip() == ls[i + 1].strip()[2:].strip():
                    todo.append((f, n, src[n], ls[i + 2].strip()[2:]))
    if cmd == 'list':
        print(len(todo)); return
    print(len(todo), 'mutants')
    if scr: globals()['SCR'] = scr
    os.makedirs(SCR, exist_ok=True)
    for i in range(slots):
        r, v = '%s/r%d' % (SCR, i), '%s/v%d' % (SCR, i)
        subprocess.run('rm -rf %s %s; cp -a /repo %s; mkdir -p %s %s/x%d; cd /verif && cp -a $(ls -A | grep -v -e seeded -e .git -e build -e replays -e evidence) %s/; '
                       'mkdir -p %s/replays %s/evidence' % (r, v, r, v, SCR, i, v, v, v), shell=True)
    q = queue.Queue()
    for m in todo:
        q.put(m)
    count = {}
    log = open(out, 'a')
    lock = threading.Lock()

    def work(i):
        r, v, scr = ['%s/%s%d' % (SCR, x, i) for x in ('r', 'v', 'x')]
        while True:
            try:
                f, n, old, new = q.get_nowait()
            except queue.Empty:
                return
            p = os.path.join(r, f)
            src = open(p).read()
            ls = src.split('\n')
            ls[n] = new
            open(p, 'w').write('\n'.join(ls))
            t = subprocess.run(['unshare', '-Urm', 'bash', '-s'], input=INNER % dict(r=r, v=v, scr=scr, checks=' '.join(only or owners.get(f, []))),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True).stdout.strip().split('\n')[-1]
            if t == 'SURVIVED':
                try:
                    t += ' tests-missing %d' % len(BASE - set(json.load(open(scr + '/o.json'))['passed']))
                except Exception:
                    t += ' tests-broken'
            open(p, 'w').write(src)
            shutil.rmtree(v + '/build', ignore_errors=True)
            with lock:
                count[t.split()[0]] = count.get(t.split()[0], 0) + 1
                log.write('%s %s:%d\n    - %s\n    + %s\n' % (t, f, n + 1, old.strip(), new.strip()))
                log.flush()
    ts = [threading.Thread(target=work, args=(i,)) for i in range(slots)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    print(count)


main()
