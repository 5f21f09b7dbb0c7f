#!/usr/bin/env python3
"""plant.py FILE...: makes seeded/<id>/ from descriptions of bugs, after confirming each in a scratch copy of /repo.
FILE is Python: ID, PROPERTY, NEEDS, BREAKS, EDITS = [(path, old, new)], DEMO = body of main.rs."""
import json, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = os.environ.get('PLANT', '/tmp/plant')
S = P + '/repo'


def sh(cmd, cwd):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def prepare():
    if not os.path.exists(S):
        os.makedirs(P, exist_ok=True)
        subprocess.check_call(['cp', '-a', '/repo', S])
    sh('git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD', S)


def plant(path):
    b = {}
    exec(open(path).read(), b)
    d = os.path.join(V, 'seeded', b['ID'])
    prepare()
    ours = set()
    for rel, old, new in b['EDITS']:
        p = os.path.join(S, rel)
        s = open(p).read()
        if s.count(old) != 1:
            return 'edit of %s: text occurs %d times' % (rel, s.count(old))
        open(p, 'w').write(s.replace(old, new))
        bl = sh('git blame -s -l HEAD -- %s' % rel, S).stdout.split('\n')
        ours |= {rel + ':' + l for l in bl}
    diff = sh('git diff', S).stdout
    # changed lines must be original ones
    fixes = sh('git log --format=%H 548a7e6..HEAD', S).stdout.split()
    cur, line = None, 0
    for l in diff.split('\n'):
        if l.startswith('--- '):
            cur = l[6:]
            bl = sh('git blame -s -l HEAD -- %s' % cur, S).stdout.split('\n')
        elif l.startswith('@@'):
            line = int(l.split()[1][1:].split(',')[0])
        elif l.startswith('-'):
            if any(bl[line - 1].startswith(f[:39]) for f in fixes):
                print('  note: changes a line of a fix: ' + l)
            line += 1
        elif l.startswith(' '):
            line += 1
    r = sh('cargo test --workspace --no-fail-fast --offline -- --test-threads 8 2>&1', S)
    failed = set(re.findall(r'^test (\S+) \.\.\. FAILED', r.stdout, re.M))
    unstable = {'script::v1::parser::tests::it_can_capture_and_display_errors_properly'}
    if failed - unstable or 'error: could not compile' in r.stdout or 'test result' not in r.stdout:
        return 'tests fail: %s' % (sorted(failed) or r.stdout[-600:])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    shutil.copy(os.path.join(V, 'doc/demo/demo.sh'), d)
    shutil.copy(os.path.join(V, 'doc/demo/prelude.rs'), d)
    open(os.path.join(d, 'main.rs'), 'w').write(b['DEMO'].strip('\n') + '\n')
    json.dump({'property': b['PROPERTY'], 'needs': b['NEEDS'], 'what_it_breaks': b['BREAKS']},
              open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    # expectations written "?" are those of the unchanged code (to be read by whoever plants the bug)
    sh('git checkout -q -- .', S)
    demo = b['DEMO'].strip('\n') + '\n'
    while '"?"' in demo:
        open(os.path.join(d, 'main.rs'), 'w').write(demo)
        m = re.search(r'^got:  (.*)\nwant: \?$', sh('bash %s/demo.sh' % d, S).stdout, re.M)
        if not m:
            break
        print('  expected: ' + m.group(1))
        demo = demo.replace('"?"', json.dumps(m.group(1), ensure_ascii=False), 1)
    open(os.path.join(d, 'main.rs'), 'w').write(demo)
    sh('git apply %s/patch.diff' % d, S)
    bad = sh('bash %s/demo.sh' % d, S)
    sh('git checkout -q -- .', S)
    good = sh('bash %s/demo.sh' % d, S)
    if good.returncode != 0 or bad.returncode in (0, 99):
        shutil.rmtree(d)
        return 'demo: unchanged %d, changed %d\n%s\n--\n%s' % (good.returncode, bad.returncode, good.stdout[-600:], bad.stdout[-600:])
    return 'planted (%s)' % bad.stdout.strip()[-300:]


A = P + '/alt'


def alternate():
    """A copy of /verif (working tree) whose harness is built against the scratch copy of the repository"""
    os.makedirs(A, exist_ok=True)
    subprocess.check_call('cp -a /verif/spec /verif/lib /verif/bin /verif/harness /verif/known_findings.txt /verif/MANIFEST.json /verif/properties.jsonl %s/' % A, shell=True)
    if not os.path.exists(A + '/target'):
        subprocess.check_call('cp -a /verif/target %s/' % A, shell=True)
    p = A + '/harness/Cargo.toml'
    s = open(p).read().replace('"/repo"', '"%s"' % S)
    open(p, 'w').write(s)


def check(ident, tier='quick', prop=None):
    """Applies a planted bug to the scratch copy and runs the check of its property (or of another one) there"""
    d = os.path.join(V, 'seeded', ident)
    prop = prop or json.load(open(os.path.join(d, 'meta.json')))['property']
    prepare()
    r = sh('git apply ' + os.path.join(d, 'patch.diff'), S)
    if r.returncode:
        return prop, 'does not apply', r.stdout
    try:
        r = sh('VERIF_SEED=%s timeout 900 python3 bin/check.py %s %s' % (os.environ.get('VERIF_SEED', '1'), prop, tier), A)
    finally:
        sh('git checkout -q -- .', S)
    return prop, r.returncode, r.stdout.strip()[-400:]


def quiet(diffs, props):
    """Applies changes that keep the behaviour (doc/refactorings) together, and runs all checks: they must be quiet"""
    alternate()
    prepare()
    for d in diffs:
        subprocess.check_call(['git', 'apply', os.path.abspath(d)], cwd=S)
    try:
        for p in props or ['C%02d' % k for k in range(1, 33)]:
            r = sh('timeout 1800 python3 bin/check.py %s quick' % p, A)
            print(p, r.returncode, r.stdout.strip()[-300:], flush=True)
    finally:
        sh('git checkout -q -- .', S)


if sys.argv[1] == 'quiet':
    quiet([a for a in sys.argv[2:] if a.endswith('.diff')], [a for a in sys.argv[2:] if not a.endswith('.diff')])
elif sys.argv[1] == 'check':
    alternate()
    for i in sys.argv[2:]:
        i, _, p = i.partition(':')
        print(i, *check(i, prop=p or None), flush=True)
else:
    for f in sys.argv[1:]:
        print(os.path.basename(f), plant(f), flush=True)
