#!/usr/bin/env python3
"""mutate.py record [PROP...]   records cases, expectations and results of the quick checks (on the unchanged tree)
mutate.py run N [FILTER]        makes small changes (one each) to copies of /repo, and runs the recorded cases on them;
                                prints those that the cases do not notice and that the tests of /repo do not notice either
Development aid; no check uses it. Scratch: $MUT (default /tmp/mut)."""
import gc, glob, json, multiprocessing, os, pickle, random, re, runpy, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = os.environ.get('MUT', '/tmp/mut')
sys.path.insert(0, os.path.join(V, 'lib'))
sys.path.insert(0, os.path.join(V, 'bin'))
import core, tools, props  # noqa: E402


def record(which):
    os.makedirs(M + '/rec', exist_ok=True)
    for prop in which:
        rec = []
        last = {}
        run_harness, run_tlc = tools.run_harness, tools.run_tlc

        def rh(mode, cases, work, limit_s=15, max_events=4000, jobs=8):
            rs = run_harness(mode, cases, work, limit_s, max_events, jobs)
            last.update(mode=mode, cases=cases, rs=rs, me=max_events)
            if mode == 'api':
                for c, r in zip(cases, rs):
                    rec.append(('api', max_events, json.dumps(c), json.dumps(r), ''))
            return rs

        def rt(module, *a, **k):
            r = run_tlc(module, *a, **k)
            last['printed'] = r.printed
            return r

        class Rec(core.Check):
            def _judge(self, w, c, g, name):
                rec.append(('engine', 4000, json.dumps(c), json.dumps(g), json.dumps(w)))
                super()._judge(w, c, g, name)

            def _judge_script(self, w, g, name):
                c = dict(w['c'], runs=w['c']['runs'] if w['verdict'] == 'ok' else [])
                rec.append(('script', 4000, json.dumps(c), json.dumps(g), json.dumps(w)))
                super()._judge_script(w, g, name)

            def validate(self, cs, rs, kind):
                super().validate(cs, rs, kind)
                ok = {p[1] for p in last['printed'] if p[0] == 'ACCEPT'}
                for c, g in zip(cs, rs):
                    if c['id'] in ok:
                        rec.append(('engine', 2500, json.dumps(c), json.dumps(g), ''))
        tools.run_harness, tools.run_tlc = rh, rt
        try:
            core_check, core.Check = core.Check, Rec
            argv, sys.argv = sys.argv, ['check.py', prop, 'quick']
            try:
                runpy.run_path(os.path.join(V, 'bin/check.py'))
            except SystemExit:
                pass
            sys.argv = argv
        finally:
            core.Check = core_check
            tools.run_harness, tools.run_tlc = run_harness, run_tlc
        pickle.dump(rec, open('%s/rec/%s.pkl' % (M, prop), 'wb'))
        print(prop, len(rec), flush=True)


OPS = [(r' == ', [' != ']), (r' != ', [' == ']), (r' < ', [' <= ']), (r' > ', [' >= ']), (r' <= ', [' < ']), (r' >= ', [' > ']),
       (r' && ', [' || ']), (r' \|\| ', [' && ']), (r' \+ ', [' - ']), (r' - ', [' + ']), (r' \+= ', [' -= ', ' = ']),
       (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']), (r'!(?=[a-z(*])', ['']), (r'(?<![\w.])0(?![\w.])', ['1']),
       (r'(?<![\w.])1(?![\w.])', ['0', '2']), (r'\bis_some\(\)', ['is_none()']), (r'\bis_none\(\)', ['is_some()']),
       (r'\bis_ok\(\)', ['is_err()']), (r'\bis_err\(\)', ['is_ok()']), (r'\.start\b', ['.end']), (r'\.end\b', ['.start']),
       (r'captured', ['matched']), (r'matched', ['captured']), (r'\bbreak;', ['continue;']), (r'\bcontinue;', ['break;']),
       (r'\bif (?!let)[^{]*\{$', ['if false {', 'if true {']), (r'"[^"]+"', ['"zz"']), (r'\bSome\(([a-z_.]+)\)', ['None']),
       (r'\bOptional!', ['Program!']), (r'\bDiscard!', ['Program!']), (r'\bProxyChildren!', ['Program!']),
       (r'\.len\(\)', ['.len() + 1', '.len().saturating_sub(1)']), (r'\.rev\(\)', ['']), (r'\bfirst\(\)', ['last()']), (r'\blast\(\)', ['first()']),
       (r'\bmin\(', ['max(']), (r'\bmax\(', ['min(']), (r'MatcherSuccess::(Break|Continue)\(', ['MatcherSuccess::Token(']),
       (r'MatcherFailure::Fail\b', ['MatcherFailure::Error(ParseError::new("x"))']), (r'\bclone_with_sub_range\(', ['clone(']),
       (r'^\s*[a-z_.]+\(.*\);$', ['']), (r'^\s*[a-z_.]+ (=|\+=|-=) .*;$', ['']), (r'^\s*return .*;$', ['']), (r'^\s*[A-Z][A-Za-z]+!\(.*\),$', ['']),
       (r'\bpush\(', ['insert(0, ']), (r'new_with_(\w+)\(', ['new(']), (r'\*', ['+']), (r'(?<=\w)\?(?=[;.])', ['.unwrap()'])]


def mutants():
    out = []
    for p in sorted(glob.glob('/repo/src/**/*.rs', recursive=True)):
        rel = os.path.relpath(p, '/repo')
        lines = open(p).read().split('\n')
        skip = None      # the indentation of what is left out: texts for debugging, macros
        for k, l in enumerate(lines):
            if re.match(r'\s*#\[cfg\(test\)\]|\s*mod tests?\b', l):
                break
            if re.search(r'debug|panic!|replace\(|expect\(|println|macro_rules|with_capacity|(before|after)_exec', l):
                skip = re.match(r'\s*', l).group(0) if l.rstrip()[-1:] in '{(' else None
                continue
            if skip is not None:
                if re.match(skip + r'[})]', l):
                    skip = None
                if not re.match(skip + r'[})] else' if skip is not None else 'x^', l):
                    continue
            if re.match(r'\s*(//|use |pub use |mod |pub mod |#\[|assert|let mut self_|impl|pub trait|pub type|type )', l):
                continue
            code = l.split(' // ')[0]
            for pat, news in OPS:
                for m in re.finditer(pat, code):
                    for new in news:
                        n = code[:m.start()] + new + code[m.end():]
                        if n != code:
                            out.append((rel, k, n))
    seen, res = set(), []
    for m in out:
        if m not in seen:
            seen.add(m)
            res.append(m)
    return res


CASES = []     # (mode, max_events, case line, result line, want line)


def load():
    for f in sorted(glob.glob(M + '/rec/*.pkl')):
        cs = pickle.load(open(f, 'rb'))
        random.Random(7).shuffle(cs)
        n = int(os.environ.get('EACH', '3000'))
        cs = [c for k in ('api', 'engine') for c in [c for c in cs if c[0] == k][:n]] + [c for c in cs if c[0] == 'script'][:n // 5]
        CASES.extend((os.path.basename(f)[:3],) + c for c in cs)
    random.Random(7).shuffle(CASES)
    gc.freeze()


def sh(cmd, cwd, env=None, timeout=900):
    try:
        return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env, timeout=timeout, errors='replace')
    except subprocess.TimeoutExpired:
        return None


def run_part(w, part):
    """Runs cases in the harness of worker w; the first that is noticed, or None"""
    for key in sorted({(c[1], c[2]) for c in part}):
        cs = [c for c in part if (c[1], c[2]) == key]
        cp, rp = w + '/c.ndjson', w + '/r.ndjson'
        with open(cp, 'w') as f:
            f.writelines(c[3] + '\n' for c in cs)
        if os.path.exists(rp):
            os.remove(rp)
        p = subprocess.run([w + '/target/debug/adextopa-verif-harness', key[0], cp, rp, '0', '5', str(key[1])],
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=w, preexec_fn=tools._limits)
        lines = open(rp).read().split('\n') if os.path.exists(rp) else []
        for c, l in zip(cs, lines):
            if not l.strip():
                continue
            try:
                g, g0 = json.loads(l), json.loads(c[4])
            except json.JSONDecodeError:
                continue
            if g == g0:
                continue
            if not c[5]:
                return c[0]
            chk = core.Check.__new__(core.Check)
            chk.prop, chk.violations, chk.unjudged, chk.validated = c[0], [], 0, 0
            want = json.loads(c[5])
            if key[0] == 'script':
                chk._judge_script(want, g, '')
            else:
                chk._judge(want, json.loads(c[3]), g, '')
            if chk.violations:
                return c[0]
        if p.returncode != 0:
            return cs[0][0] + '!'
    return None


def worker(job):
    n, rel, k, new = job
    w = '%s/w%s' % (M, multiprocessing.current_process()._identity[0])
    if not os.path.exists(w):
        os.makedirs(w)
        sh('git clone -q /repo repo; cp /repo/Cargo.lock repo/; cp -a %s/harness .; cp -a %s/target target' % (V, V), w)
        s = open(w + '/harness/Cargo.toml').read().replace('"/repo"', '"%s/repo"' % w)
        open(w + '/harness/Cargo.toml', 'w').write(s)
        sh('cp -a /repo/target repo/target', w)
    p = os.path.join(w, 'repo', rel)
    src = open(p).read()
    lines = src.split('\n')
    old = lines[k]
    lines[k] = new
    open(p, 'w').write('\n'.join(lines))
    try:
        env = dict(os.environ, CARGO_TARGET_DIR=w + '/target', CARGO_NET_OFFLINE='true', CARGO_BUILD_JOBS='1', RUSTFLAGS='')
        env.pop('RUSTFLAGS')
        b = sh('cargo build --offline -q', w + '/harness', env)
        if b is None or b.returncode:
            return n, 'compile', job, old
        kind = run_part(w, CASES[:4000])
        if kind is None:
            env['CARGO_TARGET_DIR'] = w + '/repo/target'
            t = sh('timeout 200 cargo test --workspace --no-fail-fast --offline -- --test-threads 2', w + '/repo', env, 300)
            bad = set(re.findall(r'^test (\S+) \.\.\. FAILED', t.stdout, re.M)) if t else {'timeout'}
            bad -= {'script::v1::parser::tests::it_can_capture_and_display_errors_properly'}
            if bad or 'test result' not in t.stdout:
                return n, 'tests', job, old
            for a in range(4000, len(CASES), 12000):
                kind = run_part(w, CASES[a:a + 12000])
                if kind:
                    break
        return n, 'killed ' + kind if kind else 'SURVIVED', job, old
    finally:
        open(p, 'w').write(src)


def run(limit, filt):
    load()
    ms = [m for m in mutants() if re.search(filt, m[0])]
    done = set()
    log = M + '/log'
    if os.path.exists(log):
        done = {tuple(json.loads(l)[1][1:]) for l in open(log)}
    ms = [m for m in ms if m not in done]
    random.Random(3).shuffle(ms)
    ms = ms[:limit]
    print(len(ms), 'mutants', len(CASES), 'cases', flush=True)
    with multiprocessing.get_context('fork').Pool(int(os.environ.get('JOBS', '7'))) as pool, open(log, 'a') as f:
        for n, verdict, job, old in pool.imap_unordered(worker, [(i,) + m for i, m in enumerate(ms)]):
            f.write(json.dumps([verdict, job, old]) + '\n')
            f.flush()
            if verdict == 'SURVIVED':
                print('%s:%d\n  - %s\n  + %s' % (job[1], job[2] + 1, old.strip(), job[3].strip()), flush=True)


if __name__ == '__main__':
    if sys.argv[1] == 'record':
        record(sys.argv[2:] or sorted(props.CHECKS))
    elif sys.argv[1] == 'count':
        print(len(mutants()))
    else:
        run(int(sys.argv[2]), sys.argv[3] if len(sys.argv) > 3 else '')
