"""Running the harness (the implementation) and TLC (the specification)."""
import json, os, re, resource, subprocess, sys, time, shutil, concurrent.futures

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
TARGET = os.path.join(VERIF, 'target')
HARNESS = os.path.join(TARGET, 'debug', 'adextopa-verif-harness')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class ToolError(Exception):
    pass


def build():
    env = dict(os.environ, CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE='true')
    p = subprocess.run(['cargo', 'build', '--offline', '--quiet'], cwd=os.path.join(VERIF, 'harness'),
                       env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise ToolError('harness does not build:\n' + p.stdout[-4000:])


def _limits():
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def _run_chunk(mode, cases, work, tag, limit_s, max_events):
    cpath = os.path.join(work, 'cases-%s.ndjson' % tag)
    rpath = os.path.join(work, 'results-%s.ndjson' % tag)
    with open(cpath, 'w') as f:
        for c in cases:
            f.write(json.dumps(c) + '\n')
    if os.path.exists(rpath):
        os.remove(rpath)
    start = 0
    extra = {}
    n = len(cases)
    while start < n:
        p = subprocess.run([HARNESS, mode, cpath, rpath, str(start), str(limit_s), str(max_events)],
                           stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True,
                           cwd=work, preexec_fn=_limits)
        if p.returncode == 3:
            raise ToolError('harness error: ' + p.stderr[-2000:])
        done = 0
        if os.path.exists(rpath):
            with open(rpath) as f:
                data = f.read()
            done = data.count('\n')
            if data and not data.endswith('\n'):
                with open(rpath, 'w') as f:
                    f.write(data[:data.rfind('\n') + 1])
        done += len(extra)
        if p.returncode == 0 and done >= n:
            break
        if p.returncode == 0:
            raise ToolError('harness stopped early')
        # the case at `done` hangs or aborts the process
        extra[done] = {'id': cases[done]['id'], 't': 'crash',
                       'why': 'hang' if p.returncode == 4 else 'abort %d' % p.returncode, 'ev': []}
        if len(extra) >= 3:
            for k in range(done + 1, n):
                extra[k] = {'id': cases[k]['id'], 't': 'skipped', 'ev': []}
            break
        start = done + 1
    results = []
    lines = []
    if os.path.exists(rpath):
        with open(rpath) as f:
            lines = [l for l in f.read().split('\n') if l]
    li = 0
    for k in range(n):
        if k in extra:
            results.append(extra[k])
        else:
            r = json.loads(lines[li])
            li += 1
            if r['id'] != cases[k]['id']:
                raise ToolError('harness results out of order')
            results.append(r)
    return results


def run_harness(mode, cases, work, limit_s=15, max_events=4000, jobs=8):
    """One result per case, in order"""
    if not cases:
        return []
    os.makedirs(work, exist_ok=True)
    size = max(1, (len(cases) + jobs - 1) // jobs)
    chunks = [cases[k:k + size] for k in range(0, len(cases), size)]
    with concurrent.futures.ThreadPoolExecutor(jobs) as pool:
        futs = [pool.submit(_run_chunk, mode, c, work, '%s-%d' % (mode, i), limit_s, max_events)
                for i, c in enumerate(chunks)]
        out = []
        for f in futs:
            out.extend(f.result())
    return out


class TlcResult:
    pass


def run_tlc(module, cfg, work, env=None, workers=8, timeout=800, heap='8g'):
    """Runs TLC on a module of spec/; returns what it printed with @@ (decoded), and statistics"""
    os.makedirs(work, exist_ok=True)
    tag = 'tlc-%s-%d' % (module, int(time.time() * 1e6))
    meta = os.path.join(work, tag)
    out = meta + '.out'
    e = dict(os.environ)
    e.update(env or {})
    cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m', '-cp', JARS, 'tlc2.TLC', '-workers', str(workers),
           '-metadir', meta, '-noGenerateSpecTE', '-config', cfg, module + '.tla']
    try:
        with open(out, 'w') as f:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError('TLC timeout on %s' % module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    r = TlcResult()
    r.printed = []
    r.size = r.stride = 0
    rest = []
    with open(out, errors='replace') as f:
        for line in f:
            if line.startswith('"@@'):
                r.printed.append(json.loads(json.loads(line)[2:]))
            elif line.startswith('"@SIZE'):
                w = line.strip().strip('"').split()
                r.size, r.stride, r.chosen = int(w[1]), int(w[2]), int(w[3])
            else:
                rest.append(line)
    os.remove(out)
    r.out = ''.join(rest)
    m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', r.out)
    r.generated, r.distinct = (int(x.replace(',', '')) for x in m[-1]) if m else (0, 0)
    if p.returncode != 0:
        raise ToolError('TLC failed on %s (%d):\n%s' % (module, p.returncode, tail_error(r.out)))
    return r


def tail_error(out):
    k = out.find('Error:')
    return out[k:k + 3000] if k >= 0 else out[-3000:]
