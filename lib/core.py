"""Checks of a property: cases that the specification makes are replayed in the implementation
(family), and executions of the implementation are validated against the specification (random)."""
import json, os, shutil, sys, time
import tools
from grammar import finish
from gen import cases as random_cases
import apigen
import scriptgen

ANY = [-1]


def same_text(want, got):
    return want == ANY or want == got


def same_summary(want, got):
    return (want['t'] == got['t'] and want['n'] == got['n'] and want['s'] == got['s']
            and same_text(want['m'], got['m']) and len(want['p']) == len(got['p'])
            and all(same_summary(w, g) for w, g in zip(want['p'], got['p'])))


def same_attributes(want, got):
    w = {k: v for k, v in want}
    g = {k: v for k, v in got}
    return set(w) == set(g) and all(same_text(w[k], g[k]) for k in w)


def same_token(want, got):
    return (want['n'] == got['n'] and want['r'] == got['r'] and same_text(want['v'], got['v'])
            and want['c'] == got['c'] and want['m'] == got['m'] and same_attributes(want['a'], got['a']))


def same_outcome(want, got):
    return (want['t'] == got['t'] and want['n'] == got['n'] and same_text(want['m'], got['m'])
            and len(want['tree']) == len(got['tree'])
            and all(same_token(w, g) for w, g in zip(want['tree'], got['tree']))
            and len(want['vars']) == len(got['vars'])
            and all(same_summary(w, g) for w, g in zip(want['vars'], got['vars'])))


def same_shape(want, got):
    """The patterns after edits: their names and children"""
    return len(want) == len(got) and all(
        not g or (w['ch'] == g['ch'] and (not w['own'] or (w['n'] == g['n'] and w['cu'] == g['cu'])))
        for w, g in zip(want, got))


def same_event(want, got):
    return (all(want[k] == got[k] for k in 'eiab') and same_summary(want['r'], got['r']))


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.start = time.time()
        self.work = os.path.join(tools.VERIF, 'work', '%s-%d' % (prop, os.getpid()))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.states = self.transitions = self.validated = self.unjudged = 0
        self.parts = []
        self.samples = []
        self.exhaustive = True
        self.violations = []
        self.known = []

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def spent(self):
        return time.time() - self.start

    def violation(self, kind, case, expected, got, note=''):
        self.violations.append({'property': self.prop, 'kind': kind, 'case': case, 'expected': expected,
                                'got': got, 'note': note})

    def count(self, r):
        self.states += r.distinct
        self.transitions += r.generated

    def part(self, **kw):
        self.parts.append(kw)

    # -- the specification leads

    def family(self, name, limit=6000, big_limit=12000, pieces=6):
        """Cases of a family: all, or a piece of them (thorough: several pieces)"""
        if self.thorough:
            p = 0
            while p < pieces:
                r = self._piece(name, True, big_limit, p)
                p += 1
                if p >= r.stride:
                    break
            self.part(family=name, size=r.size, explored_pieces=p, of_pieces=r.stride)
            if p < r.stride:
                self.exhaustive = False
        else:
            r = self._piece(name, False, limit, self.seed)
            self.part(family=name, size=r.size, explored=r.chosen)
            if r.stride > 1:
                self.exhaustive = False

    def _piece(self, name, big, limit, piece):
        # "name+": one level deeper
        r = tools.run_tlc('MC', 'MC.cfg', self.work,
                          env={'DEEPER': '1' if name.endswith('+') else '0', 'FAMILY': name.rstrip('+'),
                               'BIG': '1' if big else '0', 'LIMIT': str(limit), 'PIECE': str(piece)})
        self.count(r)
        if len(r.printed) != r.chosen:
            raise tools.ToolError('family %s: %d of %d cases were completed' % (name, len(r.printed), r.chosen))
        wants = sorted(r.printed, key=lambda x: x['c']['id'])
        cases = []
        for w in wants:
            if w['u']:
                # only the parses before the one that the specification has no answer for
                w['c'] = dict(w['c'], runs=w['c']['runs'][:len(w['outs'])])
            cases.append(finish(w['c'], w['c']['id'], False))
        results = tools.run_harness('engine', cases, self.work)
        for w, c, g in zip(wants, cases, results):
            self._judge(w, c, g, name)
        if len(self.samples) < 4 and wants:
            w = wants[len(wants) // 2]
            self.samples.append({'family': name, 'case': w['c']['id'], 'grammar': brief_grammar(w['c']),
                                 'input': w['c']['runs'][-1]['src'] if w['outs'] else None, 'outcome': w['outs'][-1] if w['outs'] else None})
        return r

    def _judge(self, w, c, g, name):
        if g['t'] == 'skipped':
            return
        done = len(w['outs'])
        if g['t'] != 'done':
            self.violation('family ' + name, c, {'outs': w['outs'], 'hks': w['hks']},
                           {k: v for k, v in g.items() if k != 'ev'}, 'the implementation ends with a ' + g['t'])
            return
        outs = g['outs']
        hooks = [e for e in g['ev'] if e['e'] == 'hook']
        for k in range(max(done, len(outs))):
            if k >= len(outs) or k >= done or not same_outcome(w['outs'][k], outs[k]):
                self.violation('family ' + name, c, w['outs'][k:k + 1], outs[k:k + 1], 'parse %d differs' % (k + 1))
                return
        for k, sh in enumerate(w.get('sh', [])):
            if sh and not same_shape(sh, outs[k].get('sh', [])):
                self.violation('family ' + name, c, sh, outs[k].get('sh'), 'the patterns differ at parse %d' % (k + 1))
                return
        if w['u']:
            self.unjudged += 1
            return
        if len(hooks) != len(w['hks']) or not all(same_event(x, y) for x, y in zip(w['hks'], hooks)):
            self.violation('family ' + name, c, w['hks'], hooks, 'calls of functions differ')
            return
        self.validated += 1

    # -- the implementation leads

    def random(self, tag, p, n, big_n=None):
        """Recorded executions of random cases of a profile"""
        if self.thorough:
            n = big_n or n * 8
        size = 4000
        k = 0
        while k < n:
            m = min(size, n - k)
            self._random('%s-%s-%d-%d' % (self.prop, tag, self.seed, k), p, m, tag)
            k += m
        self.part(random=tag, cases=n)

    def _random(self, seed, p, n, tag):
        cs = [finish(c, i + 1, True) for i, c in enumerate(random_cases(p, seed, n))]
        rs = tools.run_harness('engine', cs, self.work, max_events=2500)
        self.validate(cs, rs, 'random ' + tag)

    def validate(self, cs, rs, kind):
        path = os.path.join(self.work, 'traces.ndjson')
        kept = {}
        with open(path, 'w') as f:
            for c, r in zip(cs, rs):
                if r['t'] == 'skipped':
                    continue
                d = dict(c)
                d['t'] = 'panic' if r['t'] == 'budget' else r['t']
                d['ev'] = r['ev']
                d['outs'] = r['outs'] if r['t'] == 'done' else []
                f.write(json.dumps(d) + '\n')
                kept[c['id']] = (c, r)
        r = tools.run_tlc('Trace', 'Trace.cfg', self.work, env={'TRACES': path})
        self.count(r)
        if len(r.printed) != len(kept):
            raise tools.ToolError('%d of %d traces were judged' % (len(r.printed), len(kept)))
        for verdict, cid, l, step, detail in r.printed:
            c, g = kept[cid]
            if verdict == 'ACCEPT':
                self.validated += 1
                if len(self.samples) < 6:
                    self.samples.append({'trace': brief_grammar(c), 'inputs': [x['src'] for x in c['runs']],
                                         'events': len(g['ev'])})
            elif verdict == 'UNDEF':
                self.unjudged += 1
            else:
                self.violation(kind, c, detail[:3000], {k: v for k, v in g.items() if k != 'ev'},
                               'event %d of %d: %s' % (l, len(g['ev']), g.get('msg', g.get('why', ''))))

    # -- interface modules: the specification leads, over all short histories and random longer ones

    def api(self, module, kind, limit=4000, big_limit=20000, pieces=8, random=1500):
        if self.thorough:
            p = 0
            while p < pieces:
                r = self._api(module, True, big_limit, p)
                p += 1
                if p >= r.stride:
                    break
            self.part(module=module, size=r.size, explored_pieces=p, of_pieces=r.stride)
            random *= 8
        else:
            r = self._api(module, False, limit, self.seed)
            self.part(module=module, size=r.size, explored=r.chosen)
        k = 0
        while k < random:
            n = min(4000, random - k)
            self._api(module, False, 1, 0, apigen.cases(kind, '%s-%d-%d' % (kind, self.seed, k), n))
            k += n
        self.part(module=module, random=random)

    def _api(self, module, big, limit, piece, cases=None):
        path = ''
        if cases is not None:
            path = os.path.join(self.work, module + '.ndjson')
            with open(path, 'w') as f:
                for c in cases:
                    f.write(json.dumps(c) + '\n')
        r = tools.run_tlc(module, module + '.cfg', self.work,
                          env={'CASES': path, 'BIG': '1' if big else '0', 'LIMIT': str(limit), 'PIECE': str(piece)})
        self.count(r)
        if len(r.printed) != r.chosen:
            raise tools.ToolError('%s: %d of %d cases were completed' % (module, len(r.printed), r.chosen))
        wants = sorted(r.printed, key=lambda x: x['c']['id'])
        results = tools.run_harness('api', [w['c'] for w in wants], self.work)
        for w, g in zip(wants, results):
            if g['t'] == 'skipped':
                continue
            if g['t'] != 'done':
                self.violation(module, w['c'], w['want'], {k: v for k, v in g.items() if k != 'ev'}, 'the implementation ends with a ' + g['t'])
            elif g['res'] != w['want']:
                want, got, at = first_difference(w['want'], g['res'], [])
                self.violation(module, w['c'], want, got, 'differs at %s' % at)
            else:
                self.validated += 1
        if len(self.samples) < 4 and wants:
            w = wants[len(wants) // 2]
            self.samples.append({'module': module, 'case': w['c']})
        return r

    # -- scripts: the specification leads

    def name_bug(self):
        """Known finding: (?'X'<...>) names tokens "Name"; "1" if it is there, "0" if not"""
        if not hasattr(self, '_name_bug'):
            case = {'id': 1, 'inline': True, 'files': [{'n': [], 's': list(b"(?'X'<='a'>)")}], 'runs': [[97]], 'w': 0}
            r = tools.run_harness('script', [case], self.work)[0]
            names = [t['n'] for t in r['res']['outs'][0]['tree']] if r['t'] == 'done' and r['res']['outs'] else []
            # only what is listed is tolerated
            with open(os.path.join(tools.VERIF, 'known_findings.txt')) as f:
                listed = [l for l in f if l.startswith('known: property=C26 named-pattern:')]
            self._name_bug = '1' if names[1:] == ['Name'] and listed else '0'
            if self._name_bug == '1' and self.prop == 'C26':
                self.known.append('KNOWN-FINDING: ' + listed[0][len('known: '):].strip())
        return self._name_bug

    def script_family(self, name, limit=1500, big_limit=8000, pieces=8):
        if self.thorough:
            p = 0
            while p < pieces:
                r = self._script(name, True, big_limit, p)
                p += 1
                if p >= r.stride:
                    break
            self.part(family=name, size=r.size, explored_pieces=p, of_pieces=r.stride)
        else:
            r = self._script(name, False, limit, self.seed)
            self.part(family=name, size=r.size, explored=r.chosen, scripts_with_meaning=r.meaning)

    def script_random(self, kind, n, big_n=None):
        if self.thorough:
            n = big_n or n * 8
        k = 0
        while k < n:
            m = min(4000, n - k)
            self._script(kind, False, 1, 0, scriptgen.cases(kind, '%s-%d-%d' % (kind, self.seed, k), m))
            k += m
        self.part(random=kind, scripts=n)

    def _script(self, name, big, limit, piece, cases=None):
        path = ''
        if cases is not None:
            path = os.path.join(self.work, 'scripts.ndjson')
            with open(path, 'w') as f:
                for c in cases:
                    f.write(json.dumps(c) + '\n')
        r = tools.run_tlc('ScriptMC', 'ScriptMC.cfg', self.work,
                          env={'FAMILY': name, 'CASES': path, 'BIG': '1' if big else '0', 'LIMIT': str(limit),
                               'PIECE': str(piece), 'NAMEBUG': self.name_bug()})
        self.count(r)
        # (different numbers of a family can give the same script)
        if len(r.printed) != r.chosen:
            raise tools.ToolError('scripts %s: %d of %d cases were completed' % (name, len(r.printed), r.chosen))
        wants = sorted(r.printed, key=lambda x: x['c']['id'])
        r.meaning = sum(w['verdict'] == 'ok' for w in wants)
        # what has no specified meaning is compiled, not used
        todo = [dict(w['c'], runs=w['c']['runs'] if w['verdict'] == 'ok' else []) for w in wants]
        results = tools.run_harness('script', todo, self.work)
        for w, g in zip(wants, results):
            self._judge_script(w, g, name)
        if len(self.samples) < 4:
            some = [w for w in wants if w['verdict'] == 'ok'] or wants
            for w in some[len(some) // 2:][:1]:
                self.samples.append({'family': name, 'verdict': w['verdict'], 'script': bytes(w['c']['files'][0]['s']).decode('utf-8', 'replace'),
                                     'outcome': w['outs'][-1] if w['outs'] else None})
        return r

    def _judge_script(self, w, g, name):
        if g['t'] == 'skipped':
            return
        case = dict(w['c'], text=bytes(w['c']['files'][0]['s']).decode('utf-8', 'replace'))
        if g['t'] != 'done':
            self.violation('script ' + name, case, w['verdict'], {k: v for k, v in g.items() if k != 'ev'},
                           'the implementation ends with a ' + g['t'])
            return
        res = g['res']
        n = len(w['c']['files'][0]['s']) if w['c']['inline'] else 1 << 30
        wrong = [e for e in res['errs'] if e and not 0 <= e[0] <= e[1] <= n]
        if not res['ok'] and (wrong or not res['errs']):
            self.violation('script ' + name, case, 'errors inside of the script', res['errs'], 'location of an error')
        elif w['verdict'] in ('unknown', 'undef'):
            self.unjudged += 1
        elif (w['verdict'] == 'ok') != res['ok']:
            self.violation('script ' + name, case, w['verdict'], res, 'the script is ' + ('rejected', 'compiled')[res['ok']])
        elif w['verdict'] == 'ok':
            for k, (x, y) in enumerate(zip(w['outs'], res['outs'])):
                if not same_outcome(x, y):
                    self.violation('script ' + name, case, x, y, 'parse %d differs' % (k + 1))
                    return
            self.validated += 1
        elif w['loc'] and w['loc'][0] not in res['errs']:
            self.violation('script ' + name, case, w['loc'], res['errs'], 'the error is somewhere else')
        else:
            self.validated += 1

    # -- the end

    def finish(self, level='model_checking', assumptions=()):
        wall = time.time() - self.start
        d = os.path.join(tools.VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        cov = {'states': self.states, 'transitions': self.transitions,
               'traces_validated_against_impl': self.validated, 'samples': self.samples or ['none'],
               'unjudged': self.unjudged, 'parts': self.parts, 'exhaustive': False}
        with open(os.path.join(d, self.prop + '.json'), 'w') as f:
            json.dump({'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': level, 'coverage': cov,
                       'assumptions': list(assumptions), 'wall_s': round(wall, 2),
                       'violations': len(self.violations)}, f, indent=1)
        shutil.rmtree(self.work, ignore_errors=True)
        for line in self.known:
            print(line)
        if self.violations:
            v = min(self.violations, key=lambda v: len(json.dumps(v['case'])))
            r = os.path.join(tools.VERIF, 'replay')
            os.makedirs(r, exist_ok=True)
            path = os.path.join(r, '%s.json' % self.prop)
            with open(path, 'w') as f:
                json.dump(v, f, indent=1)
            print('%d violations; the smallest: %s; %s' % (len(self.violations), v['kind'], v['note']))
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
            return 1
        print('property=%s held: %d states, %d executions validated, %d unjudged, %.1f s'
              % (self.prop, self.states, self.validated, self.unjudged, wall))
        return 0


def first_difference(w, g, at):
    if isinstance(w, list) and isinstance(g, list) and len(w) == len(g):
        for i in range(len(w)):
            if w[i] != g[i]:
                return first_difference(w[i], g[i], at + [i])
    if isinstance(w, dict) and isinstance(g, dict) and set(w) == set(g):
        for i in sorted(w):
            if w[i] != g[i]:
                return first_difference(w[i], g[i], at + [i])
    return w, g, at


def brief_grammar(c):
    out = []
    for i, n in enumerate(c['g']):
        extra = {k: v for k, v in n.items() if k not in ('k', 'n', 'cu', 'ch', 'via', 're')}
        out.append('%d=%s%s%s%s' % (i + 1, n['k'], ':' + n['n'] if n['cu'] else '', n['ch'] if n['ch'] else '',
                                    json.dumps(extra) if extra else ''))
    return out
