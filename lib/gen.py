"""Seeded random cases for the engine.  A profile says which constructs occur and how often."""
import random
from grammar import *

LEAVES = {'Equals', 'Matches', 'Sequence', 'Null', 'Break', 'Panic', 'Error', 'Emit', 'StoreS', 'Fetch',
          'Ref', 'Register'}
COMPOSITE = {'Program', 'Switch', 'Loop'}

BASE = {
    'kinds': {'Equals': 6, 'Matches': 3, 'Program': 4, 'Switch': 3, 'Loop': 2, 'Optional': 2},
    'root': ['Program', 'Switch', 'Loop'],
    'depth': 3,
    'arity': [1, 2, 2, 3],
    'switch_arity': [2, 2, 3],
    'reps': 2,
    'alphabet': 'ab',
    'names': ['A', 'B', 'C'],
    'name_p': 0.25,
    'odd_names': ['L', 'L', 'M', 'Loop', 'Program', 'Switch', 'Equals', 'Matches', 'Error', 'Flatten', 'Catch', 'Pin', 'v', '*', ''],
    'via_p': 0.5,
    'fetch_p': 0.0,
    'window_p': 0.1,
    'runs': 3,
    'max_len': 10,
    'map_sf': ['tok', 'name', 'attr', 'val', 'skip', 'skip0', 'fail', 'prox', 'err', 'warn', 'own', 'put', 'see'],
    'map_ff': ['none', 'pass', 'skip0', 'fail', 'err', 'errtok', 'errat', 'only'],
    'emit': ['stop', 'skip', 'tok', 'cont', 'brk', 'fail'],
    'msgs': ['bad', 'no', 'x y'],
    'loop_names': ['', 'Loop', 'L', 'M'],
    'vars': ['v', 'w'],
    'keep_p': 0.0,
    'files': ['', 'f.txt'],
    'pins': ['', '+', '-', '+0', '+1', '-1', '0', '1', '2', '0..1', '1..3', '+0..+1', '+1..+1', '-1..+2',
             '0..', '+1..', '..3', '0..9', '20', '-9', '2..1', '..+2'],
    'bounds': [(0, -1), (1, -1), (2, -1), (0, 1), (0, 2), (1, 2), (2, 3), (0, 0), (3, 3), (1, 1), (2, 2)],
    'setscope_explicit': False,
    'main': [],
    'nt': [],
}


def profile(**kw):
    p = dict(BASE)
    p.update(kw)
    return p


class Gen:
    def __init__(self, rng, p):
        self.rng = rng
        p = dict(p)
        for k, options in p.get('vary', {}).items():
            p[k] = rng.choice(options)
        self.p = p
        self.b = B()
        self.scopes = 0
        self.hidden = []

    def pick(self, xs):
        return self.rng.choice(xs)

    def name(self):
        if self.rng.random() >= self.p['name_p']:
            return None
        # now and then a name that means something elsewhere
        return self.pick(self.p['names'] if self.rng.random() < 0.75 else self.p['odd_names'])

    def via(self):
        return 1 if self.rng.random() < self.p['via_p'] else 0

    def text(self, lo=1, hi=2):
        n = self.rng.randint(lo, hi)
        return ''.join(self.pick(self.p['alphabet']) for _ in range(n))

    def pat(self):
        r = self.rng.random()
        if r < self.p['fetch_p']:
            v = self.pick(self.p['vars'])
            return pat_f(v, self.pick(['', 'captured_value', 'captured_value', 'matched_value', 'start', 'end']))
        return pat_s(self.text())

    def regex(self):
        rng = self.rng
        alts = []
        for _ in range(1 if rng.random() < 0.7 else 2):
            alt = []
            if rng.random() < 0.1:
                alt.append(BOL)
            for _ in range(rng.randint(1, 3)):
                cs = [self.pick(self.p['alphabet']) for _ in range(rng.randint(1, 2))]
                mn, mx = self.pick([(1, 1), (1, 1), (0, 1), (0, -1), (1, -1), (1, 2), (2, 2)])
                alt.append(item(cs, mn, mx, neg=rng.random() < 0.15, lazy=rng.random() < 0.2))
            if rng.random() < 0.1:
                alt.append(EOL)
            alts.append(alt)
        return alts

    def weighted(self, leaf):
        ks = [(k, w) for k, w in self.p['kinds'].items() if not leaf or k in LEAVES]
        total = sum(w for _, w in ks)
        x = self.rng.random() * total
        for k, w in ks:
            x -= w
            if x < 0:
                return k
        return ks[-1][0]

    def node(self, depth, kind=None):
        rng, p, b = self.rng, self.p, self.b
        k = kind or self.weighted(depth <= 0)
        sub = lambda: self.node(depth - 1)
        if k == 'Equals':
            return b.add('Equals', n=self.name(), pat=self.pat(), via=self.via())
        if k == 'Matches':
            return b.add('Matches', n=self.name(), alts=self.regex(), via=self.via())
        if k == 'Sequence':
            a = self.pick(p.get('seq_starts', ['"', "'", '((', self.text(1, 1)]))
            e = self.pick(p.get('seq_ends', [a, ')', '))', self.text(1, 1)]))
            s = self.pick(p.get('seq_escapes', ['\\', '', '\\\\', self.text(1, 1), e]))
            return b.add('Sequence', n=self.name(), st=pat_s(a), en=pat_s(e), es=pat_s(s))
        if k in ('Program', 'Switch', 'Loop'):
            ch = [sub() for _ in range(rng.choice(p['arity'] if k != 'Switch' else p['switch_arity']))]
            if k == 'Loop':
                mn, mx = self.pick(p['bounds'])
                nm = self.pick(p['loop_names'][1:] + ['A', 'P']) if rng.random() < 0.4 else None
                return b.add('Loop', ch, n=nm, min=mn, max=mx, via=self.via())
            return b.add(k, ch, n=self.name(), via=self.via())
        if k in ('Not', 'Optional', 'Discard', 'ExpandRange'):
            return b.add(k, [sub()])
        if k == 'Flatten':
            return b.add(k, [sub()], n=self.name())
        if k == 'Null':
            return b.add('Null')
        if k == 'Fetch':
            return b.add('Fetch', n=self.pick(p['vars']))
        if k == 'Pin':
            ch = [sub()] if rng.random() < 0.75 else []
            if rng.random() < p['fetch_p'] * 2:
                off = pat_f(self.pick(p['vars']), self.pick(['start', 'end', 'range', 'captured_range', 'captured_start']))
            else:
                off = pat_s(self.pick(p['pins']))
            return b.add('Pin', ch, n=self.name(), off=off, via=self.via())
        if k == 'Store':
            return b.add('Store', [sub()], n=self.pick(p['vars']), via=self.via())
        if k == 'StoreS':
            return b.add('StoreS', n=self.pick(p['vars']), v=bs(self.text(0, 2)))
        if k == 'Ref':
            if rng.random() < p['fetch_p']:
                return b.add('Ref', n=self.name(), tgt=pat_f(self.pick(p['vars'])))
            if rng.random() < p.get('ref_direct_p', 0.0) and depth > 0:
                return b.add('Ref', n=self.name(), tgt=pat_m(sub()))
            return b.add('Ref', n=self.name(), tgt={'t': 'n', 'v': self.pick(p['names'] + p.get('ref_names', [])), 's': ''})
        if k == 'Register':
            return b.add('Register', [self.named(max(depth - 1, 0)) for _ in range(rng.randint(1, 2))])
        if k == 'SetScope':
            sx = 0
            if p['setscope_explicit'] and rng.random() < 0.5:
                sx = rng.randint(1, 2)
                self.scopes = 2
            return b.add('SetScope', [sub()], sx=sx)
        if k in ('Panic', 'Error'):
            return b.add(k, msg=bs(self.pick(p['msgs'])))
        if k in ('AssertIf', 'AssertIfNot', 'FatalIf', 'FatalIfNot'):
            return b.add(k, [sub()], msg=bs(self.pick(p['msgs'])))
        if k == 'Break':
            return b.add('Break', ln=self.pick(p['loop_names']), via=self.via())
        if k == 'Map':
            return b.add('Map', [sub()], sf=self.pick(p['map_sf']), ss=self.pick(p.get('map_ss', ['N', 'Loop', 'L'])),
                         sv=bs(self.pick(['x', 'yy', ''])), ff=self.pick(p['map_ff']), fm=bs(self.pick(p['msgs'])))
        if k == 'Catch':
            ffs = [f for f in p['map_ff'] if f not in ('none', 'note')] or ['pass']
            return b.add('Catch', [sub()], ff=self.pick(ffs), fm=bs(self.pick(p['msgs'])))
        if k == 'Debug':
            return b.add('Debug', [sub()] if rng.random() < 0.8 else [], mode=rng.randint(0, 3))
        if k == 'Emit':
            t = self.pick(p['emit'])
            pay = {'t': self.pick(['none', 'none', 'skip', 'tok', 'prox']), 'n': rng.randint(0, 2), 's': 'E'}
            if t in ('brk', 'cont'):
                res = {'t': t, 's': self.pick(p['loop_names']), 'p': pay, 'n': 0}
            else:
                res = {'t': t, 'n': rng.randint(0, 2), 's': 'E', 'p': {'t': 'none', 'n': 0, 's': ''}}
                if t == 'tok':
                    res['n'] = max(1, res['n'])
            return b.add('Emit', res=res, cns=rng.random() < 0.9)
        raise ValueError(k)

    def named(self, depth):
        """A matcher that is known by a name"""
        k = self.pick(['Equals', 'Matches', 'Program', 'Switch'])
        if depth <= 0:
            k = 'Equals'
        i = self.node(depth, k)
        self.b.g[i - 1]['n'] = self.pick(self.p['names'])
        self.b.g[i - 1]['cu'] = True
        return i

    EDITABLE = {'Program', 'Switch', 'Loop', 'Not', 'Optional', 'Discard', 'Flatten', 'ExpandRange', 'Map', 'Catch',
                'SetScope', 'Debug', 'AssertIf', 'AssertIfNot', 'FatalIf', 'FatalIfNot'}

    def editable(self, i):
        """Whether the children of node i can be replaced"""
        return self.b.g[i - 1]['k'] in self.EDITABLE

    # -- sources

    def sample(self, i, depth=0):
        """Some text that node i may match"""
        rng = self.rng
        n = self.b.g[i - 1]
        k = n['k']
        if depth > 12:
            return ''
        rec = lambda j: self.sample(j, depth + 1)
        if k == 'Equals':
            p = n['pat']
            return bytes(p['v']).decode() if p['t'] == 's' else self.text()
        if k == 'Matches':
            out = ''
            for it in rng.choice(n['alts']):
                if it['t'] != 'set':
                    continue
                m = it['min'] + rng.randint(0, 2)
                if it['max'] != -1:
                    m = min(m, it['max'])
                for _ in range(m):
                    r = rng.choice(it['rs'])
                    out += self.pick(self.p['alphabet']) if it['neg'] else chr(rng.randint(r[0], r[1]))
            return out
        if k == 'Sequence':
            a, e, s = (bytes(n[x]['v']).decode() for x in ('st', 'en', 'es'))
            out = a
            for _ in range(rng.randint(0, 3)):
                out += rng.choice([self.text(1, 1), self.text(1, 1), s + self.text(1, 1), s + e, s + s])
            return out + e
        if k == 'Program':
            return ''.join(rec(j) for j in n['ch'])
        if k == 'Switch':
            return rec(rng.choice(n['ch'])) if n['ch'] else ''
        if k == 'Loop':
            m = n['min'] + rng.randint(0, self.p['reps'])
            if n['max'] != -1:
                m = min(m, n['max'] + rng.randint(0, 1))
            return ''.join(rec(j) for _ in range(m) for j in n['ch'])
        if k in ('Not', 'AssertIf', 'FatalIf', 'AssertIfNot', 'FatalIfNot'):
            return self.text(0, 1) if rng.random() < 0.6 else rec(n['ch'][0])
        if k == 'Optional':
            return rec(n['ch'][0]) if rng.random() < 0.6 else ''
        if k == 'Pin':
            return ''
        if k == 'Ref':
            return self.text(0, 2)
        return ''.join(rec(j) for j in n['ch'])

    def source(self, root):
        rng = self.rng
        r = rng.random()
        text = self.sample(root) if r < 0.85 else self.text(0, 6)
        if rng.random() < 0.35:
            chars = list(text)
            for _ in range(rng.randint(1, 2)):
                op = rng.randint(0, 2)
                k = rng.randint(0, len(chars))
                if op == 0:
                    chars.insert(k, self.pick(self.p['alphabet']))
                elif chars and k < len(chars):
                    if op == 1:
                        del chars[k]
                    else:
                        chars[k] = self.pick(self.p['alphabet'])
            text = ''.join(chars)
        if rng.random() < 0.3:
            text += self.text(1, 2)
        return text[:self.p['max_len'] * 3]

    def make_run(self, root, first):
        rng = self.rng
        text = self.source(root)
        if len(text) > 1 and rng.random() < self.p['window_p']:
            # a window that may end anywhere
            i, j = (0 if rng.random() < .5 else rng.randint(0, len(text))), rng.randint(0, len(text))
            i, j = min(i, j), max(i, j)
            lo = len(text[:i].encode())
            return run(text, lo, lo + len(text[i:j].encode()))
        if rng.random() < self.p['window_p']:
            pre, post = self.text(0, 2), self.text(0, 2)
            full = pre + text + post
            lo = len(pre.encode())
            return run(full, lo, lo + len(text.encode()))
        return run(text)

    def make_case(self):
        rng, p = self.rng, self.p
        root = self.node(p['depth'], self.pick(p['root']) if p['root'] else None)
        for _ in range(p.get('main_named', 0)):
            self.hidden.append(self.named(p['depth'] - 1))
        main = list(p['main'])
        for i in self.hidden:
            main.append({'n': self.pick(p['names']), 't': 'mat', 'i': i, 'reg': rng.random() < 0.5, 'v': []})
        if p.get('main_vars'):
            for v in p['vars']:
                if rng.random() < 0.7:
                    main.append({'n': v, 't': 'str', 'i': 0, 'reg': False, 'v': bs(self.text(0, 2))})
        scopes = []
        for _ in range(self.scopes):
            levels = []
            for _ in range(rng.randint(0, 2)):
                lv = []
                for v in p['vars']:
                    if rng.random() < 0.5:
                        lv.append({'n': v, 't': 'str', 'i': 0, 'reg': False, 'v': bs(self.text(1, 2))})
                for nm in p['names']:
                    if rng.random() < 0.5 and p.get('main_named'):
                        lv.append({'n': nm, 't': 'mat', 'i': self.named(1), 'reg': False, 'v': []})
                levels.append(lv)
            scopes.append(levels)
        runs = []
        for k in range(rng.randint(1, p['runs'])):
            r = self.make_run(root, k == 0)
            if k > 0 and rng.random() < p['keep_p']:
                prev = runs[-1]
                r = dict(prev, keep=True, ops=[])
            elif k > 0 and rng.random() < p.get('repeat_p', 0):
                r = dict(rng.choice(runs), keep=False, ops=[])
            runs.append(r)
        if p.get('edits'):
            for r in runs:
                if rng.random() < 0.7:
                    r['ops'] = p['edits'](self, root)
        watch = list(p['vars']) if p.get('watch') else []
        if p.get('watch_names'):
            watch += p['names']
        return case(self.b, root, runs, scopes, main, watch, self.pick(p['files']), p['nt'])


def cases(p, seed, n):
    out = []
    for k in range(n):
        rng = random.Random('%s-%d' % (seed, k))
        out.append(Gen(rng, p).make_case())
    return out
