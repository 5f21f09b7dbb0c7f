"""Cases for the engine: grammars as tables of nodes (see spec/Engine.tla), and random ones."""
import random

DEFAULT = {
    'ExpandRange': 'Catch', 'Panic': 'Error', 'AssertIf': 'Map', 'AssertIfNot': 'Map',
    'FatalIf': 'Map', 'FatalIfNot': 'Map',
}


def bs(text):
    return list(text.encode('utf-8')) if isinstance(text, str) else list(text)


def pat_s(text):
    return {'t': 's', 'v': bs(text), 's': ''}


def pat_f(name, sub=''):
    return {'t': 'f', 'v': name, 's': sub}


def pat_m(i):
    return {'t': 'm', 'v': i, 's': ''}


def item(ranges, mn=1, mx=1, neg=False, lazy=False):
    rs = []
    for r in ranges:
        if isinstance(r, str):
            r = (ord(r), ord(r))
        rs.append([r[0], r[1]])
    return {'t': 'set', 'neg': neg, 'rs': rs, 'min': mn, 'max': mx, 'lazy': lazy}


BOL = {'t': 'bol'}
EOL = {'t': 'eol'}


def render_regex(alts):
    out = []
    for alt in alts:
        text = ''
        for it in alt:
            if it['t'] == 'bol':
                text += '^'
                continue
            if it['t'] == 'eol':
                text += '$'
                continue
            text += '[' + ('^' if it['neg'] else '')
            for lo, hi in it['rs']:
                text += '\\x{%x}-\\x{%x}' % (lo, hi)
            text += ']'
            mn, mx = it['min'], it['max']
            if (mn, mx) == (1, 1):
                q = ''
            elif (mn, mx) == (0, -1):
                q = '*'
            elif (mn, mx) == (1, -1):
                q = '+'
            elif (mn, mx) == (0, 1):
                q = '?'
            elif mx == -1:
                q = '{%d,}' % mn
            else:
                q = '{%d,%d}' % (mn, mx)
            if q and it['lazy']:
                q += '?'
            text += q
        out.append(text)
    return '|'.join(out)


class B:
    """A grammar under construction"""

    def __init__(self):
        self.g = []

    def add(self, k, ch=(), n=None, **kw):
        cu = n is not None
        if k in ('Store', 'StoreS'):
            cu = True
        if k == 'Fetch':
            cu = False
        node = {'k': k, 'n': n if n is not None else DEFAULT.get(k, k), 'cu': cu, 'ch': list(ch)}
        node.update(kw)
        self.g.append(node)
        return len(self.g)

    def eq(self, text, n=None, via=0):
        return self.add('Equals', n=n, pat=pat_s(text), via=via)

    def re(self, alts, n=None, via=0):
        return self.add('Matches', n=n, alts=alts, via=via)

    def seq(self, a, b, c, n=None):
        return self.add('Sequence', n=n, st=pat_s(a), en=pat_s(b), es=pat_s(c))

    def program(self, ch, n=None, via=0):
        return self.add('Program', ch, n=n, via=via)

    def switch(self, ch, n=None, via=0):
        return self.add('Switch', ch, n=n, via=via)

    def loop(self, ch, mn=0, mx=-1, n=None, via=0):
        return self.add('Loop', ch, n=n, min=mn, max=mx, via=via)

    def w(self, k, child, **kw):
        return self.add(k, [child], **kw)


def run(src, lo=None, hi=None, keep=False, ops=()):
    src = bs(src)
    full = lo is None
    return {'src': src, 'lo': 0 if full else lo, 'hi': len(src) if full else hi, 'full': full,
            'keep': keep, 'ops': list(ops)}


def case(b, root, runs, scopes=(), main=(), watch=(), file='', nt=()):
    return {'g': b.g, 'root': root, 'runs': list(runs), 'scopes': list(scopes), 'main': list(main),
            'watch': list(watch), 'file': bs(file), 'nt': list(nt)}


def finish(c, cid, probe):
    """The case as the harness gets it"""
    c = dict(c)
    c['id'] = cid
    c['probe'] = probe
    g = []
    for i, node in enumerate(c['g']):
        node = dict(node)
        # by macro, or by constructor
        node.setdefault('via', (cid + i) % 2)
        if node['k'] == 'Matches':
            node['re'] = bs(render_regex(node['alts']))
        g.append(node)
    c['g'] = g
    if probe and not c['nt']:
        names = {n['n'] for n in g} | {v['n'] for v in c['main']} | {v['n'] for sc in c['scopes'] for lv in sc for v in lv}
        names |= {op['s'] for r in c['runs'] for op in r['ops']}
        c['nt'] = [[bs(n), n] for n in sorted(names)]
    return c
