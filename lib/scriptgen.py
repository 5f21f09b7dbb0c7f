"""Random scripts, as texts: spec/Script.tla reads them, spec/Compile.tla says what they mean."""
import random

NAMES = ['A', 'B', 'C', 'x1', '$y', '_z', 'Program', 'as', 'import', 'from', 'a$b', 'Z9_$']
TOKEN_NAMES = ['X', 'Y', 'A', 'Program', 'Equals', 'a b', 'Error', "it\\'s", '', '3']
ATTRIBUTES = ['k', 'l', 'key', 'k', 'x+1', '9', 'version', 'name', 'K_']
VALUES = ['1', '2', '', 'a b', "\\'", '\\\\', 'é', '>', '1']


def nothing(d):
    return ''


class Writer:
    def __init__(self, rng, kind):
        self.rng, self.kind = rng, kind
        self.layout = rng.choice([0, 0, .3, .7])
        self.defined = []
        self.sample = {}
        self.wild = kind in ('C24', 'C28')

    def ws(self):
        r = self.rng
        if r.random() >= self.layout:
            return ''
        return r.choice([' ', ' ', '  ', '\n', '\t', '\r\n', '\u00a0', ' \n '])

    def blank(self):
        return self.rng.choice([' ', '\t ']) if self.rng.random() < self.layout else ''

    def comment(self):
        r = self.rng
        if r.random() < self.layout * .5:
            return '#' + r.choice(['', ' c', " <='a'>", "'(", '#-->', ' é']) + r.choice(['\n', '\r\n', '\r', '\n\n'])
        return ''

    def text(self, empty=0.0):
        r = self.rng
        if r.random() < empty:
            return ''
        return r.choice(['a', 'b', 'a', 'b', 'ab', 'ba', 'aa', '\\a', "\\'", 'c', 'é'] if r.random() < .3 else ['a', 'b', 'a', 'b', 'ab'])

    def regex(self):
        r = self.rng
        atoms = ['a', 'b', '[ab]', '[^a]', '.', 'a', 'b', '\\w', '[a-b]', '\\s', '[^b\\n]', 'é', '\\.', '[/a]', '[\\]a]']
        if not self.wild:
            return r.choice(['a', 'b', '[ab]', '[^a]', '.', 'a+', 'b*', '[ab]{2}', 'a?b', 'a|ab', '\\w', 'é?a'])
        if r.random() < .12:
            atoms += ['(a)', '^', '$', '[', '*', '\\q', '(', '[b-a]', '\\', '[]', '{2']
        out = []
        for _ in range(r.choice([1, 1, 2, 2, 3])):
            s = r.choice(atoms) + r.choice(['', '', '', '', '*', '+', '?', '{2}', '{1,2}', '{1,}', '*?', '+?', '{2,1}' if r.random() < .1 else ''])
            out.append(s)
            if r.random() < .1:
                out.append('|')
        return ''.join(out) if r.random() > .02 else ''

    def reference(self):
        r = self.rng
        if self.defined and r.random() < .85:
            n = r.choice(self.defined)
        else:
            n = r.choice(NAMES)
        return n, lambda d: self.sample.get(n, nothing)(d - 1) if d > 0 else ''

    # what follows gives the text of something, and a function that makes texts that might match it

    def matcher(self, depth):
        r = self.rng
        x = r.random()
        if depth > 0 and x < .4:
            n = r.choice([1, 2, 2, 2, 3])
            kids = [self.pattern(depth - 1) for _ in range(n)]
            if r.random() < .5:
                return ('[' + '|'.join(self.ws() + k + self.ws() for k, _ in kids) + ('|' if r.random() < .05 else '') + ']',
                        lambda d: r.choice(kids)[1](d))
            return '{' + ''.join(self.ws() + k for k, _ in kids) + self.ws() + '}', lambda d: ''.join(f(d) for _, f in kids)
        if x < .65:
            t = self.text(.02 if self.wild else 0)
            return "='%s'" % t, lambda d: t.replace('\\', '')
        if x < .8:
            return ('/%s/%s' % (self.regex(), r.choice(['', '', '', 'i', 's', 'U', 'is', 'm', 'ii' if r.random() < .1 else '']
                                                      if self.wild else ['', '', '', 's', 'U'])),
                    lambda d: r.choice(['a', 'b', 'ab', 'aa', 'bb']))
        if x < .88:
            a, b, c = self.text(.02 if self.wild else 0), self.text(.02 if self.wild else 0), self.text(.5)
            return ('%' + (self.ws() + ',').join(self.ws() + "'%s'" % t for t in [a, b, c]),
                    lambda d: a.replace('\\', '') + r.choice(['', 'a', 'b']) + b.replace('\\', ''))
        return self.reference()

    def attributes(self, p):
        r = self.rng
        out = []
        while r.random() < p and len(out) < 3:
            n = r.choice(ATTRIBUTES)
            if r.random() < (.03 if self.kind in ('C26', 'C28') else 0):
                n = '_' + n
            out.append(n + self.blank() + '=' + self.blank() + "'" + r.choice(VALUES) + "'")
        return (' ' + self.ws()).join(out)

    def repeat(self):
        r = self.rng
        b = self.blank
        return r.choice(['*', '+', '*', '+', '{' + b() + str(r.randint(0, 3)) + b() + '}',
                         '{' + b() + str(r.randint(0, 3)) + b() + ',' + b() + '}',
                         '{%d%s,%s%d%s}' % (r.randint(0, 2), b(), b(), r.randint(1, 4), b()),
                         '{%d,%d}' % (r.randint(0, 3), r.randint(0, 3) if self.kind in ('C25', 'C28') else 3), '{007}' if r.random() < .2 else '{1}'])

    def definition(self, depth):
        r = self.rng
        p = {'C25': .45, 'C26': .15, 'C24': .12}.get(self.kind, .2)
        mark = lambda q: r.choice('??!') if r.random() < q else ''
        m, f = self.matcher(depth)
        at = self.attributes(.5 if self.kind == 'C26' else .08)
        if at:
            m += ' ' if m[-1].isalnum() or r.random() < .5 or m[0] == '/' else ''
        oo, io = mark(p * .8), mark(p * .8)
        rep = self.repeat() if r.random() < p else ''

        def sample(d):
            if '!' in oo + io:
                return ''
            n = r.choice([0, 1, 2, 3]) if rep else 1
            if (oo or io) and r.random() < .3:
                n = 0
            return ''.join(f(d) for _ in range(n))
        return (oo + '<' + io + self.ws() + m + self.ws() + at + (self.ws() if at else '') + '>' + rep), sample

    def pattern(self, depth):
        r = self.rng
        if r.random() < .3:
            return self.definition(depth)
        n = ''
        if r.random() < (.5 if self.kind == 'C26' else .1):
            n = "?'" + r.choice(TOKEN_NAMES) + "'" + self.ws()
        t, f = self.definition(depth)
        return '(' + self.ws() + n + t + self.ws() + ')', f

    def statement(self, n, depth):
        r = self.rng
        s = n + self.ws() + '=' + self.ws()
        t, f = self.reference() if r.random() < .2 else self.definition(depth)
        self.sample[n] = f
        return s + t

    def gap(self):
        return self.ws() + self.comment() + self.ws()

    def statements(self, imports):
        r = self.rng
        n = r.choice([0, 1, 2, 3, 4])
        names = [r.choice(NAMES[:3] if r.random() < .8 else NAMES) for _ in range(n)]
        self.defined = names + [y for _, ids in imports for _, y in ids]
        rest = ["import" + self.blank() + '{' + ', '.join(x if x == y else x + ' as ' + y for x, y in ids)
                + '}' + self.blank() + 'from' + self.blank() + "'" + f + "'" for f, ids in imports]
        rest += [self.statement(x, r.choice([0, 0, 1])) for x in names]
        if self.kind != 'C27' or r.random() < .3:
            r.shuffle(rest)
        return ''.join(self.gap() + x + ' ' + self.gap() for x in rest)

    def script(self, imports=(), header=None):
        r = self.rng
        if header is None:
            header = r.random() < (.95 if self.kind in ('C26', 'C27') else .6)
        head = ''
        if header:
            at = ["version" + self.blank() + "='%s'" % r.choice(['1', '1', '1', '2', '+3'])]
            if r.random() < (.03 if self.wild else .005):
                at = []
            if r.random() < (.5 if self.kind == 'C26' else .15):
                at.append("name='%s'" % r.choice(TOKEN_NAMES))
            if r.random() < .1:
                at.append("%s='%s'" % (r.choice(ATTRIBUTES), r.choice(VALUES)))
            r.shuffle(at)
            head = '<!--[adextopa' + r.choice([' ', ' ', '']) + ' '.join(at) + ']' + self.statements(list(imports)) + self.ws() + '-->'
        depth = r.choice([0, 1, 1, 2, 2, 3])
        n = r.choice([1, 1, 2, 3]) if not header or r.random() < .97 else 0
        ps = [self.pattern(depth) for _ in range(n)]
        self.sample['_'] = lambda d: ''.join(f(d) for _, f in ps) if d > 0 else ''
        return self.gap() + head + ''.join(self.gap() + t for t, _ in ps) + self.gap()


SOUP = ['<', '>', '(', ')', '[', ']', '{', '}', '|', '!', '?', '*', '+', "'", "='a'", '/a/', '/', '%', ',', '=', '#', '\n', ' ', 'A',
        'import', 'from', ' as ', '-->', '<!--', '<!--[adextopa', "version='1'", '\\', '{1,2}', '{2', "k='v'", 'é', "?'N'", '\x00', '_', '\ufeff', '\u2028', '\x85']


def damaged(rng, s):
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        p = rng.randint(0, len(s))
        q = min(len(s), p + rng.choice([0, 1, 1, 2, 5]))
        x = rng.random()
        if x < .35:
            s = s[:p] + s[q:]
        elif x < .7:
            s = s[:p] + rng.choice(SOUP) + s[q:]
        elif x < .85:
            a = rng.randint(0, len(s))
            s = s[:p] + s[a:a + rng.randint(1, 12)] + s[p:]
        else:
            s = s[:p]
    return s


def runs(rng, n, sample):
    out = ['']
    for k in range(n):
        r = rng.random()
        if k % 2:
            t = sample(5)
            if r < .2:
                p = rng.randint(0, len(t))
                t = t[:p] + rng.choice('ab') + t[p + rng.choice([0, 1]):]
            elif r < .5:
                t = rng.choice(['', 'b', 'a']) + t + rng.choice(['', 'a', 'ab'])
            if len(t) <= 40:
                out.append(t)
            continue
        alphabet = 'ab' if r < .8 else 'aab' if r < .9 else 'abcé '
        out.append(''.join(rng.choice(alphabet) for _ in range(rng.choice([1, 2, 2, 3, 3, 4, 5, 6, 8]))))
    return [list(x.encode()) for x in dict.fromkeys(out)]


def files(rng):
    names = rng.sample(['b', 'c', 'd/b', 'd/e', 'f/g/h', 'm.axo'], rng.choice([1, 2, 3, 3]))
    names = [rng.choice(['main', 'main', 'd/main'])] + names
    out = []
    defined = {}
    samples = {}
    for i in reversed(range(len(names))):
        here = names[i]
        later = names[i + 1:]
        imports = []
        froms = []
        for _ in range(rng.choice([1, 1, 2, 2]) if later else 0):
            f = rng.choice(later)
            if rng.random() < .02:
                f = rng.choice(names + ['none', 'd'])
            ids = []
            for _ in range(rng.choice([1, 1, 2, 3])):
                known = defined.get(f)
                x = rng.choice(known) if known and rng.random() < .98 else '_' if rng.random() < .9 else 'Q'
                if rng.random() < .2:
                    x = '_'
                y = x if rng.random() < .4 and x != '_' else rng.choice(['A', 'B', 'C', 'X'])
                if x == '_' and rng.random() < .01:
                    y = '_'
                ids.append((x, y))
            up = '../' * here.count('/')
            path = up + f
            if here.startswith('d/') and f.startswith('d/') and rng.random() < .5:
                path = f[2:]
            if rng.random() < .15:
                path = './' + path
            imports.append((path, ids))
            froms.append(f)
        w = Writer(rng, 'C27')
        for f, (path, ids) in zip(froms, imports):
            for x, y in ids:
                w.sample[y] = samples.get(f, {}).get(x, nothing)
        s = w.script(imports, header=True if imports or rng.random() < .8 else None)
        defined[here] = list(dict.fromkeys(w.defined))
        samples[here] = w.sample
        out.append({'n': list(here.encode()), 's': list(s.encode())})
    return out[::-1], w.sample['_']


def cases(kind, seed, n):
    rng = random.Random(seed)
    out = []
    for i in range(n):
        if kind == 'C27':
            fs, sample = files(rng)
        else:
            w = Writer(rng, kind)
            s = w.script()
            sample = w.sample['_']
            if kind == 'C28' and rng.random() < .95:
                s = damaged(rng, s)
            if kind == 'C28' and rng.random() < .15:
                s = ''.join(rng.choice(SOUP) for _ in range(rng.randint(1, 14)))
            fs = [{'n': [], 's': list(s.encode())}]
        rs = runs(rng, 14 if kind != 'C28' else 4, sample)
        out.append({'id': i + 1, 'inline': kind != 'C27', 'files': fs, 'runs': rs})
    return out
