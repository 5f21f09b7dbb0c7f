"""Random cases for the interface modules: longer, and with other arguments, than those enumerated."""
import random


def bs(s):
    return list(s.encode())


def lines(rng):
    parts = rng.choice([['a', '\n', '\r', 'é'], ['a', 'b', '\n'], ['ab', '\r\n', '\n', '\r', '€'], ['\r', '\n'], ['a', '\t', '😀', '\r\n', '\u2028', '\x0b', '\x85']])
    n = rng.choice([0, 3, 8, 8, 14, 20])
    return {'m': 'lines', 'src': bs(''.join(rng.choice(parts) for _ in range(rng.randint(0, n)))), 'file': bs(rng.choice(['', 'a.txt', 'dir/é'])),
            'msg': bs(rng.choice(['', 'bad', 'x\ny', '€']))}


def visits(rng):
    n = rng.choice([1, 3, 6, 10, 18, 18, 40])
    names = ['A', 'B', 'C', '*', '', 'a', 'AB', 'Error']
    deep = rng.choice([.3, .5, .5, .9])
    depth = [1]
    while len(depth) < n:
        depth.append(rng.randint(2, depth[-1] + 1) if rng.random() < .5 else min(depth[-1] + 1, rng.randint(2, 40)) if rng.random() < deep else 2)
    ns = rng.sample(names, rng.randint(1, 4))
    return {'m': 'visits', 'depth': depth, 'name': [rng.choice(ns) for _ in depth], 'hooks': [rng.choice(names[:5] + ns) for _ in range(rng.randint(0, 5))],
            'stop': rng.choice([0, 0, 0, 1, 2, rng.randint(1, n + 2)]), 'dress': rng.randint(0, 7),
            'from': [1] if rng.random() < .6 else [rng.randint(1, n) for _ in range(rng.randint(1, 3))]}


def swarm(rng, kinds):
    """The kinds of operations of one history: all, or a few of them (so that long histories of few kinds are tried)"""
    return kinds if rng.random() < .5 else rng.choices(kinds, k=rng.randint(2, 5))


def scopes(rng):
    ops = []
    kinds = swarm(rng, ['new', 'push', 'push', 'push', 'pop', 'pop', 'set', 'set', 'set', 'sset', 'copy', 'pset', 'reg', 'regn', 'regs', 'regm', 'rename'])
    few = rng.choice([1, 4, 4])
    for _ in range(rng.randint(3, 25)):
        o = rng.choice(kinds)
        v = {'t': 'none', 'v': 0}
        a = rng.randint(1, few)
        b = rng.randint(1, 6)
        if o == 'sset':
            a = rng.randint(1, 6)
        if o in ('set', 'sset', 'pset'):
            t = rng.choice(['str', 'tok', 'mat'])
            v = {'t': t, 'v': rng.randint(1, 2 if t != 'str' else 9)}
        if o in ('reg', 'regn', 'regs', 'regm', 'rename'):
            a = rng.randint(1, 2)
            b = rng.randint(1, 2)
        ops.append({'o': o, 'a': a, 'b': b, 'n': rng.choice(['v', 'w']), 'v': v})
    return {'m': 'scopes', 'ops': ops}


def tokens(rng):
    src = rng.choice([b'a\xc3\xa9\nb', 'aéb€d'.encode(), b'abcdefgh', 'ééé'.encode()])
    while len(src) < 5:
        src += b'z'
    ops = []
    n = len(src)
    kinds = swarm(rng, ['name', 'crange', 'crange', 'mrange', 'mrange', 'crmut', 'mrmut', 'value', 'value', 'cvalue', 'mvalue', 'attr', 'attr', 'attr', 'setf', 'enf', 'disf',
                        'child', 'child', 'children', 'parent'])
    few = rng.choice([1, 3, 3])
    for _ in range(rng.randint(3, 20)):
        o = rng.choice(kinds)
        op = {'t': rng.randint(1, few), 'o': o, 'a': 0, 'b': 0, 's': '', 'v': [], 'l': []}
        if o in ('crange', 'mrange', 'crmut', 'mrmut'):
            op['a'] = rng.randint(0, n + 1)
            op['b'] = rng.randint(0, n + 3)
        elif o == 'name':
            op['s'] = rng.choice(['A', 'B', 'P', 'XA', 'AB', 'ab', ''])
        elif o in ('value', 'cvalue', 'mvalue'):
            op['v'] = bs(rng.choice(['', 'x', 'é', 'long text']))
        elif o == 'attr':
            op['s'] = rng.choice(['k', 'K', '__value', '__matched_value'])
            op['v'] = bs(rng.choice(['', 'x', 'é', 'y']))
        elif o in ('setf', 'enf', 'disf'):
            op['a'] = rng.randint(0, 255)
        elif o == 'child':
            op['a'] = rng.randint(1, 3)
        elif o == 'children':
            op['l'] = [rng.randint(1, 3) for _ in range(rng.randint(0, 4))]
        elif o == 'parent':
            op['a'] = rng.randint(0, 3)
        ops.append(op)
    return {'m': 'tokens', 'src': list(src), 'ops': ops}


def contexts(rng):
    src = ''.join(rng.choice(rng.choice(['ab', 'abé', 'aé\n', 'é€a'])) for _ in range(rng.randint(0, 10))).encode()
    n = len(src)
    ops = []
    kinds = swarm(rng, ['start', 'start', 'end', 'end', 'offset', 'clone', 'clone', 'push', 'push', 'pop', 'debug', 'var'])
    few = rng.choice([1, 2, 4, 4])
    again = 0
    for _ in range(rng.randint(3, 18)):
        if again:
            again -= 1
            c = ops[-1]['c']
        else:
            o, c = rng.choice(kinds), rng.randint(1, few)
            again = rng.choice([0, 0, 0, 1, 3])
        a = rng.randint(0, n) if o in ('start', 'end', 'offset') else rng.randint(1, 3)
        ops.append({'o': o, 'c': c, 'a': a, 'b': rng.randint(0, n)})
    return {'m': 'contexts', 'src': list(src), 'ops': ops}


def cases(kind, seed, n):
    rng = random.Random(seed)
    out = []
    for i in range(n):
        c = {'lines': lines, 'visits': visits, 'scopes': scopes, 'tokens': tokens, 'contexts': contexts}[kind](rng)
        c['id'] = i + 1
        out.append(c)
    return out
