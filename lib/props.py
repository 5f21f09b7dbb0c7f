"""What is explored for each property: families of spec/Catalog.tla, and profiles of random cases."""
from gen import profile
from gen import B  # noqa: F401

SIZES = {'depth': [2, 2, 3, 3, 3, 4], 'reps': [2, 2, 2, 5, 5, 20], 'max_len': [10, 10, 10, 24, 40], 'window_p': [0, 0, .1, .3]}
WIDE = dict(SIZES, alphabet=['ab', 'ab', 'ab', 'abc', 'aé', 'ab\n', 'aAb', 'a\ufeff', 'a \r\n\t'])
ASCII = dict(SIZES, alphabet=['ab', 'ab', 'abc'])


def K(**kw):
    return kw


def P(kinds, **kw):
    kw['vary'] = {k: v for k, v in kw.get('vary', WIDE).items() if k not in kw}
    return profile(kinds=kinds, **kw)


# a little of everything, everywhere
RARE = dict(Null=.2, Break=.15, Emit=.2, Pin=.2, Store=.2, StoreS=.1, Register=.1, SetScope=.2, ExpandRange=.2, Panic=.1, Error=.3,
            AssertIf=.15, AssertIfNot=.15, FatalIf=.1, FatalIfNot=.1, Map=.2, Catch=.2, Debug=.15, Ref=.05)
CORE = dict(RARE, Equals=6, Matches=2, Program=4, Switch=2, Loop=2, Optional=2, Discard=1, Flatten=1, Not=1, Sequence=1)


def core(**kw):
    d = dict(CORE)
    d.update(kw)
    return {k: v for k, v in d.items() if v}


def edits(g, root):
    """Edits of the matcher tree: names, children, more patterns"""
    rng, b = g.rng, g.b
    ops = []
    for _ in range(rng.randint(1, 3)):
        ids = list(range(1, len(b.g) + 1))
        r = rng.random()
        if r < 0.4:
            i = rng.choice(ids)
            ops.append({'op': 'name', 'i': i, 's': rng.choice(['N1', 'N2', b.g[i - 1]['k'], 'A']), 'x': 0, 'j': 0})
            continue
        new = g.node(1, rng.choice(['Equals', 'Equals', 'Matches', 'Program', 'Sequence']))
        if r < 0.75:
            t = [i for i in ids if b.g[i - 1]['k'] in ('Program', 'Switch', 'Loop', 'Register')]
            if t:
                ops.append({'op': 'add', 'i': rng.choice(t), 's': '', 'x': 0, 'j': new})
        else:
            t = [i for i in ids if b.g[i - 1]['ch'] and b.g[i - 1]['k'] != 'Debug']
            t = [i for i in t if g.editable(i)]
            if t:
                i = rng.choice(t)
                n = len(b.g[i - 1]['ch'])
                ops.append({'op': 'child', 'i': i, 's': '', 'x': rng.randrange(n), 'j': new})
    return ops


# id -> families [(name, quick limit)], random [(tag, profile, quick n)]
ENGINE = {
    'C01': dict(
        families=['C01', 'C01n'],
        crossed=['C01l', 'C01x', 'C01y'],
        random=[('sequences', P(core(Program=8, Null=1, Switch=1, Loop=1), arity=[1, 2, 2, 3, 4, 5], window_p=.2), 1500)]),
    'C02': dict(
        families=['C02', 'C02p'],
        crossed=['C02l', 'C02x', 'C02y'],
        random=[('switches', P(core(Switch=9, Null=1, Loop=1), root=['Switch', 'Switch', 'Program'],
                               switch_arity=[1, 2, 2, 3, 4, 5]), 1500)]),
    'C03': dict(
        families=['C03', 'C03n'],
        crossed=['C03l', 'C03m', 'C03x', 'C03y'],
        random=[('loops', P(core(Loop=8, Sequence=0), root=['Loop', 'Loop', 'Program'],
                            bounds=[(0, -1), (1, -1), (2, -1), (3, -1), (0, 1), (0, 2), (1, 2), (2, 3), (0, 0), (3, 3),
                                    (1, 1), (2, 2), (1, 4), (2, 5), (4, 6), (0, 7)], vary=dict(WIDE, depth=[2, 2, 3])), 1500)]),
    'C04': dict(
        families=['C04'],
        crossed=['C04x'],
        random=[('empty', P(core(Loop=8, Null=4, Optional=4, Not=3, Emit=2, Matches=4), root=['Loop', 'Program'],
                            emit=['skip', 'skip', 'cont', 'brk', 'tok'], loop_names=['', 'Loop', 'L']), 1500)]),
    'C05': dict(
        families=['C05'],
        crossed=['C05x'],
        random=[('jumps', P(core(Loop=7, Break=5, Switch=4, Emit=4, Sequence=0), emit=['cont', 'brk', 'cont', 'stop'],
                            root=['Loop', 'Loop', 'Program'], loop_names=['', 'Loop', 'L', 'M'],
                            names=['L', 'M', 'Loop', 'P'], name_p=.4), 1800)]),
    'C06': dict(
        families=['C06'],
        crossed=['C06l', 'C06x'],
        random=[('texts', P(dict(Equals=4, Matches=6, Program=2, Switch=1, Loop=1), depth=1, window_p=.5, runs=5,
                            vary={'alphabet': ['ab', 'abc', 'aé', 'a\n', 'aA.', 'é€😀', 'a\ufeff', 'a \t', '\u00a0a', 'İiı', 'ßs']}), 2000)]),
    'C07': dict(
        families=['C07'],
        crossed=['C07l', 'C07v', 'C07x'],
        random=[('strings', P(dict(Sequence=8, Equals=1, Program=1, Loop=1), depth=1, runs=5, window_p=.3,
                              seq_starts=['"', "'", '((', '<', 'é', '"""'], seq_ends=['"', "'", '))', '>', 'é', '"""', 'ab'],
                              seq_escapes=['\\', '', '\\\\', '"', '%', 'é'],
                              vary={'alphabet': ['ab"', 'a\\"', "a'\\", 'é"\\', 'a)(', '€a"\\']}), 2000)]),
    'C08': dict(
        families=['C08', 'C08s'],
        crossed=['C08x', 'C08y'],
        random=[('lookahead', P(core(Not=6, Optional=6, Null=3)), 1500)]),
    'C09': dict(
        families=['C09', 'C09e'],
        crossed=['C09d', 'C09x', 'C09y'],
        random=[('discards', P(core(Discard=8, Error=4, AssertIf=2, AssertIfNot=2, Break=1, Emit=1, ExpandRange=1),
                               emit=['cont', 'brk', 'tok', 'skip']), 1500)]),
    'C10': dict(
        families=['C10', 'C10n'],
        crossed=['C10x', 'C10y'],
        random=[('flattened', P(core(Flatten=7, ExpandRange=4, Sequence=2, Break=.5, Emit=1),
                                emit=['cont', 'brk', 'tok', 'stop']), 1500)]),
    'C11': dict(
        families=['C11'],
        crossed=['C11l', 'C11n', 'C11x', 'C11y'],
        random=[('pins', P(core(Pin=8, Loop=.5, Matches=1), vary=ASCII, window_p=.3), 1500),
                ('pinned variables', P(core(Pin=7, Store=5, StoreS=1), vary=ASCII, fetch_p=.4, watch=True, root=['Program']), 800)]),
    'C12': dict(
        families=['C12', 'C12p'],
        crossed=['C12v', 'C12w', 'C12x', 'C12y'],
        random=[('variables', P(core(Store=7, StoreS=3, Equals=8), fetch_p=.5, main_vars=True, watch=True, keep_p=.3), 1800)]),
    'C13': dict(
        families=['C13'],
        crossed=['C13l', 'C13x'],
        random=[('references', P(core(Ref=7, Register=2, Sequence=0), name_p=.6, main_named=2, watch_names=True,
                                 ref_direct_p=.3, ref_names=['Program', 'Switch'], keep_p=.2), 1500),
                ('references and variables', P(core(Ref=6, Register=2, Store=2.5, StoreS=1, Sequence=0), name_p=.5, main_named=1, main_vars=True, watch=True,
                                               vars=['v', 'A'], names=['A', 'B', 'v'], ref_names=['Program', 'v'], odd_names=['v', 'Program', 'L']), 900)]),
    'C14': dict(
        families=['C14', 'C14r'],
        crossed=['C14x', 'C14y'],
        random=[('scopes', P(core(SetScope=7, Store=3, StoreS=4, Ref=3, Break=1, Map=1.5), fetch_p=.4, name_p=.4, main_vars=True, main_named=1,
                             map_sf=['put', 'see'], map_ff=['none', 'note'], map_ss=['v', 'w'],
                             watch=True, watch_names=True, setscope_explicit=True, keep_p=.4), 1800)]),
    'C15': dict(
        families=['C15', 'C15c'],
        crossed=['C15r', 'C15x', 'C15y'],
        random=[('fatal', P(core(Panic=3, FatalIf=2, FatalIfNot=2, Catch=1, Map=1, SetScope=.5, Store=.5, ExpandRange=.5, Debug=.3),
                            map_sf=['tok', 'err', 'fail'], map_ff=['none', 'pass', 'skip0', 'err', 'only'], window_p=.3), 1800)]),
    'C16': dict(
        families=['C16', 'C16d'],
        crossed=['C16l', 'C16x', 'C16y'],
        random=[('errors', P(core(Error=5, AssertIf=3, AssertIfNot=3, Catch=1, ExpandRange=.5),
                             map_ff=['errtok', 'errat', 'errtok', 'skip0']), 1500)]),
    'C17': dict(
        families=['C17', 'C17e'],
        crossed=['C17l', 'C17r', 'C17x'],
        random=[('trees', P(core(ExpandRange=1, Null=1, Error=.7, Pin=.5, Sequence=3), window_p=.3), 1800)]),
    'C18': dict(
        families=['C18', 'C18d', 'C18v'],
        crossed=['C18x', 'C18y'],
        random=[('functions', P(core(Map=7, Catch=4, Panic=.7, Error=.5),
                                map_sf=['tok', 'name', 'attr', 'val', 'skip', 'skip0', 'fail', 'prox', 'err', 'brk', 'cont', 'warn', 'own', 'put', 'see'],
                                map_ff=['none', 'pass', 'note', 'skip0', 'fail', 'err', 'errtok', 'errat', 'only'], map_ss=['N', 'L', 'v', 'w', 'Loop'],
                                main_vars=True, watch=True), 1800)]),
    'C19': dict(
        families=['C19', 'C19e', 'C19p'],
        crossed=['C19x', 'C19y'],
        random=[('debugged', P(core(Debug=8, Break=.5, Error=.5, Panic=.3, Ref=.5, Store=.5, SetScope=.3)), 1500)]),
    'C29': dict(
        families=['C29', 'C29k'],
        crossed=['C29x'],
        random=[('reused', P(core(Store=2, StoreS=1, Ref=1, Register=.5, SetScope=1, Error=.5, Panic=.3, Map=.5, Debug=.3), fetch_p=.2,
                             runs=6, keep_p=.4, repeat_p=.4, main_vars=True, main_named=1, watch=True, watch_names=True), 1200)]),
    'C30': dict(
        families=['C30', 'C30e'],
        crossed=['C30x'],
        random=[('characters', P(core(Debug=1, Error=.5, Panic=.3, AssertIf=.3, Sequence=3, Null=.5, Store=.5, Pin=.3), window_p=.3,
                                 msgs=['é', '€ x'], files=['', 'é.txt'], seq_starts=['"', 'é', '€'], seq_ends=['"', 'é', '😀'],
                                 seq_escapes=['\\', 'é', '', '€'],
                                 vary=dict(WIDE, alphabet=['é€', 'aé', 'é€😀', 'a😀\n', 'éb\u0301', 'a\ufeff', '\ufeffé', 'a\x00', '\u2028a\u00a0', 'a\u0085\u200b', '\U0010ffff\ufffd'])), 1500)]),
    'C31': dict(
        families=['C31'],
        crossed=['C31x', 'C31y', 'C31r'],
        random=[('edited', P(core(Debug=.5, Store=.5, Ref=1, Register=.5, Pin=.5, Map=.5, Catch=.5, SetScope=.5, ExpandRange=.5),
                             edits=edits, runs=5, name_p=.4, keep_p=0), 2500)]),
}

# id -> (module, kind of case)
API = {
    'C20': ('Lines', 'lines'),
    'C21': ('Visits', 'visits', 8000, 30000, 8, 3000),
    'C22': ('Scopes', 'scopes', 6000, 20000, 8, 6000),
    'C23': ('Tokens', 'tokens', 6000, 20000, 8, 4000),
    'C32': ('Contexts', 'contexts', 6000, 20000, 8, 6000),
}

# id -> families of spec/ScriptFamilies.tla [(name, quick limit)], number of random scripts
SCRIPT = {
    'C24': ([('C24', 800), ('C24d', 500), ('C24L', 400), ('C24l', 600), ('C24R', 1000), ('C24r', 700), ('C24S', 1400), ('C24s', 700)], 900),
    'C25': ([('C25', 1200), ('C25n', 600), ('C25L', 400), ('C25l', 900), ('C25M', 300), ('C25m', 800)], 900),
    'C26': ([('C26', 1200), ('C26L', 1500), ('C26l', 1000)], 1000),
    'C27': ([('C27', 600), ('C27x', 500), ('C27p', 800), ('C27P', 100), ('C27S', 1700), ('C27s', 600), ('C27i', 2000)], 400),
    'C28': ([('C28', 2500), ('C28V', 400), ('C28v', 800), ('C28A', 1300), ('C28a', 1500), ('C28e', 1500), ('C27i', 1200), ('C27x', 400)], 2000),
}

CHECKS = set(ENGINE) | set(API) | set(SCRIPT)

NOTES = {
    'script': ('TLA+ specification checked with TLC: reader, writer and compiler of scripts over the specification of the engine; '
               'its behaviours replayed in the implementation (compile the script, parse texts with the result)',
               'Families of syntax trees in several layouts (and, for malformed scripts, edits at every place of some '
               'scripts), sampled evenly where they are large, and random scripts: the specification reads each text, '
               'says whether it is a script and where it is wrong, and what the compiled grammar does with texts; the '
               'real compiler has to agree. Bounded: sizes of scripts and texts; regular expressions are a subset; '
               'recursion without progress and unusual syntax are not judged.'),
    'api': ('TLA+ specification checked with TLC; its behaviours, exhaustive for short histories and random for longer '
            'ones, replayed in the implementation and compared after every step',
            'Every short history over a set of operations (or every small input) in the specification, with invariants '
            'and action properties, plus random longer ones; the real library is taken through the same histories and '
            'has to show the same after each step. Bounded: lengths and the set of arguments; trusts the harness that '
            'makes the calls.'),
    'engine': ('TLA+ specification checked with TLC; its behaviours replayed in the implementation, and recorded '
               'executions of the implementation validated as behaviours of the specification',
               'Exhaustive over the listed families of grammars and texts in the specification (invariants, action '
               'properties and, for the core patterns, an independent denotational meaning), each behaviour replayed '
               'in the real library; plus every step of random larger executions validated against the specification. '
               'Bounded: sizes of grammars and texts; regular expressions are a subset; trusts the harness that '
               'builds matchers from case descriptions and reports what happened.'),
}
