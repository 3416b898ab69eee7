"""B06: the language of every file-name pattern up to a length, and every glob over every
small tree, against a direct definition of both."""
import functools
import itertools
import os

from .. import sweep, util
from ..sweep import Bad

# --------------------------------------------------------------------------
# the definition: a pattern is a sequence of sets of characters, stars and alternatives


def parse(p):
    seq, i = _seq(p, 0, '')
    return seq


def _seq(p, i, end):
    """the sequence from i up to a character in end or the end of the pattern"""
    out = []
    while i < len(p) and p[i] not in end:
        c = p[i]
        if c == '*':
            out.append(('star',))
        elif c == '?':
            out.append(('any',))
        elif c == '[' and _close(p, i) is not None:
            j = _close(p, i)
            out.append(_class(p[i + 1:j]))
            i = j
        elif c == '{' and _alts(p, i) is not None:
            alts, i = _alts(p, i)
            out.append(('alt', alts))
        else:
            out.append(('in', c))
        i += 1
    return out, i


def _close(p, i):
    j = i + 1
    if p[j:j + 1] == '!':
        j += 1
    j = p.find(']', j + 1)
    return None if j < 0 else j


def _class(s):
    kind = 'in'
    if s[0] == '!':
        kind, s = 'notin', s[1:]
    chars = ''
    while s:
        if len(s) > 2 and s[1] == '-':
            chars += ''.join(map(chr, range(ord(s[0]), ord(s[2]) + 1)))
            s = s[3:]
        else:
            chars += s[0]
            s = s[1:]
    return kind, chars


def _alts(p, i):
    alts = []
    while True:
        seq, i = _seq(p, i + 1, ',}')
        alts.append(seq)
        if i >= len(p):
            return None
        if p[i] == '}':
            return alts, i


class Language:
    """the names over an alphabet up to a length that a pattern describes"""

    def __init__(self, alphabet, length):
        self.alphabet = alphabet
        self.length = length
        self.names = [''.join(t) for n in range(length + 1) for t in itertools.product(alphabet, repeat=n)]
        self.all = frozenset(self.names)
        self.one = frozenset(alphabet)

    def atom(self, a):
        if a[0] == 'star':
            return self.all
        if a[0] == 'any':
            return self.one
        if a[0] == 'in':
            return frozenset(c for c in self.one if c in a[1])
        if a[0] == 'notin':
            return frozenset(c for c in self.one if c not in a[1])
        return frozenset().union(*map(self.seq, a[1]))

    def seq(self, seq):
        res = frozenset([''])
        for a in seq:
            res = self.cat(res, self.atom(a))
        return res

    def cat(self, x, y):
        if x == {''}:
            return y
        n = self.length
        by = [[] for _ in range(n + 1)]
        for w in y:
            by[len(w)].append(w)
        out = set()
        for v in x:
            for k in range(n + 1 - len(v)):
                out.update([v + w for w in by[k]])
        return frozenset(out)

    def of(self, pattern):
        return self.seq(parse(pattern))


def matches(pattern, name):
    """does the name match: for single names of any length"""
    return _match(parse(pattern), name)


def _match(seq, s):
    pos = {0}
    for a in seq:
        pos = _step(a, s, pos)
    return len(s) in pos


def _step(a, s, pos):
    if a[0] == 'star':
        return set(range(min(pos), len(s) + 1)) if pos else set()
    if a[0] == 'alt':
        out = set()
        for alt in a[1]:
            p = set(pos)
            for b in alt:
                p = _step(b, s, p)
            out |= p
        return out
    if a[0] == 'any':
        return {i + 1 for i in pos if i < len(s)}
    return {i + 1 for i in pos if i < len(s) and (s[i] in a[1]) == (a[0] == 'in')}


# --------------------------------------------------------------------------

SPACES = {
    # alphabet of the patterns, length (quick, deep), alphabet of the names, length
    'all': ('ab-![]^*?{},\\\n.', 4, 5, 'abz-![]^*?{},\\\n.', 2),
    'sets': ('ab-![]^', 6, 7, 'abz-![]^', 2),
    'braces': ('ab{},*', 7, 8, 'ab{,}', 3),
    'wild': ('a*?.{,}', 6, 6, 'ab.\n', 4),
}


@functools.lru_cache(None)
def language(space):
    return Language(SPACES[space][3], SPACES[space][4])


def pattern_cases(deep):
    for space, (alpha, quick, most, _, _) in SPACES.items():
        length = most if deep else quick
        k = min(length - 3, 3)
        for head in itertools.product(alpha, repeat=k):
            yield 'match', space, ''.join(head), length
        yield 'match', space, None, k


def check_patterns(space, head, length):
    import fbuild.fnmatch as fn
    import fbuild.glob
    from fbuild.path import Path
    alpha = SPACES[space][0]
    lang = language(space)
    if head is None:
        pats = [''.join(t) for n in range(length) for t in itertools.product(alpha, repeat=n)]
    else:
        pats = [head + ''.join(t) for n in range(length - len(head) + 1) for t in itertools.product(alpha, repeat=n)]
    states = set()
    want = {}
    for p in pats:
        try:
            got = fn.filter(lang.names, p)
        except Exception as e:
            raise Bad('raises', 'filter(names, %r): %s: %s' % (p, type(e).__name__, e))
        l = lang.of(p)
        want[p] = l
        if len(got) != len(l) or set(got) != l:
            diff = sorted(set(got) ^ l, key=lambda x: (len(x), x))
            raise Bad('filter', '%r %s %r' % (p, 'matches' if diff and diff[0] in got else 'does not match', diff[:1]))
        states.add((space, hash(l)))
    n = len(pats) * len(lang.names)
    # once more, in another order, one by one, and as bytes: a match does not depend on earlier ones
    for p in reversed(pats):
        if len(p) > 3 and not p.endswith(alpha[-1] * 2):
            continue
        l = want[p]
        bp = p.encode('latin-1')
        for i, s in enumerate(lang.names):
            w = s in l
            bad = fn.fnmatch(s, p) != w and 'fnmatch' or fn.fnmatchcase(s, p) != w and 'fnmatchcase' \
                or Path(s).fnmatch(Path(p)) != w and 'Path.fnmatch' or fn.fnmatch(s.encode('latin-1'), bp) != w and 'fnmatch of bytes'
            if bad:
                raise Bad('match', '%s(%r, %r) is not %r' % (bad, s, p, w))
        n += 4 * len(lang.names)
    if space == 'all' and (head is None or len(head) == 1):
        for lit in [p for p in pats if len(p) < 4]:
            e = fbuild.glob.escape(lit)
            if not fn.fnmatch(lit, e):
                raise Bad('escape', '%r does not match its escaped form %r' % (lit, e))
            if fn.filter(lang.names, e) != [s for s in lang.names if s == lit]:
                raise Bad('escape', 'the escaped form of %r matches other names' % lit)
            if fbuild.glob.escape(lit.encode('latin-1')) != e.encode('latin-1'):
                raise Bad('escape', 'of bytes: %r' % lit)
            n += 2
    return states, n, {'space': space, 'first': head, 'patterns': len(pats)}


# --------------------------------------------------------------------------
# globbing

F = 'file'
D1 = {'a': F}
D2 = {'.a': F, 'ab': {'a': F}}
D3 = {'b': {}, '.b': {'a': F}, 'a': F}


def trees():
    for a, ab, da, b in itertools.product((None, F, D1, D2, D3), (None, F, D2, ('link', 'a')),
                                          (None, F, D1), (None, {}, ('link', 'a'), ('link', 'none'))):
        t = {'a': a, 'ab': ab, '.a': da, 'b': b}
        yield {k: v for k, v in t.items() if v is not None}


def make(node, path):
    os.mkdir(path)
    for k, v in node.items():
        p = path + '/' + k
        if isinstance(v, dict):
            make(v, p)
        elif v == F:
            open(p, 'w').close()
        else:
            os.symlink(v[1], p)


def entered(v, siblings):
    """the directory behind an entry, or None"""
    if isinstance(v, tuple):
        return entered(siblings.get(v[1]), siblings)
    return v if isinstance(v, dict) else None


def magic(c):
    return any(x in c for x in '*?[{')


def expand(node, comps, at=''):
    """the paths below a directory that match the components, each once"""
    c, rest = comps[0], comps[1:]
    out = []
    if c == '':
        return [at] if at else []
    if c == '**':
        # zero directories
        if rest:
            out += expand(node, rest, at)
        elif at:
            out.append(at)
        for k, v in node.items():
            if k.startswith('.'):
                continue
            sub = entered(v, node)
            if sub is not None:
                out += expand(sub, comps, join(at, k))
            elif not rest:
                out.append(join(at, k))
        return out
    for k, v in node.items():
        if magic(c):
            if k.startswith('.') and not c.startswith('.') or not matches(c, k):
                continue
        elif k != c:
            continue
        if not rest:
            out.append(join(at, k))
        else:
            sub = entered(v, node)
            if sub is not None:
                out += expand(sub, rest, join(at, k))
    return out


def join(at, k):
    return at + '/' + k if at else k


COMPS = ['a', 'ab', '*', '?', 'a*', '*b', '[ab]', '{a,ab}', '**', '.*', '.a', '?a', '[!a]', 'zz', 'a{b', '[.]a', '*{a,b}']
THREE = ['a', '*', '?', '*b', '{a,ab}', '**', '.*', '[!b]', '.a']


def globs(deep):
    three = COMPS if deep else THREE
    for comps in itertools.chain(itertools.product(COMPS), itertools.product(COMPS, repeat=2), itertools.product(three, repeat=3)):
        yield '', comps
        yield '', comps + ('',)
        if len(comps) < 3:
            yield './', comps
            yield 'ABS', comps
            if comps[0] == 'a' and len(comps) == 2:
                yield 'DOUBLE', comps


EXCLUDES = ['*', 'a', '*a', 'a/*', '?', '.*', '{a,b}*', '']


def check_tree(index, deep, wd):
    import fbuild.glob
    from fbuild.path import Path
    tree = list(trees())[index]
    make(tree, wd + '/t')
    os.chdir(wd + '/t')
    states, n = set(), 0
    norm = os.path.normpath
    for prefix, comps in globs(deep):
        pat = '/'.join(comps)
        at = prefix
        if prefix == 'ABS':
            at = wd + '/t/'
        elif prefix == 'DOUBLE':
            at, pat = '', '//'.join(comps)
        pat = at + pat
        want = expand(tree, list(comps))
        if prefix in ('./', 'ABS') and set(comps) == {'**'}:
            want.append('')
        want = [norm(at + w) for w in want]
        got = fbuild.glob.glob(pat)
        n += 1
        g = [norm(x) if x else '' for x in got]
        if comps.count('**') > 1:
            g, want = set(g), set(want)
        if sorted(g) != sorted(want):
            raise Bad('glob', 'glob(%r) in %r: got %r, should be %r' % (pat, tree, sorted(got), sorted(want)))
        for x in got:
            if comps[-1] == '' and not os.path.isdir(x):
                raise Bad('glob', 'glob(%r) in %r gives %r, which is no directory' % (pat, tree, x))
        if len(comps) < 3 and not prefix:
            gb = fbuild.glob.glob(pat.encode())
            if sorted(gb) != sorted(x.encode() for x in got):
                raise Bad('glob', 'glob(%r): %r' % (pat.encode(), gb))
            for i, ex in enumerate(EXCLUDES + [EXCLUDES[1:4], []]):
                w = [x for x in got if not any(matches(e, x) for e in ([ex] if isinstance(ex, str) else ex))]
                r = Path.glob(pat, exclude=ex)
                if sorted(r) != sorted(w) or not all(isinstance(x, Path) for x in r):
                    raise Bad('exclude', 'Path.glob(%r, exclude=%r) in %r: got %r, should be %r' % (pat, ex, tree, sorted(r), sorted(w)))
                n += 1
            r = Path.globall(pat, ['a', [pat]], Path('*'))
            w = [got, fbuild.glob.glob('a'), got, fbuild.glob.glob('*')]
            if sorted(r) != sorted(sum(w, [])):
                raise Bad('globall', 'of %r: %r' % (pat, r))
        states.add((pat, tuple(sorted(want))))
    # a literal name matches its escaped form, also as a path
    for p in everything(tree):
        if fbuild.glob.glob(fbuild.glob.escape(p)) != [p]:
            raise Bad('escape', 'glob(escape(%r))' % p)
    # find: everything below, links to directories as such
    found = [p for p in everything(tree, follow=False)]
    for pat in [None] + COMPS + ['A*']:
        w = [p for p in found if pat is None or matches(pat, p.rsplit('/', 1)[-1])]
        r = list(Path('.').find(pat))
        if sorted(map(norm, r)) != sorted(w):
            raise Bad('find', 'find(%r) in %r: got %r, should be %r' % (pat, tree, sorted(r), sorted(w)))
        r = list(Path('.').find(pat, include_dirs=False))
        w = [p for p in w if not os.path.isdir(p)]
        if sorted(map(norm, r)) != sorted(w):
            raise Bad('find', 'find(%r, include_dirs=False) in %r: got %r, should be %r' % (pat, tree, sorted(r), sorted(w)))
        n += 2
    return states, n, {'tree': tree, 'globs': n}


def everything(tree, follow=True, at=''):
    for k, v in tree.items():
        yield join(at, k)
        sub = entered(v, tree) if follow or not isinstance(v, tuple) else None
        if sub is not None:
            yield from everything(sub, follow, join(at, k))


# Names that need escaping, as files.
def check_names(chunk, wd):
    import fbuild.glob
    os.mkdir(wd + '/t')
    os.chdir(wd + '/t')
    names = [''.join(t) for k in (1, 2, 3) for t in itertools.product('ab-![]^*?{},\\\n.', repeat=k)]
    names = [x for x in names if x not in ('.', '..')][chunk::16]
    for x in names:
        open(x, 'w').close()
    n = 0
    for x in names:
        e = fbuild.glob.escape(x)
        for pat, want in ((e, [x]), (fbuild.glob.escape('./' + x), ['./' + x]), ('*/' + e, [])):
            got = fbuild.glob.glob(pat)
            n += 1
            if got != want:
                raise Bad('escape', 'glob(%r) gives %r' % (pat, got))
    return {('names', chunk)}, n


def one(case, wd):
    if case[0] == 'match':
        return check_patterns(*case[1:])
    if case[0] == 'tree':
        return check_tree(case[1], case[2], wd)
    return check_names(case[1], wd)


def b06(tier):
    rep = util.Report('B06', 'model_checking', [
        'a class whose range ends before it starts describes no character, an unfinished class or alternative stands for itself',
        'alternatives that begin with a dot are not asked for hidden files; with more than one ** a file may be listed twice; no cyclic links'])
    util.setup_path()
    import fbuild.path
    deep = tier == 'thorough'
    cs = list(pattern_cases(deep)) + [('tree', i, deep) for i in range(len(list(trees())))] + [('names', i) for i in range(16)]
    sweep.run(rep, cs, one, lambda c, kind: '/'.join(map(str, (kind,) + tuple(c[:2]))), chunk=4, sample_every=97, timeout=150, alone=60)
    rep.coverage['exhaustive'] = True
    return rep.finish()
