"""B08: every template up to a length over the tokens of each syntax, with every set of
values, generated, built again, edited and built again."""
import itertools
import os
import re

from .. import hist, sweep, util
from ..sweep import Bad

SCRIPT = '''
import T
import fbuild.builders.text
import fbuild.path

def build(ctx):
    for i, (fn, src, values, kw) in enumerate(T.plan['items']):
        try:
            out = getattr(fbuild.builders.text, fn)(ctx, 'out%d/x.txt' % i, src, values, **kw)
        except Exception as e:
            T.plan['record'](i, 'error', type(e).__name__)
        else:
            T.plan['record'](i, type(out).__name__, str(out))
'''


class Missing(Exception):
    pass


# What each syntax means.

def ref_substitute(text, values):
    for k, v in values.items():
        text = v.join(text.split(k))
    return text


def ref_regex(text, values):
    for v in values:
        text = re.compile(v[0], v[2] if len(v) > 2 else re.M).sub(v[1], text)
    return text


def ref_format(text, values):
    out = ''
    i = 0
    while i < len(text):
        c = text[i]
        if text[i:i + 2] in ('{{', '}}'):
            out += c
            i += 2
        elif c == '}':
            raise Missing
        elif c == '{':
            j = text.find('}', i)
            if j < 0:
                raise Missing
            name, _, conv = text[i + 1:j].partition('!')
            if name not in values or conv not in ('', 'r'):
                raise Missing
            out += repr(values[name]) if conv else str(values[name])
            i = j + 1
        else:
            out += c
            i += 1
    return out


def word(c):
    return c.isalnum() or c == '_'


def shown(v):
    if isinstance(v, str):
        return v
    if isinstance(v, (list, tuple)):
        return ' '.join(str(x) for x in v)
    return str(v)


def ats(text, values):
    out = ''
    i = 0
    while i < len(text):
        j = i + 1
        while text[i] == '@' and j < len(text) and word(text[j]):
            j += 1
        if text[i] == '@' and j > i + 1 and text[j:j + 1] == '@':
            name = text[i + 1:j]
            if name not in values:
                raise Missing
            out += shown(values[name])
            i = j + 1
        else:
            out += text[i]
            i += 1
    return out


def ref_file(text, values):
    return ats(text, values)


def ref_header(text, values):
    lines = text.split('\n')
    for i, line in enumerate(lines):
        key = None
        if line.startswith('#undef '):
            key = line[7:].lstrip(' ')
            if not key or not all(map(word, key)):
                key = None
        if key is None:
            lines[i] = ats(line, values)
            continue
        if key not in values:
            raise Missing
        v = values[key]
        if isinstance(v, bool):
            v = int(v)
        v = shown(v) if v else ''
        lines[i] = '#define %s %s' % (key, v) if v else '/* #undef %s */' % key
    return '\n'.join(lines)


SYNTAX = {
    'substitute': (ref_substitute,
                   ['@A@', '%B%', 'A', '@', '\n', 'B%\\1', '\u00e9', ' '],
                   [{}, {'@A@': '1'}, {'@A@': '', '%B%': '@'}, {'A': 'B'}, {'@A@': 'x\ny', '@': '#'}, {'%B%': '\\1$&', '\u00e9': 'e'},
                    {'A': 'AA', '@': 'A'}]),
    'regex_substitute': (ref_regex,
                         ['A', 'a', 'B', '\n', '.', '\u00e9', ' '],
                         [[], [('^A$', 'x')], [('a', 'b', re.I)], [('(A)(B)?', r'<\1>')], [('A.B', 'x', re.S)], [('^', '>')],
                          [('^', '>', 0)], [('A', 'a'), ('a+', 'B'), (r'\.', '')], [('B$', 'end', re.M | re.I)]]),
    'format_substitute': (ref_format,
                          ['{a}', '{b}', '{{', '}}', 'x', '\n', '{a!r}', '{', '%s', '$a'],
                          [{}, {'a': '1', 'b': '{a}'}, {'a': 'x\ny', 'b': ''}, {'b': 7}, {'a': 'only'}, {'a': '%s', 'b': [1, 2], 'c': 0}]),
    'autoconf_config_file': (ref_file,
                             ['@a@', '@b_1@', '@', 'a', '@a-b@', '@@', '\n', '@\u00e9@', '#undef a', '\\1', '\f'],
                             [{}, {'a': '1', 'b_1': 'B', '\u00e9': 'e'}, {'a': '@b_1@', 'b_1': '', '\u00e9': '\\1'}, {'a': ['x', 2], 'b_1': 5, '\u00e9': None},
                              {'a': 'just a'}, {'a': (), 'b_1': ('one',), '\u00e9': 2.5, 'z': 'unused'}, {'a': True, 'b_1': 'x\ny', '\u00e9': '\\g<0>'}]),
    'autoconf_config_header': (ref_header,
                               ['#undef A', '#undef  B_2', '#undef A x', ' #undef A', '@a@', '@', '\n', '#undef', 'A', ' ', '\x0b'],
                               [{}, {'A': '1', 'B_2': 'two words', 'a': 'v'}, {'A': '', 'B_2': 0, 'a': ''}, {'A': True, 'B_2': False, 'a': ['p', 'q']},
                                {'A': None, 'B_2': ['x', 'y'], 'a': '#undef A'}, {'A': [], 'B_2': 5, 'a': '\\1'}, {'A': '\\g<0>', 'a': 3}, {'B_2': 1, 'a': 1}]),
}


# what some take for the end of a line, or for a space, and what counts in bytes
CHARS = '\f\v\x1c\x1d\x1e\x85\u2028\u2029\t\0\u00a0\ufeff\U0001f600"\'\\'


def odd_texts(tokens):
    for c in CHARS:
        for t in tokens[:4]:
            for u in tokens[:2]:
                yield c
                yield t + c
                yield c + t
                yield t + c + u
                yield t + c + '\n' + c + u + '\n'


def cases(deep):
    size = 160
    for fn, (_, tokens, valuesets) in SYNTAX.items():
        n = 4 if deep else 3
        texts = []
        for k in range(n + 1):
            for t in itertools.product(tokens, repeat=k):
                t = ''.join(t)
                if t not in texts[-len(tokens) ** 2:]:
                    texts.append(t)
        if not deep:
            # the longest ones take turns with the sets of values
            few = sum(len(tokens) ** k for k in range(n))
        else:
            few = len(texts)
        items = [(t, v) for i, t in enumerate(odd_texts(tokens)) for v in range(len(valuesets)) if deep or (i + v) % 3 == 0]
        for i, t in enumerate(texts):
            for v in range(len(valuesets)):
                if i < few or (i + v) % 2 == 0:
                    items.append((t, v))
        for i in range(0, len(items), size):
            yield fn, i // size, items[i:i + size]


def expected(fn, text, values):
    try:
        return SYNTAX[fn][0](text, values)
    except Missing:
        return None


def one(case, wd):
    fn, number, items = case
    if number == 'toggle':
        return toggle(fn, items, wd)
    _, tokens, valuesets = SYNTAX[fn]
    argv = ['fbuild', '--database-engine', 'sqlite' if number % 2 else 'pickle']
    hist.write_scripts(wd, {'fbuildroot': SCRIPT})
    states = set()
    texts = [t for t, v in items]
    values = [v for t, v in items]
    n = 0

    def write(i):
        with open('%s/in%d' % (wd, i), 'wb') as f:
            f.write(texts[i].encode('utf-8'))

    def build(what):
        log = wd + '/record'

        def record(*args):
            with open(log, 'a') as f:
                f.write(repr(args) + '\n')
        kw = [dict(buildroot='other/root') if i % 7 == 3 else {} for i in range(len(items))]
        plan = {'items': [(fn, 'in%d' % i, valuesets[values[i]], kw[i]) for i in range(len(items))], 'record': record}
        open(log, 'w').close()
        # under a locale where the templates can be read
        res = hist.real_build(wd, argv, plan)
        if res['status'][:1] != ['ok']:
            raise Bad('build', '%s: the build ended with %s' % (what, res['status']))
        got = {}
        for line in open(log):
            i, kind, value = eval(line)
            got[i] = (kind, value)
        stats = {}
        for i in range(len(items)):
            want = expected(fn, texts[i], valuesets[values[i]])
            path = '%s/out%d/x.txt' % (kw[i].get('buildroot', 'build'), i)
            about = '%s: %s(%r, %r)' % (what, fn, texts[i], valuesets[values[i]])
            kind, value = got.get(i, ('nothing', ''))
            full = os.path.join(wd, path)
            if want is None:
                if kind != 'error':
                    raise Bad('accepted', '%s wrote a file although a value is missing' % about)
                if os.path.exists(full) and i not in written:
                    raise Bad('left', '%s failed and left a file' % about)
                continue
            if kind != 'Path' or value != path:
                raise Bad('result', '%s gave %s %s' % (about, kind, value))
            with open(full, 'rb') as f:
                data = f.read().decode('utf-8')
            if data != want:
                raise Bad('contents', '%s: wrote %r, should be %r' % (about, data, want))
            written.add(i)
            stats[i] = os.stat(full)
            states.add((fn, texts[i], values[i]))
        return stats

    written = set()
    for i in range(len(items)):
        write(i)
    a = build('first build')
    b = build('second build')
    for i in a:
        if a[i].st_mtime_ns != b[i].st_mtime_ns or a[i].st_ino != b[i].st_ino:
            raise Bad('again', '%s(%r, %r) ran again although nothing had changed' % (fn, texts[i], valuesets[values[i]]))
    # change the template, the values, or lose the output: a third each
    for i in range(len(items)):
        if i % 4 == 0:
            texts[i] += tokens[(i // 4) % len(tokens)]
            write(i)
        elif i % 4 == 1:
            values[i] = (values[i] + 1) % len(valuesets)
        elif i % 4 == 2 and i in b:
            for root in ('build', 'other/root'):
                p = '%s/%s/out%d/x.txt' % (wd, root, i)
                if os.path.exists(p):
                    os.remove(p)
    c = build('after edits')
    for i in c:
        if i % 4 == 3 and i in b and b[i].st_mtime_ns != c[i].st_mtime_ns:
            raise Bad('again', '%s(%r, %r) ran again although only others had changed' % (fn, texts[i], valuesets[values[i]]))
    # and back
    for i in range(len(items)):
        if i % 4 == 0:
            texts[i] = items[i][0]
            write(i)
        elif i % 4 == 1:
            # not back: see toggle()
            values[i] = (values[i] + 1) % len(valuesets)
    build('after further edits')
    return states, 4 * len(items), {'function': fn, 'items': items[:3]}


def toggle(fn, engine, wd):
    """Other values, and back to the first: what is left is what the first ones give."""
    ref, tokens, valuesets = SYNTAX[fn]
    text = ''.join(tokens[:2]).replace('{b}', '')
    if fn == 'autoconf_config_header':
        text = '#undef A'
    if fn == 'regex_substitute':
        text = 'A\nb'
    first = valuesets[1]
    second = dict(valuesets[2], z='') if isinstance(first, dict) else valuesets[3]
    hist.write_scripts(wd, {'fbuildroot': SCRIPT})
    with open(wd + '/in', 'w') as f:
        f.write(text)
    states = []
    for i, values in enumerate((first, second, first)):
        res = hist.real_build(wd, ['fbuild', '--database-engine', engine], {'items': [(fn, 'in', values, {})], 'record': lambda *a: None})
        with open(wd + '/build/out0/x.txt') as f:
            data = f.read()
        if res['status'][:1] != ['ok'] or data != ref(text, values):
            raise Bad('toggle', 'build %d of %s(%r, %r): wrote %r (%s)' % (i + 1, fn, text, values, data, res['status']))
        states.append((fn, text, repr(values)))
    return states, 3


def b08(tier):
    rep = util.Report('B08', 'model_checking', [
        'templates are text in UTF-8; the values of one call are used in the order given',
        'sets of values that are equal in Python are the same'])
    hist.warm()
    cs = list(cases(tier == 'thorough')) + [(fn, 'toggle', e) for fn in SYNTAX for e in ('pickle', 'sqlite')]
    sweep.run(rep, cs, one, lambda c, kind: '%s/%s/%s' % (kind, c[0], c[2] if c[1] == 'toggle' else c[1]), fork=False, chunk=1, sample_every=20)
    rep.coverage['exhaustive'] = True
    return rep.finish()
