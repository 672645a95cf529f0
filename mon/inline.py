"""Inline conditionals with their branches known by construction"""

ARG = ['foo', 'x11', 'a-b', '--enable-x', 'a b', 'lib/x.so', '', ' x', 'y ', '${X}', '1', 'git://h/r;a=b', 'A=1', '+x', 'x*', 'foo.inc', '${PN}-dev', '漢', '#x', '@y', 'p:q']


# what separates arguments elsewhere does not inside of quotes
RICH = ['x, y', 'a,b', ',', 'f(x)', '(a, b)', '-DX="y"', "it's", 'a)b', '(', '[a]', '{x}', 'x" y', '"x"', "'x'", 'a, "b", c', "d.e('f')", ' , ', 'x -Wl,-z,now', "-DN='1', 2", '"', "'"]


def q(rng, text, quotes):
    c = rng.choice([x for x in quotes if x not in text] or ['"' if '"' not in text else "'"])
    return c + text + c


def block(rng, quotes='"\'', rich=0, nest=0):
    """(source text, true branch, false branch, kind); with rich, that share of the arguments contains commas, brackets and other
    quotes; with nest, that share of the arguments are calls themselves"""
    def a(pool=ARG):
        if rng.random() < rich:
            return rng.choice([x for x in RICH if not all(c in x for c in quotes)])
        return rng.choice(pool)

    def sp():
        return rng.choice(['', ' ', ' ', '  '])
    t, f = a(), a()
    var = q(rng, rng.choice(['DISTRO_FEATURES', 'PACKAGECONFIG', 'A']), quotes)
    chk = q(rng, rng.choice(['systemd', 'a b', 'x11 wayland', '1.2']) if rng.random() >= rich else a(), quotes)
    T, F = q(rng, t, quotes), q(rng, f, quotes)
    if rng.random() < nest:
        chk = rng.choice(['d.getVar({})', 'd.getVar({}, True)', 'bb.utils.contains({0}, {0}, {0}, {0}, d)', 'f(g({}), [1, 2])']).format(q(rng, 'N', quotes))
    nt = nf = None
    if rng.random() < nest:
        T, nt, nf, _ = block(rng, quotes, rich)
        T = T[3:-1].strip()
    mt = mf = None
    if rng.random() < nest:
        F, mt, mf, _ = block(rng, quotes, rich)
        F = F[3:-1].strip()
    kind = rng.choice([x for x in ['contains', 'contains', 'contains_any', 'filter', 'all', 'any', 'both', 'conditional', 'ifelse', 'le', 'vle', 'vartrue', 'getvar'] if nt is None and mt is None or x not in ('filter', 'all', 'any', 'both', 'getvar')])
    if nt is not None:
        kind += '_nested'
        t = (nt, nf)
    if mt is not None:
        kind += '_nested'
        f = (mt, mf)
    long, kind = kind, kind.split('_nested')[0]

    def call(name, *args):
        return name + '(' + ','.join((sp() if n else rng.choice(['', '', ' '])) + x for n, x in enumerate(args)) + ')'
    if kind == 'contains':
        e, res = call('bb.utils.contains', var, chk, T, F, 'd'), (t, f)
    elif kind == 'contains_any':
        e, res = call('bb.utils.contains_any', var, chk, T, F, 'd'), (t, f)
    elif kind == 'filter':
        v = rng.choice(['DISTRO_FEATURES', 'PACKAGECONFIG', 'A'])
        e, res = call('bb.utils.filter', q(rng, v, quotes), chk, 'd'), (v, '')
    elif kind in ('all', 'any'):
        n = 'oe.utils.{}_distro_features'.format(kind)
        r = rng.random()
        tt = rng.choice([x for x in ARG if x])
        if r < .3:
            e, res = call(n, 'd', chk), ('1', '')
        elif r < .6:
            e, res = call(n, 'd', chk, q(rng, tt, quotes)), (tt, '')
        else:
            e, res = call(n, 'd', chk, q(rng, tt, quotes), F), (tt, f)
    elif kind == 'both':
        v = rng.choice(['systemd', 'x11', 'a-b'])
        e, res = call('oe.utils.both_contain', var, q(rng, 'IMAGE_FEATURES', quotes), q(rng, v, quotes), 'd'), (v, '')
    elif kind == 'conditional':
        e, res = call('oe.utils.conditional', var, chk, T, F, 'd'), (t, f)
    elif kind == 'ifelse':
        e, res = call('oe.utils.ifelse', chk if '(' in chk and chk[0] not in quotes else rng.choice(['True', 'd.getVar', 'x == 1', "a"]), T, F), (t, f)
    elif kind == 'le':
        e, res = call('oe.utils.less_or_equal', var, chk, T, F, 'd'), (t, f)
    elif kind == 'vle':
        e, res = call('oe.utils.version_less_or_equal', var, chk, T, F, 'd'), (t, f)
    elif kind == 'vartrue':
        e, res = call('oe.utils.vartrue', var, T, F, 'd'), (t, f)
    else:
        v = rng.choice(['FOO', 'PN', 'a-b'])
        e, res = 'd.getVar(' + rng.choice(['', ' ']) + q(rng, v, quotes) + rng.choice(['', ' ']) + rng.choice(['', '', ', True', ',False ']) + ')', ('${' + v + '}',) * 2
    # nested calls are taken by the same branch
    t, f = (x if isinstance(x, str) else x[n] for n, x in enumerate(res))
    return '${@' + rng.choice(['', '', ' ']) + e + '}', t, f, long


def spread(rng, text):
    """continue the expression on further lines where python has blanks or commas outside of quotes"""
    out, quote = '', ''
    for n, c in enumerate(text):
        if quote:
            quote = '' if c == quote else quote
        elif c in '"\'':
            quote = c
        out += c
        if not quote and c in ',(' and n > 2 and rng.random() < .3:
            out += rng.choice([' \\\n', '\\\n']) + rng.choice(['', '    ', '\t'])
    return out


CALLS = ['bb.utils.' + x for x in ('contains', 'contains_any', 'filter')] + ['oe.utils.' + x for x in ('all_distro_features', 'any_distro_features', 'both_contain', 'conditional', 'ifelse', 'less_or_equal', 'vartrue', 'version_less_or_equal')]


def opaque(rng, quotes='"\''):
    """an inline block the parser has no emulation for"""
    return '${@' + rng.choice(['foo(d)', 'bar(' + q(rng, 'x', quotes) + ')', 'x or y', '1 + 1', 'len(' + q(rng, 'a b', quotes) + ')', 'os.path.join(a)', 'd.expand(' + q(rng, '${X}', quotes) + ')', rng.choice(CALLS) + '(d)', 'len(' + q(rng, rng.choice(CALLS), quotes) + ')', rng.choice(CALLS), '[x for x in {1: 2}]', 'f({})']) + '}'
