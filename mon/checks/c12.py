"""C12 terms expand to what the variables say, and expansion always ends"""
import os
import re

from mon import lab
from mon.core import need, same

NAMES = ['A', 'B', 'C', 'D_D', 'EE', 'F1', 'G', 'HOST', 'SRC', 'MY-VAR', 'lower', 'K', 'L', 'M2', 'N.o', 'q/r', 'lib++', 'S~t', '9p', 'T-2.0']
LITS = ['foo', 'bar', 'x-1', 'lib/z', '--opt=1', "'q'", '$x', '{}', '}', 'a.b', '(p)', '%', '漢', 'z9', '#', '@x', '/usr/*']
UNKNOWN = ['NOPE', 'WORKDIR', 'libdir', 'X_Y', 'unknown-var']
BUILTIN = ['PN', 'PV', 'BPN', 'P', 'BP', 'THISDIR', 'FILE', 'SOLIBS', 'MLPREFIX']
REF = re.compile(r'\$\{([^{}@]+)\}')
READ = re.compile(r'''\$\{@oe\.utils\.read_file\(['"](?P<f>(?:[^{}'"]|\$\{[^{}]*\})*)['"]\)\}''')
GETVAR = re.compile(r'''d\.getVar\(["']([^"']+)["'](?:, *(?:True|False))?\)''')


class Model:
    """reference: substitute until only unknown names are left (definitions are acyclic)"""

    def __init__(self, defs, path, base):
        self.defs, self.path, self.base = defs, path, base
        stem = os.path.splitext(os.path.basename(path))[0]
        self.pn, _, self.pv = stem.partition('_')
        self.pv = self.pv.split('_')[0] or '1.0'
        self.bpn = self.pn[len('nativesdk-'):] if self.pn.startswith('nativesdk-') else self.pn
        for x in ('-native', '-cross'):
            if self.bpn.endswith(x):
                self.bpn = self.bpn[:-len(x)]

    def name(self, n, spare, quote):
        if n in spare:
            return None
        if n in self.defs:
            return self.term(self.defs[n], spare)
        if n in self.base:
            return self.term(self.base[n], spare)
        if n in ('PN', 'PV', 'BPN'):
            return getattr(self, n.lower())
        if n == 'FILE':
            return quote + self.path + quote
        if n == 'THISDIR':
            return quote + os.path.dirname(self.path) + quote
        return None

    def term(self, text, spare=()):
        m = READ.search(text)
        if m:
            try:
                with open(self.term(m.group('f'), spare), encoding='utf-8', newline=None) as i:
                    mid = i.read()
            except OSError:
                mid = ''
            return self.term(text[:m.start()], spare) + mid + self.term(text[m.end():], spare)
        def one(quote):
            def _sub(m):
                r = self.name(m.group(1), spare, quote)
                return m.group(0) if r is None else r
            return _sub
        out, pos = '', 0
        # references and getVar calls of the text itself; what they yield is final
        both = re.compile('(?:{})|(?:{})'.format(REF.pattern, GETVAR.pattern))
        for m in both.finditer(text):
            out += text[pos:m.start()]
            g = REF.fullmatch(m.group(0))
            out += one('')(g) if g else one('"')(GETVAR.fullmatch(m.group(0)))
            pos = m.end()
        return out + text[pos:]


def text_of(rng, refs, lo=0, hi=4):
    out = []
    for _ in range(rng.randint(lo, hi)):
        r = rng.random()
        if r < .5 and refs:
            out.append('${' + rng.choice(refs) + '}')
        elif r < .6:
            out.append('${' + rng.choice(UNKNOWN) + '}')
        elif r < .7:
            out.append('${' + rng.choice(BUILTIN) + '}')
        else:
            out.append(rng.choice(LITS))
    return ''.join(x + rng.choice(['', '', ' ', '-', '/']) for x in out)


def reading(rng):
    return '${@oe.utils.read_file(\'' + rng.choice(['${THISDIR}/data.txt', '${THISDIR}/two lines.txt', '${THISDIR}/nosuch', '/nonexistent/x', '${NOPE}/data.txt', '${THISDIR}/${PN}.txt', '${THISDIR}']) + '\')}'


class Check:
    quick, thorough = 9000, 200000
    rule = ('Random definition graphs over up to 14 variables (acyclic: exact comparison with a reference expander, including spare names, built-in names, base set, d.getVar, files read as value, redefinition of PN/PV, '
            'definitions spread over a recipe and its include, a second recipe with contradicting values; cyclic: termination, repeatability, every literal reached exactly as often as in one unrolling kept). '
            'Non-trivial: a graph with at least one reference.')
    min_events = {'exact': 4000, 'cyclic': 400, 'cyclic_reading': 300, 'spared': 500, 'getvar': 500, 'via_expandvar': 1000, 'read_file': 1000, 'constants_used': 500}

    def case(self, rng, ctx, i):
        cyc = i % 5 == 0
        names = rng.sample(NAMES, rng.randint(1, len(NAMES)))
        if rng.random() < .2:
            names.append(rng.choice(['PN', 'PV', 'BPN', 'P', 'SOLIBS']))
        defs = {}
        self.cycread = False
        for n, name in enumerate(names):
            refs = names if cyc else names[:n]
            v = text_of(rng, refs)
            if not cyc and name in ('PN', 'PV', 'BPN', 'P'):
                v = rng.choice(['other', '9.9', 'x-${NOPE}'])
            if rng.random() < .08:
                v += ' ${@foo(d)}'
            if cyc and rng.random() < .15:
                v += ' ' + rng.choice([reading(rng), "${@oe.utils.read_file('${THISDIR}/${" + rng.choice(names) + "}')}", "${@oe.utils.read_file('${" + rng.choice(names) + "}')}"]) + rng.choice(['', ' ${' + rng.choice(names) + '}'])
                self.cycread = True
            if not cyc and name not in BUILTIN and rng.random() < .08:
                v = rng.choice([v, '']) + rng.choice(['', ' ']) + reading(rng) + rng.choice([' ', '']) + rng.choice([v, '', 'x'])
            defs[name] = v
        if not cyc and names[-1] == 'SOLIBS':
            defs['SOLIBS'] = 'solibs'
        based = {}
        if rng.random() < .15:
            # some of them are constants the user of the library has added
            based = {n: defs[n] for n in rng.sample(names, rng.randint(1, len(names))) if n not in BUILTIN and n not in lab.CONSTANTS.SetsBase and '@' not in defs[n]}
        if based:
            lab.CONSTANTS.AddConstants({'sets': {'base': dict(based)}})
            ctx.event('constants_used')
        try:
            self.check(rng, ctx, cyc, names, defs, based)
        finally:
            if based:
                lab.CONSTANTS.RemoveConstants({'sets': {'base': based}})

    def check(self, rng, ctx, cyc, names, defs, based):
        written = [n for n in names if n not in based]
        stmts = [(n, '{} {} "{}"\n'.format(n, rng.choice(['=', ':='] if n in BUILTIN else ['=', ':=', '?=']), defs[n])) for n in written]
        for k, (n, x) in enumerate(stmts):
            if rng.random() < .1 and '?=' not in x:
                # what was appended before the definition is lost
                stmts[k] = (n, ''.join('{} {} "early{}"\n'.format(n, rng.choice(['+=', '=+', '.=', '=.']), j) for j in range(rng.randint(1, 2))) + x)
        rng.shuffle(stmts)
        cut = rng.randint(0, len(stmts))
        rn = rng.choice(['foo_1.2.3.bb', 'foo.bb', 'foo-native_2.bb', 'nativesdk-bar_git.bb', 'x-cross_1.bb', 'a.b_1.bb'])
        files = {'r/' + rn: 'require part.inc\n' + ''.join(x for _, x in stmts[:cut]), 'r/part.inc': ''.join(x for _, x in stmts[cut:]),
                 'r/data.txt': 'data ${NOPE} {x} } ${@foo(d)}', 'r/two lines.txt': 'one\n  two \\\n"three"\n', 'r/foo.txt': '', 'r/nativesdk-bar.txt': '${PNX}',
                 'r/other_7.bb': ''.join('{} = "WRONG{}"\n'.format(n, k) for k, n in enumerate(written))}
        ctx.describe({'files': files, 'constants': based})
        root = os.path.realpath(ctx.newdir())
        paths = ctx.write(root, files)
        s = lab.stash(new_style_override_syntax=rng.random() < .5)
        add = ['r/' + rn, 'r/other_7.bb']
        rng.shuffle(add)
        for a in add:
            s.AddFile(paths[a])
        if rng.random() < .5:
            s.Finalize()
        path = paths['r/' + rn]
        terms = [text_of(rng, names, 1, 5) for _ in range(3)] + ['${' + n + '}' for n in rng.sample(names, min(2, len(names)))]
        for n in rng.sample(names, min(2, len(names))):
            terms.append('${@' + 'd.getVar({q}{n}{q}{x})'.format(q=rng.choice('"\''), n=n, x=rng.choice(['', ', True', ',False'])) + '}')
            terms.append('d.getVar("{}") is "{}"'.format(n, rng.choice(LITS)))
        if not cyc:
            terms.append(text_of(rng, names, 0, 2) + reading(rng) + text_of(rng, names, 0, 2) + (reading(rng) if rng.random() < .3 else ''))
        if cyc:
            for t in terms:
                if 'getVar' in t:
                    continue
                res = s.ExpandTerm(path, t)
                same('repeated expansion of ' + t, s.ExpandTerm(path, t), res)
                for x in re.sub(r'\$\{[^}]*\}', '\0', t).split('\0'):
                    need(x in res, 'literal text', x, 'of', t, 'missing in', res)
                ctx.event('cyclic')
                if self.cycread:
                    ctx.event('cyclic_reading')
            s.ExpandVar(filename=path)
            ctx.shape(sorted(defs.items()))
            return
        base = lab.CONSTANTS.SetsBase
        model = Model({n: defs[n] for n in written}, path, base)
        for t in terms:
            spare = rng.sample(names + ['PN', 'PV'], 2) if rng.random() < .3 else []
            kw = {'spare': spare} if spare else {}
            same('expansion of {!r} sparing {} with {}'.format(t, spare, defs), s.ExpandTerm(path, t, **kw), model.term(t, spare))
            ctx.event('exact')
            if spare:
                ctx.event('spared')
            if 'getVar' in t:
                ctx.event('getvar')
            if 'read_file' in t:
                ctx.event('read_file')
        exp = s.ExpandVar(filename=path)
        for n in names:
            same('ExpandVar of {} with {}'.format(n, defs), exp.get(n), [x for x in model.term(defs[n]).split() if x])
            ctx.event('via_expandvar')
        if any('${' in v for v in defs.values()):
            ctx.shape(sorted(defs.items()), rn)
            ctx.sample({'definitions': defs, 'term': terms[0], 'expanded': s.ExpandTerm(path, terms[0])})


CHECK = Check()
