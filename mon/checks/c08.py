"""C08 line continuations are layout only (metamorphic)"""
from mon import gen, inline, lab
from mon.core import same

POOL = [x for x in gen.WORD_POOL if x not in ('{', '}', '$', 'foo() {', '"') and '${@' not in x] + ['x', 'xyz', 'x1', 'xorg', 'n', 'nfoo', 't', 'b']


def layout(rng, words, first='', last=''):
    """words with random continuations between them"""
    out = first
    if not words:
        return out + last
    if rng.random() < .5:
        out += rng.choice(['', ' ']) + '\\\n' + rng.choice(['', ' ', '    ', '\t'])
    for n, w in enumerate(words):
        if n:
            r = rng.random()
            if r < .5:
                out += rng.choice([' ', '  ', '\t'])
            elif r < .95:
                out += rng.choice([' \\\n', ' \\\n', '\\\n', '\t\\\n']) + rng.choice(['', ' ', '    ', '\t'])
            else:
                out += ' \\\n \\\n' + rng.choice(['', '\t'])
        out += inline.spread(rng, w) if w.startswith('${@') else w
    if rng.random() < .3:
        out += ' \\\n' + rng.choice(['', '  '])
    return out + last


def break_head(rng, head):
    """continue the statement on the next line in front of its value"""
    return ''.join(rng.choice([' \\\n', ' \\\n', '\t\\\n \\\n']) + rng.choice(['', ' ', '    ', '\t']) if c == ' ' and rng.random() < .25 else c for c in head)


class Check:
    quick, thorough = 10500, 200000
    rule = ('A list of words is rendered on one line and in two random layouts with backslash-newline continuations (words may start with any letter, blank or no blank before the backslash or '
            'after the newline, also inside of inline conditionals), as variable value, flag value, export, inherit, INHERIT, addtask, EXPORT_FUNCTIONS, SRC_URI and PACKAGES, all one-line directives, also in front of the value, surrounded by other statements. Oracle: same kind, names and words in '
            'all layouts, neighbours unaffected. Non-trivial: at least one continuation was used.')
    min_events = {'layouts_compared': 3500, 'continuations': 3500, 'conditionals': 300}

    def observe(self, ctx, text, path_name='foo_1.0.bb'):
        s, items, path = lab.parse_text(ctx, text, path_name, new_style_override_syntax=True)
        s.Finalize()
        self.multi = [(x.VarName, x.IsMultiLine()) for x in items if type(x).__name__ == 'Variable']
        res = []
        for x in items:
            cls = type(x).__name__
            o = [cls]
            if cls == 'Variable':
                o += [x.VarName, x.SubItems, x.VarOp.strip(), x.get_items(), x.IsAppend(), [w for w in s.SafeLineSplit(x.VarValueStripped) if w]]
            elif cls == 'FlagAssignment':
                o += [x.VarName, x.Flag, x.VarOp.strip(), x.safe_linesplit(x.ValueStripped)]
            elif cls == 'Export':
                o += [x.Name, x.safe_linesplit(x.Value)]
            elif cls == 'Inherit':
                o += [x.Statement, x.get_items(), sorted(p.rsplit('/', 1)[1] for p in x.FilePaths)]
            elif cls == 'TaskAdd':
                o += [x.FuncName, x.Before, x.After, x.get_items()]
            elif cls == 'FunctionExports':
                o += [x.get_items()]
            elif cls == 'Function':
                o += [x.FuncName, x.get_items()]
            elif cls in ('Include', 'Unset', 'TaskDel', 'AddPylib', 'AddFragements', 'IncludeAll'):
                o += list(x.get_items())
            elif cls == 'PythonBlock':
                o += [x.FuncName]
            elif cls == 'Item':
                o += [x.Raw]
            res.append(o)
        exp = {k: v for k, v in s.ExpandVar(filename=path).items() if k in self.names}
        return res, exp, s.GetValidPackageNames(path), s.GetValidNamedResources(path)

    def case(self, rng, ctx, i):
        words = [rng.choice(POOL) for _ in range(rng.randint(1, 8))]
        kind = rng.choice(['var', 'var', 'var', 'SRC_URI', 'PACKAGES', 'flag', 'export', 'inherit', 'INHERIT', 'addtask', 'exportfunc', 'short'])
        self.names = ['TESTVAR']
        head, tail = '', '"\n'
        if kind == 'var':
            for n in range(len(words)):
                if rng.random() < .1:
                    words[n] = inline.block(rng, "'", .2)[0]
                    ctx.event('conditionals')
            head = 'TESTVAR{} {} "'.format(rng.choice(['', ':append', ':remove', ':prepend', ':qemuarm']), rng.choice(gen.OPS))
        elif kind == 'SRC_URI':
            head = 'SRC_URI = "'
            words = ['{}://ex.org/{}.git;name={}'.format(rng.choice(['git', 'https', 'file']), rng.choice('xyz'), rng.choice(['x1', 'foo', 'n2', '${PN}'])) for _ in words]
        elif kind == 'PACKAGES':
            head = 'PACKAGES =+ "'
            words = ['{}-{}'.format(rng.choice(['${PN}', 'x']), rng.choice(['x', 'lib', 'n'])) for _ in words]
        elif kind == 'flag':
            head = 'do_foo[x] {} "'.format(rng.choice(gen.OPS))
        elif kind == 'export':
            head = 'export FOO = "'
        elif kind == 'INHERIT':
            head = 'INHERIT += "'
            words = [gen.ident(rng) for _ in words]
        elif kind == 'inherit':
            head, tail = 'inherit ', '\n'
            words = [rng.choice(['x', 'xfoo', 'foo', 'bar-x', 'n']) for _ in words]
        elif kind == 'addtask':
            head, tail = 'addtask do_foo ', '\n'
            b, a = gen.tasks(rng), gen.tasks(rng)
            words = rng.choice([['before'] + b + ['after'] + a, ['after'] + a + ['before'] + b, ['before'] + b])
        elif kind == 'exportfunc':
            head, tail = 'EXPORT_FUNCTIONS ', '\n'
            words = gen.tasks(rng)
        elif kind == 'short':
            head, tail = rng.choice(['include x.inc', 'require a/b.inc', 'unset FOO', 'unset FOO[x]', 'deltask do_x', 'export BAR', 'addpylib ${LAYERDIR}/l ns', 'addfragments a B C', 'include_all x.inc', 'inherit foo',
                                     'python do_y () {', 'fakeroot python do_y() {', 'def fn(a, b):']), '\n'
            if head.endswith('{'):
                tail = '\n    pass\n}\n'
            if head.endswith(':'):
                tail = '\n    pass\n'
            words = []
        before, _ = gen.compose(rng, [gen.statement(rng, 'new') for _ in range(rng.randint(0, 2))], nonl=False)
        after, _ = gen.compose(rng, [gen.statement(rng, 'new') for _ in range(rng.randint(0, 2))], nonl=False)
        lay = []
        for _ in range(2):
            h = head
            if kind not in ('short',) or not head.endswith(('{', ':')):
                h = break_head(rng, head)
            if kind == 'short':
                lay.append(h + (rng.choice([' \\\n', '\\\n', ' \\\n   ']) if rng.random() < .2 and h[-1] not in '{:' else '') + tail)
            elif kind in ('addtask', 'exportfunc', 'inherit'):
                lay.append(h + words[0] + layout(rng, words[1:], ' ') + tail)
            else:
                lay.append(h + layout(rng, words) + tail)
        one = head + ' '.join(words) + tail
        sep = 'ZZZ = "1"\n'
        ctx.describe({'one': one, 'layouts': lay, 'before': before, 'after': after})
        ref = self.observe(ctx, before + sep + one + after)
        same('multi line flag of {!r}'.format(one), [m for n, m in self.multi if n == 'TESTVAR'], [False] * (kind == 'var'))
        for x in lay:
            got = self.observe(ctx, before + sep + x + after)
            same('items with layout {!r}'.format(x), got[0], ref[0])
            same('expanded variables with layout {!r}'.format(x), got[1], ref[1])
            same('packages with layout {!r}'.format(x), got[2], ref[2])
            same('named resources with layout {!r}'.format(x), got[3], ref[3])
            same('multi line flag of {!r}'.format(x), [m for n, m in self.multi if n == 'TESTVAR'], ['\\\n' in x] * (kind == 'var'))
            ctx.event('layouts_compared')
            ctx.event('continuations', x.count('\\\n'))
            ctx.event('kind_' + kind)
            if '\\\n' in x:
                ctx.shape(x)
                ctx.sample({'one line': one, 'layout': x})


CHECK = Check()
