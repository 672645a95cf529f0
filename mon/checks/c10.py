"""C10 inline conditionals take the configured branch and stay reversible"""
import os

from mon import gen, inline, lab
from mon.core import need, same  # noqa: I001
from oelint_parser.inlinerep import inlinerep


class Check:
    quick, thorough = 36000, 300000
    rule = ('Variable values built from literal words, inline conditionals of all 13 emulated forms (both quote styles, spacing, optional arguments left out, commas, brackets and other quotes inside of arguments, calls as arguments, expressions continued on further lines) and blocks without emulation. '
            'Oracle: generator knows both branches; the value must be the literal text with each block replaced by the configured branch, raw text and block list keep the original, '
            'blocks without emulation come back verbatim from expansion. Non-trivial: at least one block.')
    min_events = {'blocks': 5000, 'opaque': 1000, 'spread': 300, 'nested': 1000, 'rich': 300}

    def case(self, rng, ctx, i):
        neg = rng.random() < .5
        # 1: the expression on its own
        rich, nest = rng.choice([(0, 0), (.3, 0), (.3, .3)])
        src, t, f, kind = inline.block(rng, rich=rich, nest=nest)
        if rng.random() < .2:
            src = inline.spread(rng, src)
            ctx.event('spread', int('\\\n' in src))
        ctx.describe({'block': src, 'negative': neg})
        same('branch of {} (negative={})'.format(src, neg), inlinerep(src, neg), f if neg else t)
        ctx.event('alone_' + kind)
        same('branch of {} by default'.format(src), inlinerep(src), t)
        same('branch of {} by default'.format(src), inlinerep(_in=src, negative_clause=not neg), t if neg else f)
        ctx.event('nested', int('_nested' in kind))
        ctx.event('rich', int(any(x in src for x in (', y', '="', 'a,b', '(a,', 'f(x)'))))
        o = inline.opaque(rng)
        ctx.describe({'block': o})
        same('emulation of ' + o, inlinerep(o, neg), None)
        # 2: inside values
        text, want, blocks, exp = '', '', [], []
        parts = []
        nblk = rng.randint(1, 4)
        for n in range(rng.randint(nblk, nblk + 4)):
            r = rng.random()
            if n < nblk and r < .75:
                src, t, f, kind = inline.block(rng, "'", rich, nest)
                if rng.random() < .1:
                    src = inline.spread(rng, src)
                    ctx.event('spread', int('\\\n' in src))
                b = f if neg else t
                text += src
                want += b
                parts.append(b)
                blocks.append((src, b))
                ctx.event('blocks')
            elif n < nblk:
                src = inline.opaque(rng, "'")
                if rng.random() < .1:
                    src = inline.spread(rng, src)
                text += src
                want += '\0'
                parts.append(src)
                blocks.append((src, None))
                ctx.event('opaque')
            else:
                w = rng.choice(['foo', '--x', 'a=b', '${Y}', "'z'", 'lib'])
                text += w
                want += w
                parts.append(w)
            s = rng.choice([' ', ' ', '', '  '])
            text += s
            want += s
            parts.append(s)
        kindof = rng.choice(['var', 'var', 'flag', 'export'])
        head = {'var': 'TESTVAR = "', 'flag': 'do_x[y] = "', 'export': 'export FOO = "'}[kindof]
        before, bs = gen.compose(rng, [gen.statement(rng, 'new') for _ in range(rng.randint(0, 2))], nonl=False)
        stm = head + text + '"\n'
        near = rng.choice(['ZZZ = "1"\n', '# c\n', '# c\n# d\n', '  # c\n', 'def f(d):\n    pass\n', 'def f(d):\n    pass\n\n', '\n', 'do_x() {\n    :\n}\n', 'A = "x \\\n y"\n', 'inherit z\n', ''])
        if near.startswith('#') and bs and bs[-1].cls in ('Comment', 'PythonBlock'):
            near = 'ZZZ = "1"\n'
        if near == '' and bs and bs[-1].cls == 'PythonBlock' and kindof == 'export':
            near = 'ZZZ = "1"\n'
        full = before + near + stm + 'YYY = "2"\n'
        ctx.describe({'text': full, 'negative': neg})
        if rng.random() < .7:
            s, items, path = lab.parse_text(ctx, full, negative_inline=neg, new_style_override_syntax=True)
        else:
            # any kind of file, added or pulled in
            name, pull = rng.choice([('x.inc', 'require x.inc\n'), ('classes/k.bbclass', 'inherit k\n'), ('classes/k.bbclass', 'INHERIT += "k"\n'), ('classes-recipe/k.bbclass', 'inherit_defer k\n'), ('foo_1.0.bbappend', ''), ('conf/z.conf', ''), ('z_%.bbappend', '')])
            root = ctx.newdir()
            p = ctx.write(root, {name: full, 'foo_1.0.bb': pull, 'conf/layer.conf': ''})
            s, path = lab.stash(negative_inline=neg, new_style_override_syntax=True), p[name]
            s.AddFile(p['foo_1.0.bb'])
            if not pull or rng.random() < .2:
                s.AddFile(path)
            items = s.GetItemsFor(filename=path, nolink=True)
            items = [x for k, x in enumerate(items) if not k or items[k - 1].InFileLine != x.InFileLine] if pull.startswith('req') else items
            ctx.event('in_' + os.path.splitext(name)[1][1:])
        item = items[-2]
        same('raw text', item.RealRaw, stm)
        same('last statement', items[-1].VarValueStripped, '2')
        val = {'var': lambda x: x.VarValue, 'flag': lambda x: x.Value, 'export': lambda x: '"' + x.Value + '"'}[kindof](item)
        # the placeholder for blocks without emulation is the value the item itself reports for them
        ph = [r for o, r in item.InlineBlocks]
        same('recorded blocks', [x for x, _ in item.InlineBlocks], [x for x, _ in blocks])
        same('replacements', [r if b is not None else None for r, (_, b) in zip(ph, blocks)], [b for _, b in blocks])
        w = want
        for r, (_, b) in zip(ph, blocks):
            if b is None:
                need('${@' not in r and r, 'placeholder', r)
                w = w.replace('\0', r, 1)
        same('value of ' + stm, val.strip(), '"' + w + '"')
        if kindof == 'var' and '"' not in w:
            exp = s.ExpandVar(filename=path, attribute='VarName', attributeValue='TESTVAR')
            flat = ''.join(parts)
            if not any(x in flat for x in ('${P', '${@d.', '${FOO}', '${a-b}')):
                same('expanded ' + stm, exp['TESTVAR'], flat.split())
                ctx.event('expanded')
            if any(b is None for _, b in blocks):
                t = s.ExpandTerm(path, item.VarValueStripped, objref=item)
                if not any(x in flat for x in ('${P', '${@d.', '${FOO}')):
                    same('term ' + stm, t, flat)
                ctx.event('restored')
        ctx.shape(stm, neg)
        ctx.sample({'statement': stm, 'negative': neg, 'value': val})


CHECK = Check()
