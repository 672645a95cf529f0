"""C11 the negative-branch switch changes inline conditionals and nothing else"""
import re

from mon import gen, inline, lab, world
from mon.core import same

CONDITIONAL = re.compile(r'bb\.utils\.(contains|filter)|oe\.utils\.')
VALUES = {'Raw', 'InlineBlocks', 'VarValue', 'VarValueStripped', 'Value', 'ValueStripped', 'FuncBody', 'FuncBodyStripped', 'FuncBodyRaw', 'Comment'}


def bare(rng):
    """a conditional, and its branches, none of which is a statement"""
    a, b = rng.choice(['', 'x', 'x y', '-z ']), rng.choice(['', 'q', 'w v'])
    w = rng.choice(['A', 'X_Y'])
    return rng.choice([('${@bb.utils.contains("A", "b", "%s", "%s", d)}' % (a, b), a, b), ('${@bb.utils.filter("%s", "x z", d)}' % w, w, '')])


class Check:
    quick, thorough = 15000, 200000
    rule = ('The same file is parsed by two stashes differing only in the negative-branch switch, and (metamorphic) with every inline conditional substituted by hand by the branch the switch selects. '
            'Oracle: statements without conditionals are identical in both, statements with one equal the hand-substituted ones, in number, kind, lines and values. Whole layers (includes, classes, appends, continued '
            'statements, inline code of other kinds) seen by two such stashes may differ in the values of statements with conditionals only. Non-trivial: both switch settings give different values.')
    min_events = {'pairs': 5000, 'differing': 1000, 'layer_items': 20000, 'layer_differing': 1000}

    def layer(self, rng, ctx):
        def stmt(r):
            if r.random() < .5:
                return gen.statement(r, 'new')
            v = ''
            for _ in range(r.randint(1, 3)):
                v += r.choice(['', ' foo ', ' ${Y} ', ' \\\n    ', ' ']) + r.choice([lambda: inline.block(r, "'", .2)[0], lambda: inline.opaque(r, "'"), lambda: inline.spread(r, inline.block(r, "'")[0]), lambda: r.choice(['a', 'x y', '\\\n'])])()
            return gen.S(r.choice(['{n} {o} "{v}"\n', '{n} {o} "{v}"\n', 'do_x[y] {o} "{v}"\n', 'export {n} = "{v}"\n', 'do_foo() {{\n    x {v}\n}}\n', 'inherit x-{n} \\\n  y\n', 'EXPORT_FUNCTIONS a \\\n b\n', '{b}\n', '  {b}\n']).format(
                b=bare(r)[0],
                n=r.choice(['P', 'Q:append', 'SRC_URI', 'PACKAGES', 'X']), o=r.choice(gen.OPS), v=v), '?')
        w = world.build(rng, stmt=stmt, size=(0, 5)).write(ctx)
        order = world.order(rng, w)
        ctx.describe({'files': w.describe(), 'order': order})
        res = []
        for neg in (False, True):
            s = lab.stash(negative_inline=neg, new_style_override_syntax=True)
            for x in order:
                s.AddFile(w.paths[x])
            s.Finalize()
            res.append((s, [lab.snap(x, w.root) for x in s.GetItemsFor()]))
        (a, pos), (b, neg) = res
        same('number of items', len(neg), len(pos))
        for x, y in zip(pos, neg):
            free = VALUES if CONDITIONAL.search(x['RealRaw']) else ()
            same('item at {InFileLine} of {Origin}'.format(**x), {k: v for k, v in y.items() if k not in free}, {k: v for k, v in x.items() if k not in free})
            if free and '\x1b' not in x['RealRaw']:
                same('inline blocks', [k[0] for k in y['InlineBlocks']], [k[0] for k in x['InlineBlocks']])
            ctx.event('layer_items')
            ctx.event('layer_differing', x != y)
        for x in order:
            p = w.paths[x]
            same('links of ' + x, b.GetLinksForFile(p), a.GetLinksForFile(p))
            same('items of ' + x, [(k.Origin, k.Line) for k in b.GetItemsFor(filename=p)], [(k.Origin, k.Line) for k in a.GetItemsFor(filename=p)])
        for f in ('GetRecipes', 'GetLoneAppends', 'GetBBClasses', 'GetConfFiles'):
            same(f, getattr(b, f)(), getattr(a, f)())
        if pos != neg:
            ctx.shape(w.texts)

    def case(self, rng, ctx, i):
        if i % 5 == 4:
            return self.layer(rng, ctx)
        units = []
        for _ in range(rng.randint(1, 6)):
            if rng.random() < .1:
                # nothing but a conditional
                b, pv, nv = bare(rng)
                pre = rng.choice(['', '', '    ', 'x '])
                units.append((pre + b + '\n', pre + pv + '\n', pre + nv + '\n'))
                ctx.event('bare')
            elif rng.random() < .5:
                v = {True: '', False: ''}
                src = ''
                for _ in range(rng.randint(1, 3)):
                    b, t, f, _k = inline.block(rng, "'")
                    w = rng.choice(['', ' foo', ' ${Y} ', '  '])
                    src += w + b
                    v[False] += w + t
                    v[True] += w + f
                name = rng.choice(['A', 'B:append', 'SRC_URI', 'PACKAGES', 'X'])
                op = rng.choice(gen.OPS)
                fmt = rng.choice(['{n} {o} "{v}"\n', '{n} {o} "{v}"\n', 'do_x[y] {o} "{v}"\n', 'export {n} = "{v}"\n', 'do_foo() {{\n    x {v}\n}}\n'])
                units.append((fmt.format(n=name, o=op, v=src), fmt.format(n=name, o=op, v=v[False]), fmt.format(n=name, o=op, v=v[True])))
            else:
                s = gen.statement(rng, 'new', {'variable': 3, 'function': 1, 'directive': 2, 'blank': 1})
                units.append((s.text,) * 3)
        texts = [''.join(u[k] for u in units) for k in range(3)]
        ctx.describe({'text': texts[0]})
        root = ctx.newdir()

        def parse(n, text, neg):
            p = ctx.write(root + '/' + n, {'foo_1.0.bb': text})['foo_1.0.bb']
            s = lab.stash(negative_inline=neg, new_style_override_syntax=True)
            return [lab.snap(x, root + '/' + n) for x in s.AddFile(p)]
        pos, neg = parse('p', texts[0], False), parse('n', texts[0], True)
        hpos, hneg = parse('hp', texts[1], False), parse('hn', texts[2], True)
        hcross = parse('hc', texts[1], True)
        for n, x in (('negative', neg), ('substituted', hpos), ('substituted negative', hneg)):
            same('number of items ({})'.format(n), len(x), len(pos))
        skip = ('RealRaw', 'InlineBlocks')

        def cut(x):
            return {k: v for k, v in x.items() if k not in skip}
        for k, u in enumerate(units):
            same('positive branch of ' + repr(u[0]), cut(pos[k]), cut(hpos[k]))
            same('negative branch of ' + repr(u[0]), cut(neg[k]), cut(hneg[k]))
            same('switch without conditionals on ' + repr(u[1]), cut(hcross[k]), cut(hpos[k]))
            for f in ('RealRaw', 'InFileLine', 'Line', '__class__'):
                same(f, neg[k][f], pos[k][f])
            same('blocks', [b[0] for b in neg[k]['InlineBlocks']], [b[0] for b in pos[k]['InlineBlocks']])
            if u[0] == u[1]:
                same('statement without a conditional', neg[k], pos[k])
            ctx.event('pairs')
            if cut(pos[k]) != cut(neg[k]):
                ctx.event('differing')
        if pos != neg:
            ctx.shape(texts[0])
            ctx.sample({'text': texts[0][:300]})


CHECK = Check()
