"""C39 where a layer lives does not matter"""
import os
import pathlib

from mon import gen, history, lab, world
from mon.core import need, same
from mon.view import compare

NAMES = ['a b', ' x', 'x ', '[ab]', '*', '?', '100%', 'ü', '漢字', "it's", 'q"q', '(x)', '{x}', '$x', '$HOME', '~', '#x', 'a\\b', '-', '--x', '...', '.hidden', 'a,b', 'a;b=c', 'a:b', 'a=b', '!', '&', '|', '+', '^', 'classes', 'classes-recipe', 'classes-global', 'conf',
         'machine', 'distro', 'files', 'recipes-a', 'x', 'foo_1.0.bb', 'x.bbclass', 'y.bbappend', 'z.inc', 'k.conf', 'foo_%', 'layer.conf', 'meta', 'a_b_c', 'append', 'inherit', 'A = "1"', '# x', '\x0b', '\u2028', '\x1b', '\t', 'p' * 120, '__pycache__', 'oelint_parser', 'virtual:native:x', 'file:', 'git+x@y', 'a' * 3 + '.' * 4, 'do_x() {', '\U0001f600', 'e\u0301', 'none', '1']
STMTS = ['include ${THISDIR}/t.inc\n', 'require conf/c.inc\n', 'T = "${THISDIR}"\n', 'F = "${FILE}"\n', 'include nosuch.inc\n', 'SRC_URI = "file://x.patch"\n', 'X:my-mach = "1"\n', 'X:my-dist = "1"\n', 'inherit nosuch\n', 'inherit t\n', 'X:qemuarm = "1"\n']


class Check:
    quick, thorough = 1500, 50000
    rule = ('The same layer (recipes, includes, classes, appends, machine and distro configurations, source files) is written below a plain directory and below directories with names of all kinds (blanks, pattern and control characters, names of layer parts, of files of metadata, of directives, any depth, reached by '
            'symbolic links), files are added by different spellings of their path. Oracle (metamorphic): after taking out the path of the layer every answer (items, order, attributes, lines, links, expansions, packages, files, layer root, machines, distros) is alike. Non-trivial: all.')
    min_events = {'answers_compared': 30000, 'items_compared': 30000, 'lines_compared': 30000, 'strange_roots': 1200, 'spellings': 1000, 'linked_roots': 100}

    def place(self, rng, ctx):
        base = os.path.realpath(ctx.newdir())
        root = os.path.join(base, *[rng.choice(NAMES) for _ in range(rng.choice([1, 1, 2, 3, 5]))])
        os.makedirs(root)
        if rng.random() < .15:
            link = os.path.join(base, 'L' + rng.choice([x for x in NAMES if x not in ('~',)])[:50])
            os.symlink(root, link)
            root = link
            ctx.event('linked_roots')
        ctx.event('strange_roots')
        return root

    @staticmethod
    def spell(rng, ctx, path, root):
        r = rng.random()
        if r < .6:
            return path
        ctx.event('spellings')
        rel = os.path.relpath(path, root)
        if rng.random() < .3:
            return pathlib.Path(path) if rng.random() < .5 else os.path.relpath(path)
        return rng.choice([root + '/./' + rel, root + '//' + rel, root + '/conf/../' + rel, os.path.dirname(path) + '/././' + os.path.basename(path), os.path.dirname(path) + '/../' + os.path.basename(os.path.dirname(path)) + '/' + os.path.basename(path)])

    def case(self, rng, ctx, i):
        rich, plain = history.rich_stmt(gen), world.plain(rng.choice(['new', 'new', 'old']))

        root = self.place(rng, ctx)
        # values are lists of words, what is split there is no matter of the place
        whole = not any(c.isspace() or c == '\x1b' for c in root)
        stmts = STMTS if whole else [x for x in STMTS if x[0] not in 'TF']

        def stmt(r):
            if r.random() < .15:
                return gen.S(r.choice(stmts), '?')
            return (rich if r.random() < .5 else plain)(r)
        w = world.build(rng, recipes=(1, 2), appends=(0, 2), incs=(0, 3), classes=(0, 3), size=(0, 6), stmt=stmt)
        texts = dict(w.texts)
        texts.update({'conf/c.inc': 'C = "1"\n', 'conf/machine/my-mach.conf': 'M = "1"\n', 'conf/distro/my-dist.conf': 'D = "1"\n', rng.choice(['classes', 'classes-recipe', 'classes-global']) + '/t.bbclass': 'T = "t"\n'})
        for f in w.recipes + w.incs:
            d = os.path.dirname(f)
            texts.setdefault(d + '/t.inc', 'TT = "1"\n')
            texts.setdefault(d + '/files/x.patch', '')
            texts.setdefault(d + '/files/' + rng.choice(['y', 'z.patch', 'ü']), '')
        plain_root = os.path.realpath(ctx.newdir())
        plain_paths = ctx.write(plain_root, texts)
        paths = ctx.write(root, texts)
        order = world.order(rng, w, ['conf/layer.conf'] if rng.random() < .3 else [])
        kw = {'new_style_override_syntax': rng.random() < .4, 'negative_inline': rng.random() < .3}
        ctx.describe({'root': root, 'added': order, 'files': texts, 'settings': kw})
        ctx.shape(root, texts)
        ctx.sample({'root': root})
        known = []
        res = []
        const = lab.CONSTANTS
        before = {k: list(getattr(const, k)) for k in ('MachinesKnown', 'DistrosKnown')}
        for r, p in ((plain_root, plain_paths), (root, paths)):
            const.OverrideConstants({'replacements': {'machines': list(before['MachinesKnown']), 'distros': list(before['DistrosKnown'])}})
            s = lab.stash(**kw)
            for a in order:
                s.AddFile(self.spell(rng, ctx, p[a], r) if r == root else p[a])
            s.Finalize()
            res.append(s)
            known.append((list(const.MachinesKnown), list(const.DistrosKnown)))
        same('machines and distros known of the layer in ' + root, known[1], known[0])
        need('my-mach' in known[1][0] and 'my-dist' in known[1][1], 'machines and distros are not known', known[1])
        roots = (plain_root, root)
        parsed = [k for k in sorted(w.stmts)]
        compare(ctx, 'of a layer in ' + root, res[0], res[1], [(plain_paths[k], paths[k]) for k in rng.sample(parsed, min(3, len(parsed)))], roots)
        a, b = (s.GetItemsFor() for s in res)
        same('number of items', len(b), len(a))
        for x, y in zip(a, b):
            same('item of a layer in ' + root, lab.snap(y, root), lab.snap(x, plain_root))
            same('views of an item of a layer in ' + root, self.views(y), self.views(x))
            ctx.event('lines_compared')
        for k in ['conf', 'conf/machine', 'conf/distro', 'classes', '.', 'nosuch', 'conf/nosuch.conf'] + [os.path.dirname(x) for x in order] + order:
            same('layer root of {} in {}'.format(k, root), *[s.GetLayerRoot(os.path.normpath(os.path.join(r, k))).replace(r, '<ROOT>') for s, r in zip(res[::-1], roots[::-1])])
            if os.path.exists(os.path.join(root, k)):
                same('layer root of {} in {}'.format(k, root), res[1].GetLayerRoot(os.path.normpath(os.path.join(root, k))), root)
        for k in order:
            for t in ('${THISDIR}/x', '${FILE}', '${T} ${F}'):
                same('{} of {} in {}'.format(t, k, root), res[1].ExpandTerm(paths[k], t).replace(root, '<ROOT>'), res[0].ExpandTerm(plain_paths[k], t).replace(plain_root, '<ROOT>'))
            for n in ('t.inc', 'conf/c.inc', 'classes/t.bbclass', 'nosuch'):
                same('place of {} seen from {} in {}'.format(n, k, root), res[1].FindLocalOrLayer(n, os.path.dirname(paths[k])).replace(root, '<ROOT>'), res[0].FindLocalOrLayer(n, os.path.dirname(plain_paths[k])).replace(plain_root, '<ROOT>'))

    @staticmethod
    def views(x):
        return [getattr(x, n)() if hasattr(x, n) else None for n in ('IsFromAppend', 'IsAppend', 'AppendOperation', 'IsMultiLine', 'GetDistroEntry', 'GetMachineEntry', 'GetClassOverride', 'IsImmediateModify', 'get_items')]


CHECK = Check()
