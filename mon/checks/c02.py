"""C02 provenance of every item"""
import os

from mon import gen, lab, world
from mon.core import need, same


class Check:
    quick, thorough = 18000, 150000
    rule = ('Random layers (1-3 recipes, appends, includes and classes nested up to 5 deep, shared and circular ones too), files added in random order, '
            'sometimes twice or by relative path. Non-trivial: at least 3 files contributed items. Oracle: for every item in the stash the text of the file it names, '
            'starting at the line it names, begins with the raw text of the item; and every statement of every reached file is present at its line.')
    min_events = {'items_located': 5000, 'offset_items': 5000}

    def case(self, rng, ctx, i):
        style = 'new'

        def stmt(r):
            return gen.statement(r, style, {'variable': 5, 'function': 2, 'comment': 2, 'blank': 2, 'pydef': 1, 'directive': 1})
        w = world.build(rng, cyclic=rng.random() < .3, size=(0, 6), stmt=stmt)
        if i % 1200 == 3:
            for x in rng.sample(sorted(w.stmts), min(2, len(w.stmts))):
                lead = [gen.blank(rng) for _ in range(rng.choice([300, 1100, 1100, 5000]))]
                w.stmts[x] = lead + w.stmts[x]
                w.texts[x] = '\n' * len(lead) + w.texts[x]
            ctx.event('long_files')
        w.write(ctx)
        todo = world.order(rng, w)
        if rng.random() < .3:
            todo.append(rng.choice(todo + w.incs + w.classes))
        ctx.describe({'files': w.describe(), 'order': todo})
        s = lab.stash()
        cwd = os.getcwd()
        try:
            for x in todo:
                p = w.paths[x]
                r = rng.random()
                if r < .1 and not os.path.islink(w.root):
                    os.chdir(w.root)
                    p = x
                elif r < .2:
                    p = os.path.join(w.root, 'recipes-a', '..', x)
                s.AddFile(p)
        finally:
            os.chdir(cwd)
        if rng.random() < .5:
            s.Finalize()
        seen = {}
        text = {w.paths[k]: lab.norm(v) for k, v in w.texts.items()}
        start = {}
        for p, t in text.items():
            pos = [0]
            for k, c in enumerate(t):
                if c == '\n':
                    pos.append(k + 1)
            start[p] = pos
        for item in s.GetItemsFor():
            need(item.Origin in text, 'item names a file that was never there:', item.Origin)
            pos = start[item.Origin]
            need(1 <= item.InFileLine <= len(pos), 'line', item.InFileLine, 'is not in', item.Origin)
            at = text[item.Origin][pos[item.InFileLine - 1]:]
            need(at.startswith(item.RealRaw), 'text', item.RealRaw, 'is not at line', item.InFileLine, 'of', os.path.relpath(item.Origin, w.root))
            same('IsFromClass of ' + item.Origin, item.IsFromClass, item.Origin.endswith('.bbclass'))
            same('IsFromAppend of ' + item.Origin, item.IsFromAppend(), item.Origin.endswith('.bbappend'))
            seen.setdefault(item.Origin, set()).add(item.InFileLine)
            ctx.event('items_located')
        want = set()
        for x in todo:
            want |= set(w.reach(x, appends=False))
        for x in want:
            same('lines of ' + x + ' that are known', sorted(seen.get(w.paths[x], [])), w.lines(x))
            ctx.event('files_complete')
        if rng.random() < .2:
            self.offset(rng, ctx, w, rng.choice(todo))
        if len(seen) >= 3:
            ctx.shape(w.texts, todo)
            ctx.sample({'files': {k: v[:80] for k, v in w.texts.items()}, 'order': todo})

    def offset(self, rng, ctx, w, x):
        """the lines of a file added with an offset are moved by it, nothing else is"""
        n = rng.choice([1, 7, 1000])
        views = []
        for off in (0, n):
            s = lab.stash()
            s.AddFile(w.paths[x], lineOffset=off)
            views.append([(y.Line - off, y.InFileLine, y.Origin, y.RealRaw, type(y).__name__) for y in s.GetItemsFor()])
        same('{} added with line offset {}'.format(x, n), views[1], views[0])
        ctx.event('offset_items', len(views[0]))


CHECK = Check()
