"""C14 items come back in the order bitbake processes them"""
import itertools

from mon import gen, lab, world
from mon.core import need, same

NOTE = 'classes are parsed once: their overall lines are relative to the first file inheriting them'


def observed(s, w, items):
    return [(lab.rel(x.Origin, w.root), x.InFileLine) for x in items]


def probe_class(ctx):
    root = ctx.newdir()
    p = ctx.write(root, {'conf/layer.conf': '', 'r/a_1.bb': 'A = "1"\n' * 9 + 'inherit c\n', 'r/b_1.bb': 'inherit c\nB = "2"\n', 'classes/c.bbclass': 'C = "3"\n'})
    s = lab.stash()
    s.AddFile(p['r/a_1.bb'])
    s.AddFile(p['r/b_1.bb'])
    s.Finalize()
    seq = [x.VarName for x in s.GetItemsFor(filename=p['r/b_1.bb'], classifier='Variable')]
    if seq == ['C', 'B']:
        return None
    need(seq == ['B', 'C'], 'class probe changed its failure', seq)
    return 'a class also inherited by a recipe added earlier is not placed after the inherit statement of the second one'


class Check:
    quick, thorough = 6000, 150000
    rule = ('Random layers (recipes, appends matching one or several recipes, includes and classes nested up to 4 levels, every file pulled in from one place) added in random order; for up to 4 files every add order. '
            'Oracle: the processing order known by construction; overall lines must strictly increase along it. Non-trivial: at least 2 files visible from a recipe.')
    min_events = {'sequences': 3000, 'with_appends': 600, 'append_first': 200, 'deep': 300, 'all_orders': 30, 'shared_includes': 300}
    probes = {'shared-class': probe_class}

    def case(self, rng, ctx, i):
        deep = i % 3 == 0
        full = i % 20 == 0
        kw = dict(recipes=(1, 1), appends=(0, 3), maxdepth=4) if deep else dict(recipes=(1, 3), appends=(0, 4), maxdepth=2, append_depth=1)
        if full:
            kw = dict(recipes=(1, 2), appends=(1, 2), maxdepth=2, append_depth=1)
        names = rng.choice([['foo'], ['foo', 'foobar', 'foo-x'], None])
        w = world.build(rng, incs=(0, 4), classes=(0, 3), shared_inc=False, shared_cls=False, repeat=False, size=(0, 6), names=names, **kw)
        w.write(ctx)
        if i % 6 == 1:
            self.loose(rng, ctx)
        adds = world.order(rng, w)
        orders = list(itertools.permutations(adds)) if full and len(adds) <= 4 else [adds]
        for adds in orders:
            self.run(rng, ctx, w, list(adds), deep)
            if len(orders) > 1:
                ctx.event('all_orders')
        ctx.sample({'files': sorted(w.texts), 'added': list(adds)})

    def loose(self, rng, ctx):
        # includes used by several files are listed once per use: the order is in there
        w = world.build(rng, incs=(1, 4), classes=(0, 0), shared_inc=True, repeat=False, size=(0, 5), recipes=(1, 2), appends=(0, 2), maxdepth=2, append_depth=1)
        w.write(ctx)
        adds = world.order(rng, w)
        ctx.describe({'added': adds, 'files': w.describe()})
        s = lab.stash(new_style_override_syntax=True)
        for a in adds:
            s.AddFile(w.paths[a])
        s.Finalize()
        for r in w.recipes:
            want = world.process(w, r, set())
            for a in adds:
                if a in w.appends and world.append_matches(a, r):
                    want += world.process(w, a, set())
            items = s.GetItemsFor(filename=w.paths[r])
            got = observed(s, w, items)
            same('statements visible from ' + r, sorted(set(got)), sorted(set(want)))
            pos = 0
            for x in want:
                while pos < len(got) and got[pos] != x:
                    pos += 1
                need(pos < len(got), 'items of', r, 'added', adds, 'are', got, 'which does not hold the order', want, 'at', x)
                pos += 1
            ctx.event('shared_includes')

    def run(self, rng, ctx, w, adds, deep):
        ctx.describe({'added': adds, 'files': w.describe()})
        s = lab.stash(new_style_override_syntax=True)
        for a in adds:
            s.AddFile(w.paths[a])
        if rng.random() < .7:
            s.Finalize()
            final = True
        else:
            final = False
        sig = []
        for r in w.recipes:
            apps = [a for a in adds if a in w.appends and world.append_matches(a, r)]
            want = world.process(w, r, set())
            for a in apps:
                want += world.process(w, a, set())
            items = s.GetItemsFor(filename=w.paths[r])
            if not final or deep:
                # without the closure of the links: everything parsed, cut down to what belongs to this recipe
                keep = {x[0] for x in want}
                items = [x for x in s.GetItemsFor() if lab.rel(x.Origin, w.root) in keep]
            got = observed(s, w, items)
            same('order of the items of {} (added {})'.format(r, adds), got, want)
            lines = [x.Line for x in items]
            for a, b, x in zip(lines, lines[1:], got[1:]):
                need(b > a, 'overall line', b, 'of', x, 'is not behind', a)
            ctx.event('sequences')
            ctx.event('items_ordered', len(items))
            if apps:
                ctx.event('with_appends')
                if adds.index(apps[0]) < adds.index(r):
                    ctx.event('append_first')
            if len({x[0] for x in want}) > 1:
                sig.append(want)
        if deep:
            ctx.event('deep')
        if sig:
            ctx.shape(sig, adds)


CHECK = Check()
