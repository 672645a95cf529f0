"""C15 files are linked exactly to what they pull in"""
from mon import gen, lab, world
from mon.core import need, same


def probe_depth(ctx):
    root = ctx.newdir()
    files = {'r/a_1.bb': 'R = "1"\n', 'r/a_1.bbappend': 'require 1.inc\n'}
    for n in range(1, 6):
        files['r/{}.inc'.format(n)] = 'A{} = "1"\n'.format(n) + ('require {}.inc\n'.format(n + 1) if n < 5 else '')
    p = ctx.write(root, files)
    s = lab.stash()
    s.AddFile(p['r/a_1.bb'])
    s.AddFile(p['r/a_1.bbappend'])
    s.Finalize()
    seen = [x.VarName for x in s.GetItemsFor(filename=p['r/a_1.bb'], classifier='Variable')]
    want = ['R'] + ['A{}'.format(n) for n in range(1, 6)]
    if seen == want:
        return None
    need(seen == want[:len(seen)] and len(seen) >= 2, 'depth probe changed its failure', seen)
    return 'a bbappend added after its recipe pulls in includes nested 5 deep, only {} of them visible from the recipe'.format(len(seen) - 1)


class Check:
    quick, thorough = 4800, 150000
    rule = ('Random include/inherit/append graphs (shared files, circles, unreachable decoys) added in random order, finalized. Oracle: reachability known by construction: everything within two hops is visible, '
            'nothing unreachable ever is, own items only without links; link lists and used-by sets agree with the visibility. Non-trivial: at least 3 files reachable from a recipe.')
    min_events = {"recipes": 2000, "pairs_required": 3000, "pairs_forbidden": 3000, 'circles': 200, 'used_by': 10000, 'forced': 1000}
    probes = {'link-depth': probe_depth}

    def case(self, rng, ctx, i):
        cyc = rng.random() < .3
        w = world.build(rng, recipes=(1, 4), appends=(0, 3), incs=(0, 5), classes=(0, 4), cyclic=cyc, size=(1, 3), empty=False, maxdepth=rng.choice([1, 2, 3, 4]))
        w.write(ctx)
        if i % 6 == 0:
            self.forced(rng, ctx)
        adds = world.order(rng, w)
        if rng.random() < .15:
            adds.append(rng.choice(adds + w.incs + w.classes))
        if len(adds) > 2 and rng.random() < .3:
            adds = adds[:-1]
        ctx.describe({'added': adds, 'files': w.describe()})
        s = lab.stash(new_style_override_syntax=True)
        for a in adds:
            s.AddFile(w.paths[a])
        s.Finalize()
        if rng.random() < .3:
            s.Finalize()
        everything = s.GetItemsFor()
        parsed = {lab.rel(x.Origin, w.root) for x in everything}
        given = set(adds)
        visible = {}
        for f in sorted(parsed):
            path = w.paths[f]
            items = list(s.GetItemsFor(filename=path))
            vis = {lab.rel(x.Origin, w.root) for x in items}
            visible[f] = {id(x) for x in items}
            w2 = {x: d for x, d in self.reach(w, f, given).items()}
            if f in w.recipes:
                ctx.event('recipes')
            for x in sorted(vis):
                need(x in w2, x, 'is visible from', f, 'but never pulled in by it')
            for x, d in w2.items():
                if d <= 2 and x in parsed:
                    need(x in vis, x, 'is not visible from', f, 'although pulled in (distance {})'.format(d))
                    ctx.event('pairs_required')
            ctx.event('pairs_forbidden', len(parsed) - len(w2))
            # all items of a visible file, not some
            for x in vis:
                n = len([y for y in everything if y.Origin == w.paths[x]])
                same('items of {} seen from {}'.format(x, f), len([y for y in items if y.Origin == w.paths[x]]), n)
            own = s.GetItemsFor(filename=path, nolink=True)
            same('own items of ' + f, [x for x in items if x.Origin == path], list(own))
            same('links of ' + f, {lab.rel(x, w.root) for x in s.GetLinksForFile(path)}, vis - {f})
            if any(x != f and self.reach(w, x, given).get(f) for x in w2):
                ctx.event('circles')
            if f in w.recipes and len(w2) >= 3:
                ctx.shape(w.texts, adds)
                ctx.sample({'recipe': f, 'visible': sorted(vis), 'added': adds})
        for x in everything:
            for r in w.recipes:
                if r in parsed:
                    same('{} used by {}'.format(lab.rel(x.Origin, w.root), r), w.paths[r] in x.IncludedFrom, id(x) in visible[r])
                    ctx.event('used_by')
            for r in w.recipes:
                if r not in parsed:
                    need(w.paths[r] not in x.IncludedFrom, 'used by unknown', r)
        same('recipes', [lab.rel(x, w.root) for x in s.GetRecipes()], sorted(set(adds) & set(w.recipes)))

    def forced(self, rng, ctx):
        """links asked for by the caller"""
        root = ctx.newdir()
        files = {x: 'V{} = "1"\n'.format(n) for n, x in enumerate(rng.sample(['r/a_1.bb', 'r/b.bb', 'x.inc', 'classes/y.bbclass', 'conf/z.conf', 'r/q_%.bbappend', 'c/b2.bb'], 5))}
        p = ctx.write(root, files)
        todo = [(x, None) for x in files] + [(rng.choice(list(files)), rng.choice(list(files))) for _ in range(rng.randint(1, 4))]
        todo = [(x, y) for x, y in todo if x != y]
        rng.shuffle(todo)
        ctx.describe({'files': files, 'added with link': todo})
        s = lab.stash()
        for x, y in todo:
            s.AddFile(p[x], forcedLink=y and p[y])
        if rng.random() < .5:
            s.Finalize()
        for f in files:
            direct = {f} | {x for x, y in todo if y == f}
            most = set(direct)
            for _ in files:
                most |= {x for x, y in todo if y in most}
            vis = {lab.rel(x.Origin, root) for x in s.GetItemsFor(filename=p[f])}
            need(direct <= vis <= most, 'visible from', f, 'after', todo, ':', sorted(vis), 'linked', sorted(direct), 'indirectly', sorted(most))
            same('links of {} after {}'.format(f, todo), {lab.rel(x, root) for x in s.GetLinksForFile(p[f])}, vis - {f})
            ctx.event('forced')

    @staticmethod
    def reach(w, f, given):
        full = w.matching_appends
        try:
            w.matching_appends = lambda r: [x for x in full(r) if x in given]
            return w.reach(f)
        finally:
            del w.matching_appends


CHECK = Check()
