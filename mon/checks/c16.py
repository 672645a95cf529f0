"""C16 appends meet their recipes in whatever order they are added"""
import itertools
import os

from mon import lab, world
from mon.core import need, same

NAMES = ['foo', 'foo-x', 'foobar', 'gtk+', 'libstdc++', 'a.b', 'a-b', 'axb', 'foo.bar', 'F', 'zz_']
VERS = ['', '1', '1.0', '1.0.1', '110', '1x0', 'git', '1.0+git', '10']


def recipe(rng):
    v = rng.choice(VERS)
    return (rng.choice(NAMES).rstrip('_') + ('_' + v if v else ''))


def append(rng, recipes):
    base = rng.choice(recipes)
    r = rng.random()
    if r < .35:
        return base
    if r < .55:
        return base.split('_')[0] + '_%'
    if r < .65:
        return base.split('_')[0] + '%'
    if r < .75:
        k = rng.randint(0, len(base))
        return base[:k] + '%'
    if r < .8:
        k = rng.randint(0, len(base) - 1)
        return base[:k] + '%' + base[k + 1:]
    if r < .84:
        return '%'
    if r < .88:
        k = rng.randint(0, len(base) - 1)
        return base[:k] + '.' + base[k + 1:]
    if r < .92:
        return base + rng.choice(['.1', '0', '-x'])
    if r < .96:
        return rng.choice(['x', '']) + base[1:]
    return recipe(rng)


class Check:
    quick, thorough = 3000, 100000
    rule = ('1-3 recipes and 1-3 appends with related names (wildcards, special characters, near misses), all placed in one or several directories; recipes that enter by the require of another one; up to 24 add orders each. '
            'Oracle: name matching by construction (literal text, % = any text). Lone appends, recipe list, visibility of append items and their order are compared for every order. '
            'Non-trivial: at least one append that matches and one pair that does not.')
    min_events = {'required_orders': 500, "orders": 5000, 'matching_pairs': 1000, 'other_pairs': 1000, 'lone': 500}

    def case(self, rng, ctx, i):
        recipes = list(dict.fromkeys(recipe(rng) for _ in range(rng.randint(1, 3))))
        appends = list(dict.fromkeys(append(rng, recipes) for _ in range(rng.randint(1, 3))))
        files, sizes = {}, {}
        for r in recipes:
            n = rng.randint(0, 3)
            files['{}/{}.bb'.format(rng.choice(['a', 'b']), r)] = ''.join('R{} = "x"\n'.format(k) for k in range(n + 1))
        for a in appends:
            files['{}/{}.bbappend'.format(rng.choice(['a', 'c']), a)] = ''.join('P{} = "x"\n'.format(k) for k in range(rng.randint(0, 3)))
        # files of other kinds never meet an append, whatever they are called
        others = []
        for x in recipes + [a.replace('%', '') or 'x' for a in appends]:
            if rng.random() < .3:
                others.append('{}/{}.{}'.format(rng.choice(['a', 'b', 'c', 'classes']), x, rng.choice(['inc', 'inc', 'bbclass', 'conf'])))
                files[others[-1]] = 'O = "x"\n'
        others = list(dict.fromkeys(others))
        root = os.path.realpath(ctx.newdir())
        paths = ctx.write(root, files)
        ctx.describe(files)
        names = sorted(files)
        bbs = [x for x in names if x.endswith('.bb')]
        apps = [x for x in names if x.endswith('.bbappend')]
        match = {(a, b): world.append_matches(a, b) for a in apps for b in bbs}
        for v in match.values():
            ctx.event('matching_pairs' if v else 'other_pairs')
        pulled, via = {}, {}
        if len(bbs) > 1 and rng.random() < .4:
            # a recipe may enter through another one, too
            b, t = rng.sample(bbs, 2)
            pulled[b] = t
            files[b] += 'require ../{}\n'.format(t)
            ctx.write(root, {b: files[b]})
            ctx.event('required_recipes')
        hidden = set(pulled.values()) if rng.random() < .7 else set()
        # they may enter by themselves or through a recipe
        for x in others:
            if rng.random() < .5 and x not in pulled.values() and not x.endswith('.bbclass'):
                names.remove(x)
                b = rng.choice(bbs)
                via.setdefault(b, []).append(x)
                files[b] += 'require ../{}\n'.format(x)
                ctx.write(root, {b: files[b]})
        names = [x for x in names if x not in hidden]
        if len(names) < 6:
            orders = list(itertools.permutations(names))
            if len(orders) > 24:
                orders = rng.sample(orders, 24)
        else:
            orders = [tuple(rng.sample(names, len(names))) for _ in range(24)]
        for o in orders:
            s = lab.stash()
            for k, x in enumerate(o):
                s.AddFile(paths[x])
                if rng.random() < .1:
                    s.GetLoneAppends()
            early = rng.random() < .5
            if not early:
                s.Finalize()
            lone = [paths[a] for a in apps if not any(match[a, b] for b in bbs)]
            same('lone appends, added {}'.format(o), s.GetLoneAppends(), sorted(lone))
            if lone:
                ctx.event('lone')
            same('recipes, added {}'.format(o), s.GetRecipes(), sorted(paths[b] for b in bbs))
            for b in bbs:
                mine = [a for a in o if a in apps and match[a, b]]
                got = list(dict.fromkeys(lab.rel(x.Origin, root) for x in s.GetItemsFor(filename=paths[b])))
                if pulled:
                    # the files of the required recipe come along, which is the business of C15
                    need(b in got and set(got) >= {x for x in mine if files[x]}, 'files seen from', b, 'are', got, 'without all of', mine, 'added', o)
                    other = set(pulled) | set(pulled.values())
                    allowed = set(others) | {b} | set(mine) | (other | {a for a in apps for x in other if match[a, x]} if b in other else set())
                    need(set(got) <= allowed, 'files seen from', b, 'are', got, 'but none of', sorted(set(got) - allowed), 'belongs to it, added', o)
                    ctx.event('required_orders')
                    continue
                same('files seen from {}, added {}'.format(b, o), [x for x in got if x not in via.get(b, [])], [b] + [x for x in mine if files[x]])
                same('links of {}'.format(b), {lab.rel(x, root) for x in s.GetLinksForFile(paths[b])}, {x for x in mine if files[x]} | set(via.get(b, [])))
            for x in others:
                if x in names:
                    same('files seen from {}, added {}'.format(x, o), list(dict.fromkeys(lab.rel(y.Origin, root) for y in s.GetItemsFor(filename=paths[x]))), [x])
                    ctx.event('other_kinds')
            ctx.event('orders')
        if len(set(match.values())) == 2:
            ctx.shape(files)
            ctx.sample({'files': names, 'matches': [list(k) for k, v in match.items() if v]})


CHECK = Check()
