"""C34 a recipe is not affected by unrelated files in the same stash"""
import os

from mon import gen, history, lab, world
from mon.core import need, same

NOISE = ['A = "noise"\n', 'PN = "noise"\n', 'PV = "0"\n', 'SRC_URI = "file://n.patch git://n/n;name=n"\n', 'PACKAGES += "noise"\n', 'inherit image packagegroup\n', 'PACKAGES_DYNAMIC = ".*"\n', 'unset A\n', 'A:append = " n"\n', 'A_append = " n"\n',
         'FOO ?= "n"\n', 'FOO ??= "n"\n', 'A:remove = "1"\n', 'do_install() {\n    :\n}\n', 'addtask x after do_install\n', 'require nosuch.inc\n', 'do_broken() {\n', '"""\n', 'A = "\\\n', '\x1b\n', 'python () {\n', 'def x(d):\n    pass\n']


TWIN = 'meta-twin'


def noise(rng):
    """a text that has nothing to do with any other file, sane or not"""
    r = rng.random()
    if r < .6:
        return ''.join(rng.choice(NOISE) for _ in range(rng.randint(0, 30)))
    if r < .8:
        return gen.soup(rng)
    return '\n' * rng.randint(0, 200) + 'X = "1"\n'


def probe_class(ctx):
    """a class shared by an append and another recipe, with and without an unrelated pair of append and recipe"""
    root = ctx.newdir()
    p = ctx.write(root, {'conf/layer.conf': '\n', 'classes/c.bbclass': 'C = "1"\n', 'r/u_%.bbappend': 'X = "1"\n', 'r/a_1.bbappend': 'inherit c\n', 'r/a_1.bb': 'A = "1"\n', 'r/b_1.bb': 'B = "1"\n' * 10 + 'inherit c\n', 'r/u_1.bb': 'U = "1"\n' * 50})

    def order(adds):
        s = lab.stash()
        for a in adds:
            s.AddFile(p[a])
        s.Finalize()
        return [x.VarName for x in s.GetItemsFor(filename=p['r/b_1.bb'], classifier='Variable')]
    alone, crowd = order(['r/a_1.bbappend', 'r/b_1.bb', 'r/a_1.bb']), order(['r/u_%.bbappend', 'r/a_1.bbappend', 'r/b_1.bb', 'r/a_1.bb', 'r/u_1.bb'])
    need(sorted(alone) == sorted(crowd) == ['B'] * 10 + ['C'], 'class probe changed its failure', alone, crowd)
    if alone == crowd:
        return None
    return 'a class used by an append and by another recipe moves within the latter along with the append if unrelated files are added'


class Check:
    quick, thorough = 2600, 60000
    rule = ('Random layers of several recipes with includes, classes and appends are split into groups of files that are related (by including, inheriting or appending, computed from the generated statements). The whole layer, plus unrelated recipes, '
            'appends, includes and configurations of arbitrary text, is filled into one stash in random order; each group alone, in the same relative order, into another. Oracle: every question about a file of the group (items, links, expansions, packages, '
            'names, files) is answered alike by both, exactly for groups without appends, else up to the absolute value of overall lines but in the same order; the lists of recipes, appends and classes of the crowd are those of the groups together. '
            'Non-trivial: a group accompanied by at least one other file.')
    probes = {'shared-class': probe_class}
    min_events = {'answers_compared': 30000, 'groups_compared': 3000, 'items_compared': 20000, 'noise_files': 2500, 'groups_with_appends': 500, 'namesakes': 1000}

    def case(self, rng, ctx, i):
        rich = history.rich_stmt(gen)
        plain = world.plain(rng.choice(['new', 'new', 'old']))
        w = world.build(rng, recipes=(1, 4), appends=(0, 3), incs=(0, 3), classes=(0, 3), size=(0, 4), stmt=lambda r: (rich if r.random() < .5 else plain)(r), shared_inc=rng.random() < .4, shared_cls=rng.random() < .4)
        extra = {}
        for k in range(rng.randint(0, 3)):
            name = rng.choice(['recipes-a/x/nn{}_1.0.bb', 'recipes-n/nn{}.bb', 'recipes-n/nn{}_%.bbappend', 'recipes-n/nnx{}.inc', 'conf/nn{}.conf', 'classes/nn{}.bbclass', 'recipes-a/x/nn{}_2.bbappend']).format(k)
            extra[name] = noise(rng)
            w.stmts[name] = []
            ctx.event('noise_files')
        if rng.random() < .5:
            self.namesakes(rng, ctx, w, extra)
        w.texts.update(extra)
        w.write(ctx)
        history.layer_files(ctx, w)
        adds = world.order(rng, w, [x for x in extra if not x.startswith(TWIN) or '_1.0' in x])
        adds += [x for x in adds if rng.random() < .05 and x.endswith('.bbappend')]
        kw = {'new_style_override_syntax': rng.random() < .3, 'negative_inline': rng.random() < .3}
        ctx.describe({'added': adds, 'files': w.describe(), 'settings': kw})
        groups = self.groups(w, adds)
        crowd = self.fill(w, adds, kw, rng)
        alone = [self.fill(w, [a for a in adds if a in g], kw, rng) for g in groups]
        for g, s in zip(groups, alone):
            self.group(rng, ctx, w, g, crowd, s, len(adds) > len([a for a in adds if a in g]))
        for q in ('GetRecipes', 'GetLoneAppends', 'GetConfFiles', 'GetBBClasses'):
            same(q + ' of all files', getattr(crowd, q)(), sorted({x for s in alone for x in getattr(s, q)()}))
        if any(x.endswith(('.bb', '.bbappend')) for x in adds):
            need(crowd.GetRecipes() or crowd.GetLoneAppends(), 'nothing observed')

    def namesakes(self, rng, ctx, w, extra):
        """another layer with includes and classes of the same names"""
        mine = {TWIN + '/conf/layer.conf': ''}
        pull = []
        for x in w.classes + w.incs:
            if rng.random() < .4:
                continue
            name = rng.choice([x, 'classes/' + os.path.basename(x)] if x in w.classes else [x, os.path.basename(x)])
            st = gen.S(rng.choice(['inherit {}\n', 'INHERIT += "{}"\n']).format(os.path.basename(x)[:-8]) if x in w.classes else 'require {}\n'.format(name), 'Inherit' if x in w.classes else 'Include', {})
            st.targets = ['{}/{}'.format(TWIN, name)]
            mine[st.targets[0]] = 'A = "twin"\n' + noise(rng)
            pull.append(st)
        for x in mine:
            w.stmts[x] = []
        for n, r in enumerate(rng.sample(['r/nntwin_1.0.bb', 'q/nntwin2_1.0.bb', 'zz/zztwin_1.0.bb'], rng.randint(1, 2))):
            name = '{}/{}'.format(TWIN, r)
            w.stmts[name] = [gen.S('T{} = "1"\n'.format(n), 'Variable', {})] + pull
            mine[name] = ''.join(x.text for x in w.stmts[name])
        extra.update(mine)
        ctx.event('namesakes', len(mine) - 2)

    @staticmethod
    def groups(w, adds):
        """sets of related files"""
        res = []
        for a in dict.fromkeys(adds):
            g = set(w.reach(a))
            # an append is related to its recipes
            g |= {r for r in w.recipes if r in adds and a.endswith('.bbappend') and world.append_matches(a, r)}
            for other in [x for x in res if x & g]:
                g |= other
                res.remove(other)
            res.append(g)
        return res

    @staticmethod
    def fill(w, adds, kw, rng):
        s = lab.stash(**kw)
        for a in adds:
            s.AddFile(w.paths[a])
        s.Finalize()
        return s

    def norm(self, v, exact):
        """comparable answer, lines by rank where the absolute value is free"""
        if type(v).__name__ == 'StashList':
            lines = sorted({x.Line for x in v})
            return [(x.Line if exact else lines.index(x.Line),) + history.pic(x)[:2] + history.pic(x)[3:] for x in v]
        return history.norm(v)

    def group(self, rng, ctx, w, g, crowd, s, company):
        files = sorted(x for x in g)
        exact = not any(x.endswith('.bbappend') for x in files)
        if not exact and any(not x.endswith(('.bb', '.bbappend')) and sum(x in w.direct(y) for y in files) > 1 for x in files):
            # the lines of a file used twice fit one of its users only (known findings shared-class of C14, shared-include of C13): what moves that one reorders the others
            ctx.event('groups_without_order')
            return
        if company:
            ctx.shape(w.texts, files)
            ctx.event('groups_compared')
            if not exact:
                ctx.event('groups_with_appends')
        for f in files:
            for q in [('GetItemsFor', (), {'filename': ('file', f)}), ('GetItemsFor', (), {'filename': ('file', f), 'nolink': True}), ('ExpandVar', (), {'filename': ('file', f)}), ('GetLinksForFile', (('file', f),), {}),
                      ('GetValidPackageNames', (('file', f),), {}), ('GetFiles', (('file', f), '*'), {})]:
                self.ask(ctx, w, q, crowd, s, exact)
        for _ in range(8):
            q = history.random_query(rng, files)
            if any(isinstance(x, tuple) for x in list(q[1] or ()) + list(q[2].values())):
                self.ask(ctx, w, q, crowd, s, exact)
        # without naming a file: those of the group among all
        names = {w.paths[f] for f in files}
        for kw in ({}, {'classifier': rng.choice(['Variable', 'Inherit', 'Function', 'Item'])}, {'attribute': 'VarName', 'attributeValue': rng.choice(['A', 'FOO', 'PN'])}):
            got = sorted(history.pic(x)[:2] + history.pic(x)[3:] for x in crowd.GetItemsFor(**kw) if x.Origin in names)
            same('items of the group for {}'.format(kw), got, sorted(history.pic(x)[:2] + history.pic(x)[3:] for x in s.GetItemsFor(**kw)))
            ctx.event('answers_compared')

    def ask(self, ctx, w, q, crowd, s, exact):
        a, b = self.norm(history.call(crowd, q, w.paths), exact), self.norm(history.call(s, q, w.paths), exact)
        same('{} in company of unrelated files'.format(q), a, b)
        ctx.event('answers_compared')
        if q[0] == 'GetItemsFor':
            ctx.event('items_compared', len(a))


CHECK = Check()
