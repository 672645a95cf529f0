"""C28 package knowledge of a recipe is complete"""
import os
import re

from mon import gen, lab
from mon.core import need, same

STD = ['', '-src', '-dbg', '-staticdev', '-dev', '-doc', '-locale', '-ptest']
PKGS = ['${PN}-x', '${PN}-y-z', 'pre-${PN}', 'own', 'lib${PN}', 'a.b', '${EXTRA}', '${PN}-${EXTRA}', '${BPN}-b', '${PN}${PN}', '${PN}-dev', 'x+y', 'foo-lit', '${NOSUCH}', '${PN}', '${PV}', '${TWO}', 'Q_1']
PATTERNS = [('^${PN}-lib.*', '${PN}-libx'), ('^foo-', 'foo-'), ('^${BPN}-[0-9]$', '${BPN}-7'), ('.*-all', 'x-all'), ('^(a|b)c', 'bc'), ('plug-.*', 'plug-x'), ('^${EXTRA}-m', 'extra-m'), ('^[a-z][a-z][a-z]$', 'abc'), ('^q?z', 'qz'), ('^end$', 'end')]
BROKEN = ['^foo-(.*', '*x', '[a-', 'c++++', 'x{2', '(?P<', ')']


def fits(pattern, name):
    try:
        return bool(re.match(pattern, name))
    except re.error:
        # no pattern at all
        return False
PROBES = ['${PN}-libx', '${PN}-lib', '${PN}', 'foo-', 'foo', 'xfoo-1', '${BPN}-7', '${BPN}-77', 'zz-all', '-all', 'all', 'bc', 'ac', 'cc', 'plug-1', 'a-plug-1', 'extra-m', '${EXTRA}-m1', 'abc', 'abcd', 'z', 'qz', 'qqz', 'end', 'ends', 'nothing', 'x y', '1']
OPS = ['=', '+=', '=+', '.=', '=.', '?=', ':=', '??=']
HARMLESS = ['MY_IMAGE_INSTALL = "a"\n', '# IMAGE_INSTALL = "a"\n', '# inherit core-image packagegroup\n', 'IMAGE_INSTALL_X = "1"\n', 'do_x() {\n    inherit core-image\n    IMAGE_FEATURES="1"\n}\n', 'X = "inherit core-image packagegroup IMAGE_INSTALL = "\n', 'unset IMAGE_INSTALL\n',
            'IMAGE_FEATURES[doc] = "x"\n', 'image = "1"\n', 'inherit my-core-image\n', 'inherit packagegroups image-x\n', 'export PACKAGES_\n', 'PACKAGES[x] = "no1"\n', 'PACKAGESX = "no2"\n', 'MYPACKAGES = "no3"\n', '# PACKAGES = "no4"\n', 'include core-image.inc\n',
            'PACKAGES:remove = "no5 ${PN}-no6"\n', 'PACKAGES_DYNAMIC:remove = ".*"\n', 'PACKAGES_DYNAMIC[doc] = ".*"\n', 'XPACKAGES_DYNAMIC = ".*"\n', '#PACKAGES_DYNAMIC = ".*"\n', 'addtask image\n', 'PACKAGEGROUP = "packagegroup"\n', 'inherit x-packagegroup packagegroup-x\n', 'inherit ${X}-packagegroup\n', 'inherit core-imagex Core-image\n', 'inherit PackageGroup\n']


class Check:
    quick, thorough = 9000, 100000
    rule = ('Package lists, dynamic patterns, classes and image variables assembled by construction and spread over recipe, include, include of include, class and append, any operator, single and multi line, beside a second recipe with its own '
            'and statements which only look alike. Oracle: the parts; for patterns the regular expression library. Non-trivial: a recipe with a part from another file.')
    min_events = {'recipes': 1000, 'package_sets': 2000, 'image': 200, 'no_image': 300, 'packagegroup': 100, 'no_packagegroup': 500, 'dynamic': 2000, 'not_dynamic': 10000, 'foreign': 500, 'blank_edges': 100}

    def case(self, rng, ctx, i):
        const = lab.CONSTANTS
        pn = rng.choice(['foo', 'foo-native', 'nativesdk-qq', 'a.b', 'lib-x', 'zlib', 'Foo', 'libX11-ZZ', 'gtk+3', '7z'])
        bpn = pn.replace('-native', '').replace('nativesdk-', '')
        stem = pn + '_1.0'
        main = 'r/{}.bb'.format(stem)
        files = {main: [], 'r/other_2.bb': []}
        pulls = {}
        if rng.random() < .6:
            files['r/a.inc'] = []
            pulls[main] = ['require a.inc\n']
            if rng.random() < .5:
                files['r/b.inc'] = []
                pulls['r/a.inc'] = ['include b.inc\n']
        if rng.random() < .4:
            files['classes/c.bbclass'] = []
            pulls.setdefault(main, []).append('inherit c\n')
        if rng.random() < .6:
            files['b/{}.bbappend'.format(rng.choice([stem, pn + '_%']))] = []
        own = [x for x in files if 'other' not in x]
        want = {x: {'pkgs': [], 'image': False, 'group': False, 'dyn': []} for x in ('own', 'other')}
        foreign = False
        for f, out in files.items():
            w = want['own' if f in own else 'other']
            for _ in range(rng.randint(0, 3)):
                r = rng.random()
                add = None
                if r < .35:
                    ps = [rng.choice(PKGS) for _ in range(rng.randint(0, 4))]
                    var = rng.choice(['PACKAGES', 'PACKAGES', 'PACKAGE_BEFORE_PN', 'PACKAGES:append', 'PACKAGES:prepend', 'PACKAGES:qemuarm'])
                    add = self.assign(rng, ctx, var, ps)
                    w['pkgs'] += ps
                elif r < .55:
                    ps = [rng.choice(PATTERNS)[0] if rng.random() < .93 else rng.choice(BROKEN) for _ in range(rng.randint(0, 2))]
                    add = self.assign(rng, ctx, rng.choice(['PACKAGES_DYNAMIC', 'PACKAGES_DYNAMIC', 'PACKAGES_DYNAMIC:append']), ps)
                    w['dyn'] += ps
                elif r < .63:
                    k = rng.choice(const.ImagesClasses)
                    add = rng.choice(['inherit {}\n', 'inherit zz {}\n', 'inherit_defer {} yy\n', 'inherit  a  {}\tb\n', 'inherit a\t{}\n', 'inherit \\\n    a \\\n    {} \\\n    b\n', 'inherit\t{}\n', 'inherit {} \n', 'INHERIT += "{}"\n', 'INHERIT += "a\t{} b"\n']).format(k)
                    w['image'] = True
                elif r < .7:
                    k = rng.choice(const.ImagesVariables)
                    add = '{}{} {} "{}"\n'.format(k, rng.choice(['', '', ':append', ':qemuarm']), rng.choice(OPS), rng.choice(['', '1', 'a b']))
                    w['image'] = True
                elif r < .78:
                    add = rng.choice(['inherit packagegroup\n', 'inherit x packagegroup\n', 'inherit packagegroup y\n', 'inherit_defer packagegroup\n', 'inherit a\tpackagegroup\n', 'inherit packagegroup\tb\n', 'inherit \\\n  x \\\n  packagegroup \\\n  y\n', 'inherit packagegroup \n', 'INHERIT += "packagegroup"\n', 'INHERIT += "x packagegroup"\n'])
                    w['group'] = True
                else:
                    out.append(rng.choice(HARMLESS))
                    continue
                out.append(add)
                if f in own and f != main:
                    foreign = True
        files[main].insert(0, 'EXTRA = "extra"\nTWO = "t1 ${PN}-t2"\n')
        files['r/other_2.bb'].insert(0, 'EXTRA = "extra"\nTWO = "t1 ${PN}-t2"\n')
        for f, ps in pulls.items():
            for p in ps:
                files[f].insert(rng.randint(0, len(files[f])), p)
        texts = {k: ''.join(v) for k, v in files.items()}
        texts['conf/layer.conf'] = ''
        root = os.path.realpath(ctx.newdir())
        paths = ctx.write(root, texts)
        s = lab.stash(new_style_override_syntax=True)
        adds = [x for x in paths if x.endswith(('.bb', '.bbappend'))]
        rng.shuffle(adds)
        ctx.describe({'files': texts, 'added': adds})
        for a in adds:
            s.AddFile(paths[a])
        s.Finalize()
        if foreign:
            ctx.event('foreign')
            ctx.shape(texts)
            ctx.sample(texts)
        for f, name, base, pv, w in ((main, pn, bpn, '1.0', want['own']), ('r/other_2.bb', 'other', 'other', '2', want['other'])):
            path = paths[f]

            def exp(x, keep=False):
                x = x.replace('${TWO}', 't1 ${PN}-t2')
                x = x.replace('${EXTRA}', 'extra').replace('${BPN}', base).replace('${PV}', pv)
                return x if keep else x.replace('${PN}', name)
            ctx.event('recipes')
            words = [y for x in w['pkgs'] for y in exp(x, True).split()]
            std = {n + x for n in (name, '${PN}') for x in STD}
            same('package names of ' + f, sorted(s.GetValidPackageNames(path)), sorted(std | set(words) | {x.replace('${PN}', name) for x in words}))
            same('stripped package names of ' + f, sorted(s.GetValidPackageNames(path, strippn=True)), sorted(std | {x.replace('${PN}', '') for x in words} ))
            ctx.event('package_sets', 2)
            same('is an image: ' + f, s.IsImage(path), w['image'])
            ctx.event('image' if w['image'] else 'no_image')
            same('is a package group: ' + f, s.IsPackageGroup(path), w['group'])
            ctx.event('packagegroup' if w['group'] else 'no_packagegroup')
            pats = {exp(x) for x in w['dyn']}
            same('dynamic patterns of ' + f, sorted(s.GetPackagesDynamic(path)), sorted(pats))
            for p in PROBES:
                got = s.IsDynamicPackage(path, p)
                same('{} is dynamic in {}'.format(p, f), bool(got), any(fits(x, exp(p)) for x in pats))
                ctx.event('dynamic' if got else 'not_dynamic')

    def assign(self, rng, ctx, var, words):
        r = rng.random()
        if r < .3:
            body = ''.join('{}{} \\\n'.format(rng.choice(['    ', '\t', '']), x) for x in words)
            val = rng.choice(['\\\n', ' \\\n', '']) + body
            ctx.event('blank_edges')
        elif r < .5:
            val = ' ' + '  '.join(words) + ' '
            ctx.event('blank_edges')
        else:
            val = rng.choice([' ', '  ', '\t']).join(words)
        return '{}{}{}{}"{}"\n'.format(var, rng.choice([' ', '  ']), rng.choice(OPS), rng.choice([' ', '']), val)


CHECK = Check()
