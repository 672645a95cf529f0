"""C22 includes and classes are resolved like bitbake resolves them"""
import os

from mon import lab
from mon.core import need, same

DIRS = ['', 'r', 'r/x', 'r/x/files', 'sub', 'sub/r', 'sub/r/y', 'conf', 'sub/conf', 'other', 'r/x/classes', 'sub/r/y/classes', 'sub/r/y/classes-global']
CLSDIRS = ['classes', 'classes-recipe', 'classes-global']


def isfile(p):
    return os.path.isfile(p)


def layer_root(d):
    """nearest directory upwards with a layer configuration"""
    while True:
        if os.path.exists(os.path.join(d, 'conf', 'layer.conf')):
            return d
        up = os.path.dirname(d)
        if up == d:
            return ''
        d = up


def find(name, local):
    p = os.path.join(local, name)
    if isfile(p):
        return p
    root = layer_root(local)
    if root and isfile(os.path.join(root, name)):
        return os.path.join(root, name)
    return ''


def find_class(name, local, dirs):
    for d in dirs:
        p = find(os.path.join(d, name.removesuffix('.bbclass') + '.bbclass'), local)
        if p:
            return p
    return ''


class Check:
    quick, thorough = 4200, 120000
    rule = ('Random directory trees (layer, layer in a layer, or no layer at all) with the same include and class names placed in many directories as decoys, directories named like files, missing files, ignore lists, '
            'absolute and relative names, names with ${PN}/${PV}. Oracle: independent lookup; reported paths, and the set of files that contributed items, must be exactly the looked up ones. Non-trivial: a name present in at least two places.')
    min_events = {'includes': 2000, 'classes': 2000, 'missing': 600, 'ignored': 100, 'roots': 2000, 'no_layer': 100, 'ambiguous': 1000}

    def case(self, rng, ctx, i):
        root = os.path.realpath(ctx.newdir())
        os.environ['HOME'] = root
        recipe = '{}/{}_{}.bb'.format(rng.choice(['r/x', 'r', 'sub/r/y', 'sub/r', 'other']), rng.choice(['foo', 'bar-x']), rng.choice(['1.0', 'git']))
        pn, pv = os.path.basename(recipe)[:-3].split('_')
        incs = ['one.inc', 'two.inc', 'x/three.inc', 'conf/four.inc', pn + '-pn.inc', 'v' + pv + '.inc', 'r/x/one.inc', 'sub/r/two.inc', 'gtk+.inc', 'q~1,v@2.inc']
        clss = ['alpha', 'beta', 'gamma-d', pn + '-cls', 'k_1', 'c-1.0', 'x.y']
        layers = rng.choice([['conf/layer.conf'], ['conf/layer.conf', 'sub/conf/layer.conf'], ['sub/conf/layer.conf'], []])
        files = {x: 'BBPATH .= ":x"\n' for x in layers}
        stmts = {}
        p = rng.choice([.05, .15, .4])
        for d in DIRS:
            for n in incs:
                if rng.random() < p:
                    files[os.path.normpath(os.path.join(d, n))] = None
            for c in CLSDIRS:
                for n in clss:
                    if rng.random() < p:
                        files[os.path.normpath(os.path.join(d, c, n + '.bbclass'))] = None
        files[recipe] = None
        for f in list(files):
            if any(g.startswith(f + '/') for g in files):
                del files[f]
        alias = ''
        if rng.random() < .15 and not recipe.startswith('other/'):
            # the directory of the recipe is linked into another layer
            alias = rng.choice(['linked/r', 'linked', 'other/linked'])
            for x in ['linked/conf/layer.conf', 'other/conf/layer.conf', 'linked/one.inc', 'linked/classes/alpha.bbclass', 'other/two.inc']:
                if rng.random() < .6 and (x.startswith('other/') or alias != 'linked') and not any(g.startswith(x + '/') or x.startswith(g + '/') for g in files):
                    files.setdefault(x, None if not x.endswith('.conf') else 'BBPATH .= ":x"\n')
        ignored_c = rng.sample(clss, 1) if rng.random() < .3 else []
        ignored_i = rng.sample(incs, 1) if rng.random() < .3 else []

        def statement(top):
            r = rng.random()
            if r < .5:
                n = rng.choice(incs)
                form = n
                if n.startswith(pn + '-') and rng.random() < .7:
                    form = n.replace(pn, '${PN}', 1)
                elif n.startswith('v') and rng.random() < .7:
                    form = 'v${PV}.inc'
                elif rng.random() < .1:
                    form = n = os.path.join(root, rng.choice(sorted(files)))
                    if not n.endswith('.inc') or '_' in os.path.basename(root):
                        form = n = 'one.inc'
                elif rng.random() < .08:
                    # what a shell would make something of, but bitbake does not
                    form = n = rng.choice(['~/one.inc', '$HOME/one.inc', '*.inc', 'o?e.inc', '[ot]*.inc', 'ONE.INC', 'one', '%.inc', 'file://' + n, n + '/', n + '~', './/' + n])
                    if '//one' in n or n.startswith('.//'):
                        form = n = './' + n.lstrip('./')
                elif rng.random() < .1 and not alias:
                    form = n = '../' + n
                return (rng.choice(['include', 'require']), form, [n])
            if r < .9:
                ns = [rng.choice(clss) if rng.random() < .95 else rng.choice(['*', 'al*', 'ALPHA', '~/classes/alpha', '$HOME/classes/alpha', 'alpha.', '.alpha', 'alpha.bbclass']) for _ in range(rng.choice([1, 1, 2, 3]))]
                forms = [x.replace(pn, '${PN}', 1) if x.startswith(pn + '-') and rng.random() < .7 else x for x in ns]
                return (rng.choice(['inherit', 'inherit', 'inherit_defer']), ' '.join(forms), ns)
            ns = [rng.choice(clss[:3]) for _ in range(rng.choice([1, 2]))]
            return ('INHERIT', ' '.join(ns), ns)
        k = 0
        for f in list(files):
            if files[f] is None:
                k += 1
                n = rng.randint(2, 6) if f == recipe else (rng.randint(0, 2) if rng.random() < .4 else 0)
                # PN and PV belong to the recipe only when the file name says so
                todo = [statement(f == recipe) for _ in range(n)]
                if f != recipe:
                    todo = [x for x in todo if '${' not in x[1]]
                stmts[f] = todo
                files[f] = ''.join('INHERIT += "{}"\n'.format(x[1]) if x[0] == 'INHERIT' else '{} {}\n'.format(x[0], x[1]) for x in todo) + 'M{} = "x"\n'.format(k)
        for d in rng.sample(['one.inc', 'two.inc', 'classes/alpha.bbclass', 'r/x/one.inc', 'sub/two.inc'], 2):
            if d not in files and not any(x.startswith(d + '/') for x in files) and not any(d.startswith(x + '/') for x in files):
                os.makedirs(os.path.join(root, d))
        ctx.describe({'alias': alias, 'files': files, 'ignored': [ignored_c, ignored_i]})
        paths = ctx.write(root, files)
        for f in files:
            if not os.path.isfile(paths[f]):
                return
        top = paths[recipe]
        if alias:
            os.makedirs(os.path.dirname(os.path.join(root, alias)), exist_ok=True)
            os.symlink(os.path.dirname(top), os.path.join(root, alias))
            top = os.path.join(root, alias, os.path.basename(recipe))
            ctx.event('linked_directories')
        ig = {'ignore': {'classes': list(ignored_c), 'include': list(ignored_i)}}
        old = {'ignore': {'classes': list(lab.CONSTANTS.ClassIgnore), 'include': list(lab.CONSTANTS.IncludeIgnore)}}
        lab.CONSTANTS.OverrideConstants(ig)
        try:
            s = lab.stash(new_style_override_syntax=True)
            s.AddFile(top)
        finally:
            lab.CONSTANTS.OverrideConstants(old)
        # what should have happened
        want = {}      # file -> [(kind, expected path(s))]
        todo = [top]
        amb = False
        while todo:
            f = todo.pop()
            if f in want:
                continue
            want[f] = []
            local = os.path.dirname(f)
            for kind, form, names in stmts[os.path.relpath(os.path.realpath(f), root)]:
                if kind in ('include', 'require'):
                    p_ = find(names[0], local)
                    norm = os.path.abspath(p_) if p_ else ''
                    if names[0] in ignored_i and p_:
                        want[f].append((kind, form, ''))
                        ctx.event('ignored')
                        continue
                    want[f].append((kind, form, norm))
                    if norm:
                        todo.append(norm)
                    else:
                        ctx.event('missing')
                    ctx.event('includes')
                    amb |= len([x for x in files if x.endswith('/' + names[0]) or x == names[0]]) > 1
                else:
                    dirs = ['classes', 'classes-global'] if kind == 'INHERIT' else CLSDIRS
                    found = set()
                    for n in names:
                        p_ = find_class(n, local, dirs)
                        if p_ and n.removesuffix('.bbclass') in ignored_c:
                            ctx.event('ignored')
                            continue
                        if p_:
                            found.add(p_)
                            todo.append(p_)
                        else:
                            ctx.event('missing')
                        ctx.event('classes')
                        amb |= len([x for x in files if x.endswith('/' + n + '.bbclass')]) > 1
                    want[f].append((kind, form, frozenset(found)))
        if amb:
            ctx.event('ambiguous')
        if not layer_root(os.path.dirname(top)):
            ctx.event('no_layer')
        origins = {x.Origin for x in s.GetItemsFor()}
        same('files that contributed items', sorted(os.path.relpath(x, root) for x in origins), sorted(os.path.relpath(x, root) for x in want))
        for f in want:
            got = []
            seen = set()
            for x in s.GetItemsFor(filename=f, nolink=True):
                if x.InFileLine in seen or x.CLASSIFIER not in ('Include', 'Inherit'):
                    continue
                seen.add(x.InFileLine)
                if x.CLASSIFIER == 'Include':
                    got.append((x.Statement, x.IncName, os.path.abspath(x.FileIncluded) if x.FileIncluded else ''))
                else:
                    got.append((x.Statement, x.Class.strip(), frozenset(x.FilePaths)))
            same('resolution in ' + os.path.relpath(f, root), got, want[f])
        for _ in range(3):
            d = os.path.dirname(rng.choice([paths[rng.choice(sorted(paths))], top]))
            f = rng.choice(sorted(paths.values()) + [top, top])
            same('layer root of ' + f, s.GetLayerRoot(f), layer_root(os.path.dirname(f)))
            same('layer root of ' + d, s.GetLayerRoot(d), layer_root(d))
            n = rng.choice(incs + ['conf/layer.conf', 'nosuch', os.path.relpath(f, root)])
            same('lookup of {} in {}'.format(n, d), s.FindLocalOrLayer(n, d), find(n, d))
            ctx.event('roots')
        if amb:
            ctx.shape(sorted(files), stmts[recipe])
            ctx.sample({'recipe': recipe, 'statements': files[recipe], 'layers': layers})


CHECK = Check()
