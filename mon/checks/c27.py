"""C27 name and version are derived from the file name consistently"""
import os

from mon import lab
from mon.core import need, same

ATOMS = ['foo', 'bar', 'gtk', 'native', 'cross', 'nativesdk', 'lib', 'x', '3', 'v2', 'python3', 'A', 'image', 'tool', 'ü', 'crosstool', 'natives', 'dev']
VERS = ['1.0', '1', '2.1.0', 'git', 'svn', '1.0-rc1', '1.0+git', '20200101', '1.2b', 'v1', '0', '1.bb', '2.1.native', '1-native', '~beta', 'git999', '1.0.bbappend.1']
DIRS = ['recipes-x/foo', 'recipes_y/bar_2.0', 'a.b/c.d', 'nativesdk-z/q-native', 'r', 'x_1.bb', 'sp ace']


def base(rng):
    while True:
        out = rng.choice(ATOMS)
        for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
            out += rng.choice(['-', '-', '.', '+', '++', '~', '']) + rng.choice(ATOMS)
        if rng.random() < .1:
            out += rng.choice(['++', '.', '3.x'])
        if not (out + '-').startswith('nativesdk-') and not out.endswith(('-native', '-cross')):
            return out


class Check:
    quick, thorough = 3600, 100000
    rule = ('File names assembled from base name, class prefix or suffix, version and further underscore separated parts (names and versions containing the words native, cross, nativesdk at harmless places, dots, plus signs, non-ASCII; '
            'directories with underscores and dots). Observers: Guess* calls, ExpandTerm (with and without spare), d.getVar, ExpandVar, package names, named resources, include and inherit statements using the names, in the recipe and its append. '
            'Non-trivial: name with class part or dash.')
    min_events = {'names': 1100, 'observations': 30000, 'with_class': 400, 'without_version': 200, 'includes_by_name': 500}
    assumptions = ['The default for a recipe without version is 1.0 wherever PV is expanded, as in bitbake.']

    def case(self, rng, ctx, i):
        b = base(rng)
        r = rng.random()
        pn = b
        if r < .25:
            pn = 'nativesdk-' + b
        elif r < .5:
            pn = b + rng.choice(['-native', '-cross'])
        ver = rng.choice(VERS)
        extra = rng.choice(['', '', '', '_r1', '_x_y'])
        hasver = rng.random() < .8
        stem = pn + '_' + ver + extra if hasver else pn
        if not hasver and '.' in pn:
            # a dot in the name is no extension
            stem = pn
        pv = ver if hasver else None
        epv = pv or '1.0'
        d = rng.choice(DIRS)
        rel = '{}/{}.bb'.format(d, stem)
        ctx.event('names')
        ctx.event('with_class' if pn != b else 'plain')
        if not hasver:
            ctx.event('without_version')
        if pn != b or '-' in pn:
            ctx.shape(stem)
        ctx.sample(rel)
        # file names alone need not exist
        s = lab.stash(new_style_override_syntax=True)
        for f in (stem + '.bb', '/nowhere/' + rel, '/a_b/' + stem + '.bbappend', rel):
            ctx.describe({'name': f})
            same('recipe name of ' + f, s.GuessRecipeName(f), pn)
            same('base name of ' + f, s.GuessBaseRecipeName(f), b)
            same('version of ' + f, s.GuessRecipeVersion(f), pv)
            ctx.event('observations', 3)
        # all observers
        how = rng.choice(['${PN}', '${BPN}', '${PN}-${PV}', '${BP}', '${BPN}_${PV}', 'x-${P}'])
        val = {'PN': pn, 'BPN': b, 'PV': epv, 'P': pn + '-' + epv, 'BP': b + '-' + epv}
        incname = how
        for k, v in val.items():
            incname = incname.replace('${' + k + '}', v)
        text = 'A = "{}"\n'.format('|'.join('${%s}' % x for x in sorted(val)))
        text += 'A2 = "${@d.getVar(\'PN\')}-${@d.getVar(\'PV\', True)}"\n'
        text += 'B := "${PN}"\nC ?= "x${BPN}y"\nD:append = "${PV}"\nE:${PN} = "1"\nSRC_URI = "git://x/y;name=${PN}-z"\nPACKAGES =+ "${PN}-extra pre-${PN}"\n'
        mid = rng.choice(['require', 'include'])
        text += '{} {}.inc\n'.format(mid, how)
        clsname = rng.choice(['${PN}', 'c-${BPN}'])
        clsfile = clsname.replace('${PN}', pn).replace('${BPN}', b)
        text += 'inherit {}\n'.format(clsname)
        files = {'conf/layer.conf': '', rel: text, '{}/{}.inc'.format(d, incname): 'INCVAR = "${PN}"\n', 'classes/{}.bbclass'.format(clsfile): 'CLSVAR = "${PV}"\n',
                 'r/zzz_9.bb': 'A = "${PN}"\nSRC_URI = "git://q/q;name=${PN}"\n'}
        app = None
        if hasver:
            app = 'app/{}.bbappend'.format(rng.choice([stem, pn + '_%']))
            files[app] = 'APPVAR = "${PN}"\nrequire ' + rng.choice(['${BPN}', '${PN}']) + '-app.inc\n'
            for n in (pn, b):
                files['app/{}-app.inc'.format(n)] = 'APPINC = "1"\n'
        root = os.path.realpath(ctx.newdir())
        paths = ctx.write(root, files)
        path = paths[rel]
        adds = [rel, 'r/zzz_9.bb'] + ([app] if app else [])
        rng.shuffle(adds)
        ctx.describe({'files': files, 'added': adds})
        for a in adds:
            s.AddFile(paths[a])
        s.Finalize()
        obs = {}
        for k, v in val.items():
            obs['ExpandTerm ' + k] = (s.ExpandTerm(path, '${%s}' % k), v)
            obs['getVar ' + k] = (s.ExpandTerm(path, "d.getVar('%s')" % k), v)
            obs['composed ' + k] = (s.ExpandTerm(path, 'a${%s}-${%s}b' % (k, k)), 'a{0}-{0}b'.format(v))
        obs['spare'] = (s.ExpandTerm(path, '${PN}/${PV}', spare=['PN']), '${PN}/' + epv)
        obs['THISDIR'] = (s.ExpandTerm(path, '${THISDIR}'), os.path.dirname(path))
        obs['FILE'] = (s.ExpandTerm(path, '${FILE}'), path)
        obs['A'] = (s.ExpandTerm(path, '${A}'), '|'.join(val[x] for x in sorted(val)))
        ev = s.ExpandVar(filename=path)

        def words(x):
            return x.split()
        obs['ExpandVar A'] = (ev['A'], ['|'.join(val[x] for x in sorted(val))])
        obs['ExpandVar B'] = (ev['B'], [pn])
        obs['ExpandVar C'] = (ev['C'], ['x{}y'.format(b)])
        obs['ExpandVar D'] = (ev['D'], [epv])
        obs['ExpandVar E'] = (ev.get('E:' + pn), ['1'])
        for k in ('PN', 'PV', 'BPN', 'P', 'BP'):
            obs['ExpandVar ' + k] = (ev[k], words(val[k]))
        one = s.ExpandVar(filename=path, attribute='VarName', attributeValue='B')
        obs['ExpandVar only B'] = ({k: one[k] for k in ('B', 'PN', 'PV', 'BPN')}, {'B': [pn], 'PN': [pn], 'PV': [epv], 'BPN': [b]})
        res = set(s.GetValidPackageNames(path))
        std = ['', '-src', '-dbg', '-staticdev', '-dev', '-doc', '-locale', '-ptest']
        obs['package names'] = (sorted(res), sorted({n + x for n in (pn, '${PN}') for x in std} | {n.format(p) for p in (pn, '${PN}') for n in ('{}-extra', 'pre-{}')}))
        obs['resources'] = (sorted(s.GetValidNamedResources(path)), sorted({pn, pn + '-z'}))
        zp = paths['r/zzz_9.bb']
        obs['other recipe'] = ((s.ExpandTerm(zp, '${PN}|${BPN}|${PV}|${A}'), sorted(s.GetValidNamedResources(zp))), ('zzz|zzz|9|zzz', ['zzz']))
        items = s.GetItemsFor(filename=path, classifier='Variable')
        names = [x.VarName for x in items]
        inc = [x for x in items if x.VarName == 'INCVAR']
        need(len(inc) == 1, 'the include named by', how, 'is not found under', incname)
        need('CLSVAR' in names, 'the class named by', clsname, 'is not found under', clsfile)
        if app:
            need('APPVAR' in names, 'append does not meet its recipe', app)
            need('APPINC' in names, 'include of append is not found')
        ctx.event('includes_by_name')
        for k, (got, want) in obs.items():
            same(k + ' for ' + rel, got, want)
            ctx.event('observations')


CHECK = Check()
