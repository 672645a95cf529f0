"""C40 names without a special meaning are interchangeable"""
import os
import re

from mon import lab
from mon.checks.c39 import Check as C39
from mon.core import need, same

TOKEN = re.compile('ZQV[A-H]|zq[a-z][A-H]')
KEYWORDS = ['inherit', 'include', 'require', 'export', 'unset', 'addtask', 'deltask', 'python', 'fakeroot', 'def', 'append', 'prepend', 'remove', 'INHERIT', 'EXPORT_FUNCTIONS', 'addpylib', 'addfragments', 'include_all', 'class', 'native', 'machine',
            'SRC_URI', 'PACKAGES', 'PN', 'PV', 'BPN', 'PACKAGES_DYNAMIC', 'IMAGE', 'FILE', 'THISDIR', 'after', 'before', 'A', 'do', 'pkg', 'd', 'os', 'bb', 'inline', 'None', 'x', 'S', 'B', 'file', 'git', 'name', 'layer', 'conf', 'LAYERDIR', 'nativesdk', 'cross', 'true', 'image', 'core-image', 'packagegroup', 'kernel', 'class-target', 'IMAGE_INSTALL', 'poky', 'qemuarm', 'do_install', 'allarch', 'pkg']
SPECIAL = {'append', 'prepend', 'remove', 'machine', 'export', 'inherit', 'include', 'require', 'unset', 'addtask', 'deltask', 'python', 'fakeroot', 'def', 'INHERIT', 'EXPORT_FUNCTIONS', 'addpylib', 'addfragments', 'include_all', 'inherit_defer', 'SRC_URI', 'PACKAGES', 'PN',
           'PV', 'BPN', 'PACKAGES_DYNAMIC', 'FILE', 'THISDIR', 'PACKAGE_BEFORE_PN', 'LAYERDIR', 'packagegroup', 'pkg', '__anonymous'}
# characters a name may have: first, middle, last
CHARS = {'V': ('ABCXYZabc', 'ABXYabx019_+.~-', 'ABZaz09'), 'o': ('abcxyz', 'abxyz019-', 'abz09'), 'f': ('abcxyz_ABC', 'abxyz019_+.-AB', 'abz09A'), 'd': ('abcxyz_', 'abxyz019_AB', 'abz09A'), 'g': ('abcxyzAB', 'abxyz019_.+-AB/@', 'abz09A'),
         'c': ('abcxyzAB', 'abxyz019_+.-AB', 'abzA'), 'i': ('abcxyzAB', 'abxyz019+.-AB[]*?,@~', '019'), 'r': ('abcxyz', 'abxyz+.-A', '019'), 'w': ('abcxyzAB@%![]*^|?+.,~:/\\_-#&<>', 'abcxyzAB@%![]*^|?+.,~:/\\_-&<>$', None), 'p': ('abcxyz', 'abxyz+.-', '019'),
         'n': ('abcxyzAB', 'abxyz019_+.-', 'abzA'), 't': ('abcxyz', 'abxyz019_-', 'abz09')}


VIEWS = C39.views


def fresh(rng, kind, used, const, front):
    a, b, c = CHARS[kind]
    while True:
        r = rng.random()
        if r < .25 and used:
            # close to another name
            n = rng.choice(sorted(used))
            n = rng.choice([n + rng.choice(b) + rng.choice(c or b), n[:-1], n[1:], n.upper() if kind in 'V' else n, n.lower(), n[:-1] + rng.choice(c or b), n + n[-1:], n.replace('-', '_'), n.replace('.', 'x'), n.replace('+', '')])
        elif r < (.55 if kind in 'Vftd' else .45):
            n = rng.choice(KEYWORDS[:16] if rng.random() < .4 else KEYWORDS)
            n = rng.choice([n, n + rng.choice(b) + rng.choice(c or b), rng.choice(a) + n])
        else:
            n = rng.choice(a) + ''.join(rng.choice(b) for _ in range(rng.choice([0, 0, 1, 2, 4, 9]))) + (rng.choice(c) if c else '')
        if kind == 'w':
            # words stay apart from each other when joined: the only digit is the first or the last character of all
            n = re.sub('[0-9]', '', n).rstrip('\\')
            n = rng.choice('0123456789') + n if front else n + rng.choice('0123456789')
            if n.startswith('://') or '${' in n or '->' in n:
                continue
        if kind in 'rpi':
            n = n.lower() if kind == 'p' else n
            if not re.search('[0-9]$', n):
                n += rng.choice('019')
        ok = len(n) > 0 and n[0] in a + '0123456789' + ''.join(KEYWORDS) and all(x in a + b + (c or '0123456789') + ''.join(KEYWORDS if kind != 'w' else []) for x in n) and (not c or n[-1] in c + ''.join(KEYWORDS))
        if kind in 'opnrt' and not re.fullmatch(r'[a-z][a-zA-Z0-9.+_-]*', n):
            continue
        if kind == 'o' and (not re.fullmatch(r'[a-z0-9]+(-[a-z0-9]+)*', n) or n.startswith('class-')):
            continue
        if kind == 'V' and not re.fullmatch(r'[A-Za-z]([A-Za-z0-9_+.~-]*[A-Za-z0-9])?', n):
            continue
        if kind == 'd' and not re.fullmatch(r'[A-Za-z_][A-Za-z0-9_]*', n):
            continue
        if kind in 'fgci' and not re.fullmatch(r'[A-Za-z_][\w.+-]*' if kind in 'fc' else r'[A-Za-z][\w.+/@-]*' if kind == 'g' else r'[A-Za-z][\w.+\[\]*?,@~-]*', n):
            continue
        if kind in 'rni' and '_' in n or kind == 'r' and re.search('native|cross|sdk', n):
            continue
        if kind in 'ci' and (n.endswith(('.bbclass', '.inc')) or n.startswith('.')):
            continue
        if not ok or n in used or n in SPECIAL or kind == 't' and n in ('after', 'before') or n in const or TOKEN.search(n) or n.startswith('pkg_'):
            continue
        return n


class Check:
    quick, thorough = 1500, 50000
    rule = ('Layers (recipes, includes, classes, appends) in which all names of variables, overrides, functions, flags, classes, includes, recipes, packages, resources, tasks and all words of values are place holders are written twice: with the place holders themselves and with random names (any allowed character, '
            'parts of each other, close to key words and special variables). Oracle (metamorphic): every answer (all items with lines and attributes, order, links, expanded variables and terms, packages, resources, marks, layer files) is the same after putting in the names. Non-trivial: all.')
    min_events = {'answers_compared': 20000, 'items_compared': 20000, 'names': 20000}

    def stmt(self, rng):
        def pick(kind, n=6):
            return ('ZQV' if kind == 'V' else 'zq' + kind) + rng.choice('ABCDEFGH'[:n])
        V, O, W = (lambda: pick('V')), (lambda: pick('o', 3)), (lambda: pick('w', 8))

        def part():
            r = rng.random()
            return W() if r < .6 else '${' + V() + '}' if r < .8 else '${@d.getVar("' + V() + '")}' if r < .86 else rng.choice(['${PN}', '${PV}', '${BPN}', '${P}']) if r < .92 else \
                '${{@bb.utils.contains("{}", "{}", "{}", "{}", d)}}'.format(V(), W(), W(), W()) if r < .96 else W() + '${' + V() + '}'

        def value():
            return rng.choice(['', '', ' ']) + ' '.join(part() for _ in range(rng.choice([0, 1, 1, 2, 3]))) + rng.choice(['', '', ' '])
        r = rng.random()
        q = rng.choice('""\'')
        if r < .45:
            if q == "'" or rng.random() < .5:
                v = ' '.join(rng.choice([W, W, lambda: '${' + V() + '}'])() for _ in range(rng.randint(0, 3)))
            else:
                v = value()
                q = '"' if '"' not in v else "'"
            name = V()
            x = rng.random()
            if x < .5:
                return '{}{}{} {} {}{}{}\n'.format(name, ':' + O() if rng.random() < .2 else '', ':' + O() if rng.random() < .1 else '', rng.choice(['=', '=', '?=', '??=', ':=', '+=', '=+', '.=', '=.']), q, v, q)
            if x < .75:
                return '{}:{}{} = {}{}{}\n'.format(name, rng.choice(['append', 'prepend', 'remove']), ':' + O() if rng.random() < .3 else '', q, v, q)
            if x < .85:
                return '{} = "{} \\\n    {} \\\n"\n'.format(name, W(), W())
            return 'unset {}\n'.format(name) if x < .92 else 'export {}\n'.format(name) if x < .96 else 'export {} = "{}"\n'.format(name, W())
        if r < .53:
            return rng.choice(['', 'python ', 'fakeroot ']) + pick('f', 4) + rng.choice(['', '', ':append', ':' + O() + ':prepend' if False else ':append:' + O()]) + '() {\n    ' + W() + '\n}\n'
        if r < .57:
            return 'def {}(d):\n    return "{}"\n\n'.format(pick('d', 3), W())
        if r < .63:
            return '{}[{}] {} "{}"\n'.format(rng.choice([V(), pick('f', 4)]), pick('g', 4), rng.choice(['=', '+=', '.=']), W())
        if r < .68:
            return rng.choice(['addtask {} after {} before {}\n', 'addtask {} before {} after {}\n']).format(pick('t', 3), pick('t', 3), pick('t', 3))
        if r < .71:
            return 'deltask {}\n'.format(pick('t', 3))
        if r < .74:
            return 'EXPORT_FUNCTIONS {} {}\n'.format(pick('f', 4), pick('f', 4))
        if r < .79:
            return 'inherit {}\n'.format(' '.join(pick('c', 3) for _ in range(rng.choice([1, 1, 2]))))
        if r < .84:
            return '{} {}.inc\n'.format(rng.choice(['include', 'require']), pick('i', 3))
        if r < .88:
            return '{} += "${{PN}}-{} {}"\n'.format(rng.choice(['PACKAGES', 'PACKAGES:prepend', 'PACKAGE_BEFORE_PN']), pick('p', 3), pick('p', 3))
        if r < .92:
            return 'SRC_URI += "git://{}/{}.git;name={} file://{}.patch"\n'.format(pick('n', 3), pick('n', 3), pick('n', 3), pick('n', 3))
        if r < .93:
            return 'unset {}[{}]\n'.format(V(), pick('g', 4))
        return rng.choice(['# {}\n'.format(W()), '\n', ' \n', 'FILES:${{PN}}-{} = "{}"\n'.format(pick('p', 3), W()), '}\n'])

    def case(self, rng, ctx, i):
        texts = {'conf/layer.conf': ''}
        recipes = ['r/zqrA_1.0.bb'] + (['r/zqrB_2.bb'] if rng.random() < .5 else [])
        appends = rng.sample(['b/zqrA_%.bbappend', 'b/zqrA_1.0.bbappend', 'b/zqrB_%.bbappend', 'b/zqrC_%.bbappend'], rng.choice([0, 1, 2]))
        files = recipes + appends
        # who is pulled in may pull in what comes later in the alphabet
        for n, x in enumerate('ABC'):
            if rng.random() < .7:
                files.append('r/zqi{}.inc'.format(x))
            if rng.random() < .7:
                files.append('{}/zqc{}.bbclass'.format(rng.choice(['classes', 'classes-recipe', 'classes-global']), x))
        for f in files:
            texts[f] = ''.join(self.stmt(rng) for _ in range(rng.randint(1, 10)))
        for x in ('A', 'B'):
            if rng.random() < .5:
                texts['r/files/zqi{}.patch'.format(x)] = ''
        tokens = sorted(set(TOKEN.findall(repr(texts))))
        const = set(lab.CONSTANTS.SetsBase) | set(lab.CONSTANTS.ImagesVariables) | set(lab.CONSTANTS.FunctionsKnown) | set(lab.CONSTANTS.DistrosKnown) | set(lab.CONSTANTS.MachinesKnown) | set(lab.CONSTANTS.ImagesClasses) | set(lab.CONSTANTS.ClassIgnore) | set(lab.CONSTANTS.IncludeIgnore)
        names, by, front = {}, {}, rng.random() < .5
        for t in tokens:
            kind = 'V' if t[0] == 'Z' else t[2]
            pool = by.setdefault('c' if kind == 'c' else 'Vfdt' if kind in 'Vfdt' else kind, set())
            names[t] = fresh(rng, kind, pool, const, front)
            pool.add(names[t])
        ctx.event('names', len(names))

        def put(x):
            if isinstance(x, str):
                return TOKEN.sub(lambda m: names.get(m.group(0), m.group(0)), x)
            if isinstance(x, dict):
                return {put(k): put(v) for k, v in x.items()}
            if isinstance(x, (list, tuple)):
                return [put(v) for v in x]
            return x
        other = put(texts)
        need(len(other) == len(texts), 'bad names', names)
        roots = [os.path.realpath(ctx.newdir()) for _ in range(2)]
        ctx.describe({'files': texts, 'names': names, 'renamed': other})
        ctx.shape(texts, sorted(names.items()))
        ctx.sample({'renamed': {k: v[:300] for k, v in other.items() if k.endswith('.bb')}})
        adds = recipes + appends
        rng.shuffle(adds)
        kw = {'new_style_override_syntax': True, 'negative_inline': rng.random() < .3}
        res, paths = [], []
        for root, t, f in zip(roots, (texts, other), (lambda x: x, put)):
            p = ctx.write(root, t)
            s = lab.stash(**kw)
            for a in adds:
                s.AddFile(p[f(a)])
            s.Finalize()
            res.append(s)
            paths.append(p)

        def answers(s, p, root, f):
            q = {'all': [[lab.snap(x, root), VIEWS(x)] for x in s.GetItemsFor()]}
            for x in ('GetRecipes', 'GetLoneAppends', 'GetBBClasses'):
                q[x] = ['unsorted'] + lab.clean(getattr(s, x)(), root)
            for x in adds + [y for y in files if y.endswith('.inc')][:2]:
                n = p[f(x)]
                q[x] = {'links': lab.clean(s.GetLinksForFile(n), root), 'items': [x.InFileLine for x in s.GetItemsFor(filename=n)], 'own': [x.InFileLine for x in s.GetItemsFor(filename=n, nolink=True)],
                        'variables': lab.clean(s.ExpandVar(filename=n), root), 'packages': ['unsorted'] + sorted(s.GetValidPackageNames(n)), 'stripped': ['unsorted'] + sorted(s.GetValidPackageNames(n, strippn=True)), 'resources': ['unsorted'] + sorted(s.GetValidNamedResources(n)),
                        'image': s.IsImage(n), 'group': s.IsPackageGroup(n), 'files': ['unsorted'] + lab.clean(s.GetFiles(n, '*'), root),
                        'name': [s.GuessRecipeName(n), s.GuessRecipeVersion(n), s.GuessBaseRecipeName(n)],
                        'terms': [s.ExpandTerm(n, f(y)).replace(root, '<ROOT>') for y in ('${ZQVA}', '${ZQVB}-${ZQVC}', '${PN}${ZQVD}', '${ZQVE} ${ZQVX} zqwA', '${@d.getVar("ZQVF")}')],
                        'one': lab.clean(s.ExpandVar(filename=n, attribute='VarName', attributeValue=[f('ZQVA'), f('ZQVB')]), root),
                        'found': [y.InFileLine for y in s.GetItemsFor(filename=n, attribute=['VarName', 'FuncName'], attributeValue=[f('ZQVC'), f('zqfA'), f('zqtB')])]}
            return q

        def settle(x):
            """put answers without an order of their own in order"""
            if isinstance(x, dict):
                return {k: sorted(settle(v)) if k in ('IncludedFrom', 'FilePaths') and isinstance(v, list) else settle(v) for k, v in x.items()}
            if isinstance(x, list):
                return sorted(set(x)) if x and x[0] == 'unsorted' else [settle(y) for y in x]
            return x
        a, b = answers(res[0], paths[0], roots[0], lambda x: x), answers(res[1], paths[1], roots[1], put)
        need(len(a['all']) > 0, 'nothing observed')
        same('number of items with other names', len(b['all']), len(a['all']))
        for x, y in zip(a.pop('all'), b.pop('all')):
            same('item with other names', settle(y), settle(put(x)))
            ctx.event('items_compared')
        for k in list(a):
            want, got = settle(put(a[k])), settle(b[k])
            if isinstance(want, dict):
                for j in want:
                    same('{} of {} with other names'.format(j, put(k)), got[j], want[j])
                    ctx.event('answers_compared')
            else:
                same('{} with other names'.format(k), got, want)
                ctx.event('answers_compared')


CHECK = Check()
