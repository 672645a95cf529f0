"""Queries as data: ask any stash, get comparable answers"""
import os

from mon import lab

TERMS = ['${PN}-${PV}', '${A}', '${FOO} ${BAR}', '${BP} ${SUMMARY}', 'd.getVar("A")', '${SRC_URI}', 'x']


def pic(x, root=None):
    r = (lab.clean(x.Origin, root), x.InFileLine, x.Line, x.CLASSIFIER, x.Raw, tuple(sorted(lab.clean(y, root) for y in x.IncludedFrom)))
    return r


def norm(v, root=None):
    if hasattr(v, 'CLASSIFIER'):
        return pic(v, root)
    if isinstance(v, (set, frozenset)):
        return ('set', tuple(sorted(norm(x, root) for x in v)))
    if isinstance(v, dict):
        return tuple((norm(k, root), norm(x, root)) for k, x in v.items())
    if isinstance(v, (list, tuple)) or type(v).__name__ == 'StashList':
        return tuple(norm(x, root) for x in v)
    return lab.clean(v, root)


def random_query(rng, files):
    """(method, args, kwargs) with files given by relative name"""
    f = rng.choice(files)
    k = rng.randrange(22)
    F = ('file', f)
    if k <= 4:
        kw = {}
        if rng.random() < .8:
            kw['filename'] = F
        if rng.random() < .5:
            kw['classifier'] = rng.choice(lab.ALL_CLASSIFIERS + ['Variable'] * 8)
        if rng.random() < .4:
            kw['attribute'] = rng.choice(['VarName', 'FuncName', 'Statement', 'IncName'])
            if rng.random() < .7:
                kw['attributeValue'] = rng.choice(['A', 'FOO', 'SRC_URI', 'inherit', 'include', 'do_install'])
        if rng.random() < .2:
            kw['nolink'] = True
        return ('GetItemsFor', (), kw)
    if k <= 6:
        kw = {'filename': F}
        if rng.random() < .4:
            kw.update(attribute='VarName', attributeValue=rng.choice(['A', 'FOO', 'SRC_URI']))
        return ('ExpandVar', (), kw)
    simple = {7: 'GetRecipes', 8: 'GetLoneAppends', 9: 'GetConfFiles', 10: 'GetBBClasses'}
    if k in simple:
        return (simple[k], (), {})
    if k <= 12:
        return ('ExpandTerm', (F, rng.choice(TERMS)), {})
    if k == 13:
        return ('GetLinksForFile', (F,), {})
    if k == 14:
        return ('GetFiles', (F, rng.choice(['*.patch', '*', 'x*'])), {})
    if k == 15:
        return ('GetValidPackageNames', (F,), {'strippn': rng.random() < .5})
    if k == 16:
        return ('GetValidNamedResources', (F,), {})
    if k == 17:
        return ('IsImage', (F,), {})
    if k == 18:
        return ('IsPackageGroup', (F,), {})
    if k == 19:
        return ('GetPackagesDynamic', (F,), {})
    if k == 20:
        return ('IsDynamicPackage', (F, rng.choice(['foo-x', 'foo-dyn-a', 'bar-plugin-z'])), {})
    return ('FingerPrint', None, {})


def call(s, q, paths):
    name, args, kw = q

    def a(v):
        return paths[v[1]] if isinstance(v, tuple) else v
    if args is None:
        return getattr(s, name)
    return getattr(s, name)(*[a(x) for x in args], **{k: a(x) for k, x in kw.items()})


def ask(s, q, paths, root=None):
    return norm(call(s, q, paths), root)


def rich_stmt(gen):
    """statements the queries react to"""
    pool = ['SRC_URI = "file://a.patch git://h/r;name=foo"\n', 'SRC_URI += "https://x/y;name=${PN}-z"\n', 'PACKAGES =+ "${PN}-extra other"\n', 'PACKAGES += "${FOO}"\n', 'inherit image\n', 'inherit core-image packagegroup\n', 'IMAGE_INSTALL += "x"\n',
            'PACKAGES_DYNAMIC += "^foo-dyn-.*"\n', 'PACKAGES_DYNAMIC = "^${PN}-plugin-.*"\n', 'A = "1"\n', 'A += "2"\n', 'A ?= "3"\n', 'A:append = " 4"\n', 'A:remove = "1"\n', 'FOO = "${A}-x"\n', 'BAR = "${FOO}"\n', 'unset A\n', 'unset FOO\n', 'PACKAGE_BEFORE_PN = "${PN}-b"\n', 'PN = "zz"\n', 'PV = "9"\n']

    def _stmt(rng):
        if rng.random() < .6:
            t = rng.choice(pool)
            return gen.S(t, '?', {})
        return gen.statement(rng, 'new', {'variable': 6, 'function': 1, 'comment': 1, 'directive': 2})
    return _stmt


def layer_files(ctx, w):
    """a few files beside the recipes so that file lists are not empty"""
    for f in list(w.recipes)[:2]:
        ctx.write(w.root, {os.path.join(os.path.dirname(f), 'files', 'x.patch'): '', os.path.join(os.path.dirname(f), 'files', 'y'): ''})
