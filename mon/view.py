"""What a stash knows about a file, comparable between different layouts and places"""
from mon import lab
from mon.core import same

TERMS = ['${PN}-${PV}', '${A} ${FOO}', '${BAR}', '${SRC_URI} ${BPN}', 'd.getVar("A")', '${SUMMARY}${DEPENDS}']


def picture(x):
    """an item without its place"""
    res = {k: v for k, v in lab.snap(x, lines=False).items()}
    if type(x).__name__ == 'PythonBlock':
        # blank lines that follow belong to it
        res = {k: v.rstrip() if isinstance(v, str) else v for k, v in res.items()}
    return res


def skipped(x):
    return type(x).__name__ == 'Comment' or (type(x).__name__ == 'Item' and not x.RealRaw.strip())


def answers(s, f, root):
    """what is known about a file: {question: answer}"""
    items = [x for x in s.GetItemsFor(filename=f) if not skipped(x)]
    own = [x for x in s.GetItemsFor(filename=f, nolink=True) if not skipped(x)]
    res = {
        'items': [(lab.clean(x.Origin, root), sorted(lab.clean(y, root) for y in x.IncludedFrom), lab.clean(picture(x), root)) for x in items],
        'own items': [lab.clean(picture(x), root) for x in own],
        'links': list(dict.fromkeys(lab.clean(x.Origin, root) for x in items if x.Origin != f)),
        'GetLinksForFile': sorted(set(lab.clean(x, root) for x in s.GetLinksForFile(f)) & {lab.clean(x.Origin, root) for x in items}),
        'ExpandVar': lab.clean(s.ExpandVar(filename=f), root),
        'terms': [lab.clean(s.ExpandTerm(f, t), root) for t in TERMS],
        'packages': sorted(s.GetValidPackageNames(f)), 'stripped packages': sorted(s.GetValidPackageNames(f, strippn=True)), 'resources': sorted(s.GetValidNamedResources(f)),
        'image': s.IsImage(f), 'group': s.IsPackageGroup(f), 'patterns': sorted(s.GetPackagesDynamic(f)), 'dynamic': [s.IsDynamicPackage(f, x) for x in ('foo-dyn-a', 'bar-plugin-z', 'x')],
        'files': lab.clean(s.GetFiles(f, '*'), root), 'name': (s.GuessRecipeName(f), s.GuessRecipeVersion(f), s.GuessBaseRecipeName(f)), 'layer': lab.clean(s.GetLayerRoot(f), root),
    }
    return res


def compare(ctx, what, s, t, pairs, roots):
    """the same answers about the files of both"""
    for f, g in pairs:
        a, b = answers(s, f, roots[0]), answers(t, g, roots[1])
        for k in a:
            if k in ('items', 'own items'):
                same('number of {} of {} {}'.format(k, f, what), len(b[k]), len(a[k]))
                for x, y in zip(a[k], b[k]):
                    same('{} of {} {}'.format(k, f, what), y, x)
                ctx.event('items_compared', len(a[k]))
            else:
                same('{} of {} {}'.format(k, f, what), b[k], a[k])
            ctx.event('answers_compared')
    # a class or configuration without any item is not listed
    used = [{lab.clean(x.Origin, r) for x in y.GetItemsFor() if not skipped(x)} for y, r in ((s, roots[0]), (t, roots[1]))]
    for q in ('GetRecipes', 'GetLoneAppends', 'GetBBClasses', 'GetConfFiles'):
        a, b = ([x for x in lab.clean(getattr(y, q)(), r) if x in u or q in ('GetRecipes', 'GetLoneAppends')] for y, r, u in ((s, roots[0], used[0]), (t, roots[1], used[1])))
        same(q + ' ' + what, b, a)
