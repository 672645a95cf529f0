"""Access to the code under test (public API only) and shared observations."""
import os

import mon.core  # noqa: F401  (puts /repo on sys.path)
from oelint_parser.cls_item import Item, Variable  # noqa: F401
from oelint_parser.cls_stash import Stash
from oelint_parser.constants import CONSTANTS, Constants  # noqa: F401

ALL_CLASSIFIERS = ['Item', 'Variable', 'Comment', 'Include', 'Export', 'Function', 'PythonBlock', 'FlagAssignment', 'FunctionExports',
                   'TaskAdd', 'TaskDel', 'AddPylib', 'AddFragements', 'IncludeAll', 'Inherit', 'Unset']


def stash(**kw):
    return Stash(quiet=True, **kw)


def norm(text):
    """what reading a text file with newline normalisation yields"""
    return text.replace('\r\n', '\n').replace('\r', '\n')


def parse_text(ctx, text, name='foo_1.0.bb', **kw):
    """parse one text as one file: (stash, items in returned order, path)"""
    root = ctx.newdir()
    path = ctx.write(root, {name: text})[name]
    s = stash(**kw)
    items = s.AddFile(path)
    return s, items, path


def snap(item, root=None, lines=True):
    """comparable picture of an item"""
    res = {}
    for k, v in item.GetAttributes().items():
        if not lines and k in ('Line', 'InFileLine', 'Origin', 'IncludedFrom'):
            continue
        res[k] = clean(v, root)
    res['__class__'] = type(item).__name__
    return res


def clean(v, root=None):
    if isinstance(v, (set, frozenset)):
        return sorted(clean(x, root) for x in v)
    if isinstance(v, dict):
        return {clean(k, root): clean(x, root) for k, x in sorted(v.items())}
    if isinstance(v, (list, tuple)):
        return [clean(x, root) for x in v]
    if isinstance(v, str) and root:
        return v.replace(root, '<ROOT>')
    return v


def rel(path, root):
    return os.path.relpath(path, root)


def keyof(item):
    """identity of a parsed statement that does not depend on its position"""
    return (type(item).__name__, item.RealRaw)


def poke(s, paths, rng, more=()):
    """Use every query of the stash and every accessor of the items"""
    n = 0
    files = list(paths)
    rng.shuffle(files)
    files = files[:4]
    s.ExpandVar(), s.ExpandVar(attribute='VarName', attributeValue=rng.choice(['A', 'B', 'FOO', 'SRC_URI', 'NOSUCH'])), s.ExpandVar(nolink=True)
    s.GetItemsFor(), s.GetItemsFor(filename='/nosuch/x_1.bb'), s.GetLinksForFile('/nosuch/x_1.bb'), s.GetLinksForFile('')
    s.GetRecipes(), s.GetLoneAppends(), s.GetConfFiles(), s.GetBBClasses(), s.FingerPrint
    n += 12
    terms = ['${PN}-${PV}', '${A}', 'x', '${B} ${FOO}', '${BP}', '${@d.getVar("A")}', '${@oe.utils.read_file("${THISDIR}/x.inc")}'] + list(more)
    for f in files:
        items = s.GetItemsFor(filename=f)
        s.GetItemsFor(filename=f, nolink=True)
        s.GetItemsFor(filename=f, classifier=rng.choice(ALL_CLASSIFIERS))
        s.GetItemsFor(filename=f, classifier='Variable', attribute='VarName', attributeValue=rng.choice(['A', 'B', 'FOO', 'SRC_URI']))
        s.GetLinksForFile(f)
        s.ExpandVar(filename=f)
        s.ExpandVar(filename=f, attribute='VarName', attributeValue=['A', 'SRC_URI'])
        for t in terms:
            s.ExpandTerm(f, t)
        s.GetFiles(f, '*.patch')
        s.GetLayerRoot(f)
        s.FindLocalOrLayer('x.inc', os.path.dirname(f))
        s.GuessRecipeName(f), s.GuessBaseRecipeName(f), s.GuessRecipeVersion(f)
        s.GetValidPackageNames(f), s.GetValidPackageNames(f, strippn=True), s.GetValidNamedResources(f)
        s.IsImage(f), s.IsPackageGroup(f), s.GetPackagesDynamic(f), s.IsDynamicPackage(f, 'foo-x')
        n += 24
        # of files with thousands of statements a sample
        for item in items if len(items) < 400 else rng.sample(list(items), 400):
            poke_item(s, f, item)
            n += 1
    return n


def poke_item(s, f, item):
    repr(item)
    item.get_items()
    item.GetAttributes()
    item.extract_sub(item.RealRaw)
    item.extract_sub_func(item.RealRaw)
    item.IsFromAppend()
    for name in ('IsAppend', 'AppendOperation', 'IsMultiLine', 'GetDistroEntry', 'GetMachineEntry', 'GetClassOverride', 'IsImmediateModify', 'get_items_unaliased'):
        if hasattr(item, name):
            getattr(item, name)()
    if type(item).__name__ == 'Variable':
        item.get_items(versioned=True)
        s.ExpandTerm(f, item.VarValueStripped, objref=item)
        if item.VarName == 'SRC_URI':
            for x in item.get_items():
                s.GetScrComponents(x)
        s.SafeLineSplit(item.VarValue)
