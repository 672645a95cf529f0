"""C36 items can be edited and written back"""
import os

from mon import gen, history, lab, world
from mon.core import need, same

VALUES = ['"x"', '"a b  c"', '""', '"${PN}-1 ${FOO}"', "'y z'", '"1 \x1b  2"', '"--a=\'b\' c"', '"漢 é"', ' "x" ', '"x\\\n y"', '\t"a"', '"b" \t ']
VARS = ['A = "1"\n', 'A += "2"\n', 'FOO = "${A}-x"\n', 'BAR:append = " ${FOO}"\n', 'A:remove = "1"\n', 'FOO ?= "q"\n', 'BAR =. "r"\n', 'SUMMARY = "text of ${PN}"\n']


def whole(item):
    """everything an item says about itself"""
    res = lab.snap(item)
    for name in ('get_items', 'IsMultiLine', 'IsAppend', 'AppendOperation', 'IsImmediateModify', 'GetDistroEntry', 'GetMachineEntry', 'GetClassOverride', 'IsFromAppend', 'get_items_unaliased'):
        if hasattr(item, name):
            res[name + '()'] = getattr(item, name)()
    res['InlineBlocks'] = list(item.InlineBlocks)
    return res


def changed(before, now):
    return {k for k in set(before) | set(now) if before.get(k) != now.get(k)}


DERIVED = {
    'Line': {'Line'},
    'Raw': {'Raw', 'IsMultiLine()', 'get_items()'},
    'RealRaw': {'RealRaw', 'IsMultiLine()'},
    'VarValue': {'VarValue', 'VarValueStripped', 'get_items()'},
    'FuncBody': {'FuncBody', 'FuncBodyStripped'},
    'IncludedFrom': {'IncludedFrom'},
}


def probe_filter(ctx):
    """filter on an attribute, edit it, filter again"""
    s, items, _ = lab.parse_text(ctx, 'A = "1"\nB = "2"\n')
    s.GetItemsFor(attribute='VarValue', attributeValue='"3"')
    items[1].VarValue = '"3"'
    got = [x.VarName for x in s.GetItemsFor(attribute='VarValue', attributeValue='"3"')]
    if got == ['B']:
        return None
    need(got == [], 'filter probe changed its failure', got)
    return 'an item edited after the stash was asked for items with that very attribute value is not found by the same question'


class Check:
    quick, thorough = 6000, 120000
    rule = ('A: random items of random layers get new text, value, body, line or users through their setters. Oracle: the item reports the new value, everything not derived from it and all other items stay, stripped value and words are those of a fresh '
            'item with that value, and expanding variables and terms gives what a stash over the accordingly edited files gives. B: statements are replaced by others through RealRaw and the files written back as concatenation of their items. Oracle: the files are '
            'the generated ones with exactly these statements replaced, and parse like them. Non-trivial: at least one edit that changed a text.')
    probes = {'remembered-filter': probe_filter}
    min_events = {'edits': 8000, 'items_unchanged': 12000, 'expansions_compared': 1500, 'files_written': 2500, 'statements_replaced': 2500}

    def case(self, rng, ctx, i):
        (self.setters if i % 2 else self.write_back)(rng, ctx)

    def setters(self, rng, ctx):
        def stmt(r):
            if r.random() < .5:
                return gen.S(r.choice(VARS), 'Variable', {})
            return gen.statement(r, 'new', {'variable': 2, 'function': 2, 'comment': 1, 'directive': 2})
        w = world.build(rng, recipes=(1, 1), appends=(0, 1), incs=(0, 2), classes=(0, 1), shared_inc=False, shared_cls=False, repeat=False, size=(1, 5), stmt=stmt)
        w.write(ctx)
        adds = world.order(rng, w)
        s = lab.stash(new_style_override_syntax=True)
        for a in adds:
            s.AddFile(w.paths[a])
        s.Finalize()
        ctx.describe({'added': adds, 'files': w.describe()})
        if rng.random() < .5:
            lab.poke(s, [w.paths[x] for x in w.recipes], rng)
        items = s.GetItemsFor()
        if not items:
            return
        pics = [whole(x) for x in items]
        log = []
        for _ in range(rng.randint(3, 8)):
            k = rng.randrange(len(items))
            x = items[k]
            attrs = ['Line', 'Raw', 'RealRaw', 'IncludedFrom'] + ['VarValue'] * 4 * (x.CLASSIFIER == 'Variable') + ['FuncBody'] * 4 * (x.CLASSIFIER == 'Function')
            attr = rng.choice(attrs)
            if attr == 'Line':
                val = x.Line        # moving would reorder, that is looked at below
            elif attr == 'VarValue':
                val = rng.choice(VALUES)
            elif attr == 'FuncBody':
                val = rng.choice(['{\n    :\n}\n', '    echo x', ''])
            elif attr == 'IncludedFrom':
                val = {w.paths[w.recipes[0]], '/some/where.bb'}
            else:
                val = rng.choice(['A = "1"\n', 'x \\\n y\n', ''])
            setattr(x, attr, val)
            log.append((pics[k]['RealRaw'], attr, val))
            ctx.describe({'added': adds, 'files': w.describe(), 'edits': log})
            want = sorted(set(pics[k].get('IncludedFrom') or []) | val) if attr == 'IncludedFrom' else val
            now = whole(x)
            same('{} after setting it'.format(attr), now[attr] if attr in now else getattr(x, attr), want)
            need(changed(pics[k], now) <= DERIVED[attr], 'setting', attr, 'of', pics[k]['RealRaw'], 'also changed', sorted(changed(pics[k], now)))
            if attr == 'VarValue':
                y = lab.Variable('N', val, ' = ', origin='/x.bb', line=1, infileline=1, rawtext='', realraw='', inline_blocks=[], new_style_override_syntax=True)
                same('stripped value of ' + val, now['VarValueStripped'], y.VarValueStripped)
                same('words of ' + val, now['get_items()'], y.get_items())
                same('stripped value of ' + val, now['VarValueStripped'], val.strip()[1:-1])
            if attr == 'FuncBody':
                same('stripped body', now['FuncBodyStripped'], val.replace('{', '').replace('}', '').replace('\n', '').strip())
            pics[k] = now
            ctx.event('edits')
        for x, p in zip(items, pics):
            need(whole(x) == p, 'another item changed:', p['RealRaw'], sorted(changed(p, whole(x))))
            ctx.event('items_unchanged')
        need(list(s.GetItemsFor()) == list(items), 'items of the stash')
        # what the edited variables expand to
        texts = {}
        for x in items:
            if x.CLASSIFIER == 'Variable' and not x.InlineBlocks and '\n' not in x.VarValue.strip('\n') and '\x1b' not in x.VarValue:
                raw = '{}{}{}\n'.format(x.VarNameComplete, ' {} '.format(x.VarOp.strip()), x.VarValue)
            elif x.CLASSIFIER == 'Variable':
                return
            else:
                raw = w_text(w, x)
            texts.setdefault(lab.rel(x.Origin, w.root), []).append((x.InFileLine, raw))
        new = dict(w.texts)
        for f, parts in texts.items():
            new[f] = ''.join(r for _, r in sorted(parts, key=lambda z: z[0]))
        root = os.path.realpath(ctx.newdir())
        paths = ctx.write(root, new)
        o = lab.stash(new_style_override_syntax=True)
        for a in adds:
            o.AddFile(paths[a])
        o.Finalize()
        r = w.recipes[0]
        same('expansion after the edits', lab.clean(s.ExpandVar(filename=w.paths[r]), w.root), lab.clean(o.ExpandVar(filename=paths[r]), root))
        for t in ('${FOO} ${BAR}', '${A}', '${SUMMARY}'):
            same('expansion of {} after the edits'.format(t), s.ExpandTerm(w.paths[r], t), o.ExpandTerm(paths[r], t))
        ctx.event('expansions_compared')
        ctx.shape(w.texts, log)
        ctx.sample({'edits': log})

    def write_back(self, rng, ctx):
        plain = world.plain('new')
        w = world.build(rng, recipes=(1, 2), appends=(0, 1), incs=(0, 2), classes=(0, 1), shared_inc=False, shared_cls=False, repeat=False, size=(1, 7), stmt=plain)
        w.write(ctx)
        adds = world.order(rng, w)
        ctx.describe({'added': adds, 'files': w.describe()})
        s = lab.stash(new_style_override_syntax=True)
        for a in adds:
            s.AddFile(w.paths[a])
        want, n = {}, 0
        for f in sorted({x for a in adds for x in w.reach(a, appends=False)}):
            items = [x for x in s.GetItemsFor() if x.Origin == w.paths[f]]
            items.sort(key=lambda x: x.InFileLine)
            by = {x.InFileLine: x for x in items}
            text = ''
            for st, line in zip(w.stmts[f], w.lines(f)):
                t = st.text
                if rng.random() < .3 and not getattr(st, 'targets', None) and line in by and by[line].RealRaw == t:
                    t = rng.choice(['NEW = "x"\n', 'NEW:append = " \\\n    y \\\n"\n', '', 'do_new() {\n    :\n}\n', t.replace('"', "'") if st.cls == 'Variable' else 'N = "1"\n'])
                    by[line].RealRaw = t
                    n += 1
                text += t
            back = ''.join(x.RealRaw for x in items)
            same('text of {} written back'.format(f), back, text)
            want[f] = back
            ctx.event('files_written')
        ctx.event('statements_replaced', n)
        if n:
            ctx.shape(w.texts, want)
            ctx.sample({'written': want})


def w_text(w, x):
    f = lab.rel(x.Origin, w.root)
    for st, line in zip(w.stmts[f], w.lines(f)):
        if line == x.InFileLine:
            return st.text if st.text.endswith('\n') else st.text + '\n'
    raise LookupError(f)


CHECK = Check()
