"""C17 queries return exactly the matching items, once, in order"""
from mon import gen, lab, world
from mon.core import need, same

ATTRS = ['VarName', 'VarNameComplete', 'VarOp', 'SubItem', 'IncName', 'Statement', 'FuncName', 'IsPython', 'IsFakeroot', 'Flag', 'Name', 'Class', 'Line', 'InFileLine', 'Origin',
         'IsFromClass', 'RawVarName', 'Value', 'Path', 'NoSuchAttribute', 'RealRaw', 'VarValueStripped', 'OverrideDelimiter', 'Namespace']


def wrap(rng, values):
    """single value or any of the containers"""
    if len(values) == 1 and rng.random() < .5:
        return values[0]
    return rng.choice([list, tuple, set])(values)


class Check:
    quick, thorough = 9000, 150000
    rule = ('Random layers of all kinds of statements; random combinations of file, kinds, attribute names and values (single, list, set, tuple; present, absent and near-miss values), links on and off, '
            'asked at once and as chains of reduce() in random order. Oracle: brute force filter over the complete item list, whose completeness and order are checked against the statements written. '
            'Non-trivial: a query that returns some but not all items.')
    min_events = {'queries': 10000, 'chains': 4000, 'partial': 4000, 'file_filter': 3000, 'value_filter': 2000, 'duplicates_offered': 500, 'file_lists': 500}

    def case(self, rng, ctx, i):
        def stmt(r):
            return gen.statement(r, 'new')
        w = world.build(rng, recipes=(1, 2), appends=(0, 2), incs=(0, 3), classes=(0, 2), shared_inc=False, shared_cls=False, repeat=False, maxdepth=2, append_depth=1,
                        size=(0, 6), stmt=stmt)
        w.write(ctx)
        adds = world.order(rng, w)
        ctx.describe({'added': adds, 'files': w.describe()})
        s = lab.stash(new_style_override_syntax=True)
        given = []
        for a in adds:
            given += s.AddFile(w.paths[a])
        s.Finalize()
        full = list(s.GetItemsFor())
        parsed = set()
        for a in adds:
            parsed |= set(w.reach(a, appends=False))
        same('items known', sorted((lab.rel(x.Origin, w.root), x.InFileLine) for x in full), sorted((f, n) for f in parsed for n in w.lines(f)))
        need(len({id(x) for x in full}) == len(full), 'an item is listed twice')
        for x in given:
            need(any(x is y for y in full), 'item returned by AddFile is not listed', x)
        if i % 4 == 0:
            ctx.event('file_lists')
            more = {'conf/' + n: '{} = "{}"\n'.format(n[0], n) for n in rng.sample(['z.conf', 'a.conf', 'conf.conf', 'm.confx', 'bbclass.conf', 'n.conf'], 3)}
            p = ctx.write(w.root, more)
            t = lab.stash(new_style_override_syntax=True)
            todo = [w.paths[a] for a in adds] + list(p.values())
            rng.shuffle(todo)
            for a in todo:
                t.AddFile(a)
                if rng.random() < .2:
                    t.GetConfFiles(), t.GetBBClasses()
            t.Finalize()
            every = {x.Origin for x in t.GetItemsFor()}
            need(set(p.values()) <= every, 'a file added has no items', sorted(p), sorted(every))
            same('GetConfFiles', list(t.GetConfFiles()), sorted(x for x in every if x.endswith('.conf')))
            same('GetBBClasses', list(t.GetBBClasses()), sorted(x for x in every if x.endswith('.bbclass')))
        for a, b in zip(full, full[1:]):
            need(a.Line <= b.Line, 'items are not sorted by line', a.Line, b.Line)
        extra = None
        if full and rng.random() < .3:
            extra = rng.choice(full)
            s.Append(extra)
            if rng.random() < .5:
                s.Append([extra, rng.choice(full)])
            ctx.event('duplicates_offered')
        if not full:
            return
        kinds = sorted({x.CLASSIFIER for x in full})
        for _ in range(12):
            crit = {}
            if rng.random() < .5:
                f = rng.choice(sorted(w.paths) + ['nosuch.bb'])
                crit['filename'] = w.paths.get(f, '/nonexistent/' + f)
                if rng.random() < .4:
                    crit['nolink'] = True
            if rng.random() < .6:
                crit['classifier'] = wrap(rng, [rng.choice(kinds + kinds + lab.ALL_CLASSIFIERS + ['Var', 'variable']) for _ in range(rng.choice([1, 1, 2, 3]))])
            if rng.random() < .6:
                names = [rng.choice(ATTRS) for _ in range(rng.choice([1, 1, 1, 2]))]
                crit['attribute'] = wrap(rng, names)
                if rng.random() < .75:
                    vals = []
                    for _ in range(rng.choice([1, 1, 2, 3])):
                        pool = [x.GetAttributes().get(names[0]) for x in rng.sample(full, min(3, len(full)))]
                        pool = [x for x in pool if isinstance(x, (str, int)) and x] + ['FOO', 'x']
                        v = rng.choice(pool)
                        if isinstance(v, str) and rng.random() < .15:
                            v = rng.choice([v[:-1], v + 'x', v.lower(), ' ' + v]) or 'x'
                        vals.append(v)
                    crit['attributeValue'] = wrap(rng, vals)
            want = [x for x in full if self.fits(w, x, crit)]
            res = s.GetItemsFor(**crit)
            self.eq('GetItemsFor({})'.format(crit), list(res), want)
            ctx.event('queries')
            if 0 < len(want) < len(full):
                ctx.event('partial')
                ctx.shape(i, sorted((k, repr(v)) for k, v in crit.items()))
                ctx.sample({'criteria': {k: repr(v) for k, v in crit.items()}, 'found': len(want), 'of': len(full)})
            if 'filename' in crit:
                ctx.event('file_filter')
            if 'attributeValue' in crit:
                ctx.event('value_filter')
            # the same in steps
            steps = []
            if 'filename' in crit:
                steps.append({k: crit[k] for k in ('filename', 'nolink') if k in crit})
            if 'classifier' in crit:
                steps.append({'classifier': crit['classifier']})
            if 'attribute' in crit:
                steps.append({k: crit[k] for k in ('attribute', 'attributeValue') if k in crit})
            rng.shuffle(steps)
            if steps:
                lst = s.GetItemsFor()
                keep = s.GetItemsFor(**steps[0])
                before = list(keep)
                for st in steps:
                    if rng.random() < .5:
                        back = lst.reduce(**st)
                        need(back is lst, 'reduce() does not return the list itself')
                    else:
                        lst = type(lst)(s, s.Reduce(lst, **st))
                self.eq('chain {}'.format(steps), list(lst), want)
                mixed = list(keep)
                rng.shuffle(mixed)
                copy = list(mixed)
                rest = steps[1] if len(steps) > 1 else {}
                self.eq('Reduce of a shuffled list {}'.format(steps[:2]), s.Reduce(mixed, **rest), sorted([x for x in mixed if self.fits(w, x, rest)], key=lambda x: x.Line))
                self.eq('list given to Reduce', mixed, copy)
                self.eq('list retrieved before', list(keep), before)
                ctx.event('chains')

    @staticmethod
    def eq(what, got, want):
        if [id(x) for x in got] != [id(x) for x in want]:
            same(what, [(x.Line, x.Origin, x.Raw) for x in got], [(x.Line, x.Origin, x.Raw) for x in want])
            need(False, what, 'returned other objects than the ones stored')

    @staticmethod
    def fits(w, x, crit):
        f = crit.get('filename')
        if f:
            if not crit.get('nolink') and f.startswith(w.root):
                ok = lab.rel(x.Origin, w.root) in w.reach(lab.rel(f, w.root))
            else:
                ok = x.Origin == f
            if not ok:
                return False

        def many(v):
            return list(v) if isinstance(v, (list, tuple, set)) else [v]
        if 'classifier' in crit and x.CLASSIFIER not in many(crit['classifier']):
            return False
        if 'attribute' in crit:
            attrs = x.GetAttributes()
            vals = many(crit['attributeValue']) if 'attributeValue' in crit else None
            return any(n in attrs and (vals is None or attrs[n] in vals) for n in many(crit['attribute']))
        return True


CHECK = Check()
