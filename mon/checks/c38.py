"""C38 the parts of a recipe mean what they mean written in one file"""
from mon import gen, history, lab, world
from mon.core import need, same
from mon.view import TERMS, picture, skipped


class Check:
    quick, thorough = 1800, 50000
    rule = ('A recipe with its includes (nested, repeated), classes and appends, and the same statements written into one file: include statements replaced by the text of the included file, inherited classes emptied and their text written behind the statement, '
            'appends (in the order added) at the end. Oracle (metamorphic): kinds, names and values of all statements in order, expanded variables and terms, packages, resources, image and group marks and dynamic patterns are alike, whether recipe or append is added first. '
            'Non-trivial: at least one part was merged.')
    min_events = {'recipes': 1200, 'merged_includes': 1000, 'merged_classes': 800, 'merged_appends': 500, 'short_parts': 500, 'statements_compared': 20000, 'variables_compared': 30000}

    def flat(self, w, rel, ctx, seen, res):
        for s in w.stmts[rel]:
            targets = getattr(s, 'targets', [])
            text = s.text if s.text.endswith('\n') else s.text + '\n'
            if not targets:
                res.append(text)
                continue
            if not targets[0].endswith('.bbclass'):
                ctx.event('merged_includes')
                self.flat(w, targets[0], ctx, seen, res)
                continue
            res.append(text)
            for t in targets:
                if t in seen:
                    continue
                seen.add(t)
                ctx.event('merged_classes')
                self.flat(w, t, ctx, seen, res)
        return res

    def case(self, rng, ctx, i):
        rich, plain = history.rich_stmt(gen), world.plain('new')
        # a part used by recipe and append has one place only (known findings of C13 and C14), and parts three steps away may be missing (C15)
        shared = rng.random() < .3
        w = world.build(rng, recipes=(1, 1), appends=(0, 0) if shared else (0, 3), incs=(0, 4), classes=(0, 4), size=(0, 6), shared_inc=shared, shared_cls=shared, maxdepth=2, append_depth=1,
                        stmt=lambda r: (rich if r.random() < .6 else plain)(r))
        for k in w.stmts:
            # nothing at the end of a file takes in what follows
            last = w.stmts[k][-1:]
            if last and not last[0].text.endswith('\n'):
                last[0].text += '\n'
            if rng.random() < .5 and (not last or last[0].cls in ('Variable', 'Function', 'TaskAdd', 'Inherit')):
                ctx.event('short_parts', len(w.stmts[k]) < 2)
                continue
            w.stmts[k].append(gen.S('END = "1"\n', 'Variable'))
            w.texts[k] = ''.join(x.text for x in w.stmts[k])
        w.write(ctx)
        recipe = w.recipes[0]
        adds = world.order(rng, w)
        appends = [x for x in adds if x.endswith('.bbappend') and world.append_matches(x, recipe)]
        seen = set()
        # the classes of what is parsed first are taken there
        parts = [x for x in adds if x == recipe or x in appends]
        texts = {x: self.flat(w, x, ctx, seen, []) for x in parts}
        flat = ''.join(texts[recipe] + [y for x in appends for y in texts[x]])
        ctx.event('merged_appends', len(appends))
        files = {'conf/layer.conf': w.texts['conf/layer.conf'], recipe: flat}
        files.update({x: '' for x in w.classes})
        w2 = world.World()
        w2.texts = files
        w2.write(ctx)
        kw = {'new_style_override_syntax': True, 'negative_inline': rng.random() < .3}
        ctx.describe({'added': adds, 'files': w.describe(), 'one file': flat, 'settings': kw})
        s, t = lab.stash(**kw), lab.stash(**kw)
        for a in adds:
            s.AddFile(w.paths[a])
        s.Finalize()
        t.AddFile(w2.paths[recipe])
        t.Finalize()
        f, g = w.paths[recipe], w2.paths[recipe]
        if len(w.reach(recipe)) > 1:
            ctx.shape(w.texts, adds)
            ctx.sample({'files': {k: v[:200] for k, v in w.texts.items()}, 'one file': flat[:500]})
        ctx.event('recipes')

        def stmts(st, name, root):
            res = []
            for x in st.GetItemsFor(filename=name):
                if skipped(x) or type(x).__name__ == 'Include' and x.FileIncluded:
                    continue
                p = lab.clean(picture(x), root)
                for k in ('IsFromClass', 'FilePaths'):
                    p.pop(k, None)
                for k in ('Raw', 'RealRaw'):
                    # the last line of a file may lack its end
                    p[k] = p[k].rstrip('\n')
                res.append(p)
            return res
        a, b = stmts(s, f, w.root), stmts(t, g, w2.root)
        need(b or not a, 'nothing observed')
        for n, (x, y) in enumerate(zip(a, b)):
            same('statement {} of {} written in several files'.format(n, recipe), x, y)
            ctx.event('statements_compared')
        same('number of statements of {} in several files'.format(recipe), len(a), len(b))
        a, b = lab.clean(s.ExpandVar(filename=f), w.root), lab.clean(t.ExpandVar(filename=g), w2.root)
        same('variables of {} in several files'.format(recipe), a, b)
        ctx.event('variables_compared', len(a))
        for term in TERMS:
            same('expansion of {} in several files'.format(term), s.ExpandTerm(f, term), t.ExpandTerm(g, term))
        for q in ('GetValidPackageNames', 'GetValidNamedResources', 'IsImage', 'IsPackageGroup', 'GetPackagesDynamic'):
            x, y = getattr(s, q)(f), getattr(t, q)(g)
            same('{} of {} in several files'.format(q, recipe), x if isinstance(x, bool) else sorted(x), y if isinstance(y, bool) else sorted(y))
        for x in ('foo-dyn-a', 'bar-plugin-z', 'foo-plugin-x', 'x'):
            same('{} is dynamic in several files'.format(x), s.IsDynamicPackage(f, x), t.IsDynamicPackage(g, x))


CHECK = Check()
