"""C19 stashes and callers cannot disturb each other"""
import copy

from mon import gen, history, lab, world
from mon.core import need, same


def vandalise(rng, v, depth=0):
    """change a returned container in place, at any level"""
    n = 0
    if isinstance(v, dict):
        for x in list(v.values()):
            n += vandalise(rng, x, depth + 1)
        v[rng.choice(['A', 'PN', 'scheme', 'vandal'])] = 'vandal'
        if rng.random() < .5:
            v.clear()
        return n + 1
    if isinstance(v, set):
        v.add('vandal')
        if rng.random() < .5:
            v.clear()
        return n + 1
    if isinstance(v, list) or type(v).__name__ == 'StashList':
        for x in list(v):
            if isinstance(x, (list, dict, set)):
                n += vandalise(rng, x, depth + 1)
        r = rng.random()
        if r < .3:
            v.reverse()
            v.append('vandal')
        elif r < .6:
            del v[:]
        elif len(v):
            v[0] = 'vandal'
            v.pop()
        else:
            v.append('vandal')
        return n + 1
    return n


class Check:
    quick, thorough = 2100, 60000
    rule = ('A: every container returned by random queries (and by AddFile and reduce) is emptied, reordered or overwritten in place, then all questions are asked again and compared with a stash whose results were never touched. '
            'B: two or three stashes over different layers are filled and queried in random interleavings and compared with the same calls made on each of them alone in a fresh order. Non-trivial: a container that was really changed.')
    min_events = {'containers_changed': 4000, 'answers_compared': 8000, 'interleaved_answers': 3000}

    def build(self, rng, ctx):
        w = world.build(rng, recipes=(1, 2), appends=(0, 2), incs=(0, 2), classes=(0, 2), size=(0, 6), stmt=history.rich_stmt(gen), names=['foo', 'bar', 'foo-native'])
        w.write(ctx)
        history.layer_files(ctx, w)
        return w, world.order(rng, w)

    def case(self, rng, ctx, i):
        before = self.known()
        (self.callers if i % 2 else self.neighbours)(rng, ctx)
        for k, v in self.known().items():
            same('constants ' + k + ' after working with stashes', v, before[k])
        ctx.event('constants_compared')

    @staticmethod
    def known():
        # machines and distros are collected from layers, all others are nobody's business
        return {k: copy.deepcopy(getattr(lab.CONSTANTS, k)) for k in ('FunctionsKnown', 'FunctionsOrder', 'MirrorsKnown', 'VariablesKnown', 'ImagesClasses', 'ImagesVariables', 'SetsBase', 'ClassIgnore', 'IncludeIgnore')}

    def callers(self, rng, ctx):
        w, adds = self.build(rng, ctx)
        ctx.describe({'added': adds, 'files': w.describe()})

        def fill(rng2):
            s = lab.stash(new_style_override_syntax=True)
            for a in adds:
                res = s.AddFile(w.paths[a])
                if rng2:
                    vandalise(rng2, res)
            s.Finalize()
            return s
        a, b = fill(rng), fill(None)
        files = w.recipes * 2 + w.appends + sorted(w.texts)
        qs = [history.random_query(rng, files) for _ in range(14)] + [('GetRecipes', (), {}), ('GetBBClasses', (), {})]
        for u in ['git://h/r;name=foo;protocol=https', 'file://a.patch;x=1']:
            qs += [('GetScrComponents', (u,), {}), ('SafeLineSplit', (u + ' b c',), {})]
        want = [history.ask(b, q, w.paths) for q in qs]
        for rnd in range(2):
            for k in rng.sample(range(len(qs)), len(qs)):
                res = history.call(a, qs[k], w.paths)
                same('{} (round {})'.format(qs[k], rnd), history.norm(res), want[k])
                ctx.event('answers_compared')
                n = vandalise(rng, res)
                ctx.event('containers_changed', n)
                if n:
                    ctx.shape(qs[k], w.texts)
                if qs[k][0] == 'GetItemsFor':
                    keep = a.GetItemsFor(**{x: (w.paths[y[1]] if isinstance(y, tuple) else y) for x, y in qs[k][2].items()})
                    keep.reduce(classifier='Comment')
                    more = [x for x in a.GetItemsFor(classifier='Variable')]
                    a.Reduce(more, attribute='VarName', attributeValue='A')
                # and the untouched one still answers the same
        for q, x in zip(qs, want):
            same('{} at the end'.format(q), history.ask(a, q, w.paths), x)
        ctx.sample({'questions': [repr(q) for q in qs[:4]]})

    def neighbours(self, rng, ctx):
        worlds = [self.build(rng, ctx) for _ in range(rng.randint(2, 3))]
        ctx.describe([{'added': a, 'files': w.describe()} for w, a in worlds])
        opts = [{'new_style_override_syntax': rng.random() < .5, 'negative_inline': rng.random() < .5} for _ in worlds]
        plans = []
        for w, adds in worlds:
            files = w.recipes * 2 + w.appends + sorted(w.texts)
            p = []
            for a in adds:
                p.append(('add', a))
                for _ in range(rng.randint(0, 2)):
                    p.append(('ask', history.random_query(rng, files)))
            p.append(('finalize',))
            for _ in range(6):
                p.append(('ask', history.random_query(rng, files)))
            plans.append(p)

        def step(s, w, op):
            if op[0] == 'add':
                return history.norm(s.AddFile(w.paths[op[1]]))
            if op[0] == 'finalize':
                return s.Finalize()
            return history.ask(s, op[1], w.paths)
        # alone
        want = []
        for (w, _), p, o in zip(worlds, plans, opts):
            s = lab.stash(**o)
            want.append([step(s, w, x) for x in p])
        # interleaved
        stashes = [lab.stash(**o) for o in opts]
        pos = [0] * len(worlds)
        while True:
            left = [k for k in range(len(worlds)) if pos[k] < len(plans[k])]
            if not left:
                break
            k = rng.choice(left)
            op = plans[k][pos[k]]
            same('{} on stash {} in company'.format(op, k), step(stashes[k], worlds[k][0], op), want[k][pos[k]])
            ctx.event('interleaved_answers')
            pos[k] += 1
        need(all(p == len(q) for p, q in zip(pos, plans)))
        ctx.shape([w.texts for w, _ in worlds])


CHECK = Check()
