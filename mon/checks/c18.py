"""C18 answers never depend on earlier questions"""
from mon import gen, history, lab, world
from mon.core import same


class Check:
    quick, thorough = 1350, 60000
    rule = ('Random histories of 3-9 modifying calls (AddFile, Append, Remove, Finalize) with bursts of random queries in between. Oracle: at every point the same questions, in another order, are put to a new '
            'stash which went through the same modifications without being asked before. Non-trivial: an answer that differs from the one given to the same question earlier in the history.')
    min_events = {'answers_compared': 10000, "changed_answers": 1000, "op_append": 100, "op_remove": 100, "op_finalize": 100}

    def case(self, rng, ctx, i):
        w = world.build(rng, recipes=(1, 3), appends=(0, 3), incs=(0, 3), classes=(0, 3), cyclic=rng.random() < .1, size=(0, 5), stmt=history.rich_stmt(gen), names=['foo', 'bar', 'foo-native'])
        w.write(ctx)
        history.layer_files(ctx, w)
        kw = {'new_style_override_syntax': True, 'negative_inline': rng.random() < .3}
        todo = world.order(rng, w, extra=rng.sample(w.incs + w.classes, min(1, len(w.incs + w.classes))))
        ops = []
        while todo or rng.random() < .6:
            r = rng.random()
            if todo and r < .6:
                ops.append(('add', todo.pop(0)))
            elif r < .63:
                # away and back again, with the same questions in between
                ops.append(('remove', rng.random(), rng.random(), False))
                ops.append(('append', .9999, 0, rng.random() < .3))
            elif r < .75:
                ops.append(('remove', rng.random(), rng.random(), rng.random() < .3))
            elif r < .88:
                ops.append(('append', rng.random(), rng.random(), rng.random() < .3))
            else:
                ops.append(('finalize',))
            if len(ops) > 10:
                break
        names = sorted(w.texts)
        files = w.recipes * 3 + w.appends + names
        foreign = {'q/foreign_1.bb': 'A = "foreign"\nFOO = "f"\nSRC_URI = "x;name=ff"\n'}
        fpath = ctx.write(w.root, foreign)['q/foreign_1.bb']
        asked = [history.random_query(rng, files) for _ in range(6)]
        plan = []
        for n, op in enumerate(ops):
            if op[0] == 'append' and op[1] == .9999 and n and plan[-1][1]:
                plan.append((op, list(plan[-1][1])))
                continue
            qs = rng.sample(asked, 4) + [history.random_query(rng, files) for _ in range(3)] if rng.random() < .8 or n == len(ops) - 1 else []
            plan.append((op, qs))
        ctx.describe({'plan': plan, 'files': w.describe()})

        class Run:
            def __init__(self):
                self.s = lab.stash(**kw)
                self.own = []
                self.spare = list(lab.stash(**kw).AddFile(fpath))

            def do(self, op):
                def pick(lst, x):
                    return lst[int(x * len(lst))]
                def many(lst, x):
                    return [list, tuple, lambda y: type(self.s.GetItemsFor())(self.s, y)][int(x * 1000) % 3](lst)
                if op[0] == 'add':
                    self.own += self.s.AddFile(w.paths[op[1]])
                elif op[0] == 'remove' and self.own:
                    x = pick(self.own, op[1])
                    self.own.remove(x)
                    if op[3] and self.own:
                        y = pick(self.own, op[2])
                        self.own.remove(y)
                        self.spare += [x, y]
                        self.s.Remove(many([x, y], op[1]))
                    else:
                        self.spare.append(x)
                        self.s.Remove(x)
                elif op[0] == 'append' and self.spare:
                    x = pick(self.spare, op[1])
                    self.spare.remove(x)
                    self.own.append(x)
                    self.s.Append(many([x], op[1]) if op[3] else x)
                elif op[0] == 'finalize':
                    self.s.Finalize()
                return op[0]
        # the whole history first: other stashes in between could clear what is remembered
        a = Run()
        answers = []
        for op, qs in plan:
            ctx.event('op_' + a.do(op))
            answers.append([history.ask(a.s, q, w.paths) for q in qs])
        done, last = [], {}
        for (op, qs), got in zip(plan, answers):
            done.append(op)
            if not qs:
                continue
            b = Run()
            for x in done:
                b.do(x)
            idx = list(range(len(qs)))
            rng.shuffle(idx)
            for k in idx:
                q = qs[k]
                fresh = history.ask(b.s, q, w.paths)
                same('{} after {}'.format(q, done), got[k], fresh)
                ctx.event('answers_compared')
                key = repr(q)
                if key in last and last[key] != fresh:
                    ctx.event('changed_answers')
                    ctx.shape(key, done, w.texts)
                    ctx.sample({'question': key, 'history': [list(map(str, x)) for x in done]})
                last[key] = fresh


CHECK = Check()
