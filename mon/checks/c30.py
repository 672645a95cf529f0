"""C30 result lists behave like lists"""
import copy

from mon import gen, lab
from mon.core import Violation, need, same


def attempt(f):
    """result or kind of failure"""
    try:
        return 'ok', f()
    except (IndexError, ValueError, TypeError) as e:
        return 'failed', type(e).__name__


class Check:
    quick, thorough = 7200, 80000
    rule = ('Random sequences of 5-40 list operations (all methods and operators of list with items, slices with any step, lists, tuples, result lists, generators, itself; failing ones too; filters in between) on the lists returned by GetItemsFor '
            'and on what the operations return. Oracle: a built-in list taken through the same operations, compared by identity of the items after every step; a filtered list against a brute force filter. Non-trivial: a sequence with a derived list.')
    min_events = {'operations': 15000, 'derived': 3000, 'failed': 300, 'reduced': 1000, 'many': 500, 'self_argument': 200}

    def check(self, what, sl, model):
        got = list(sl)
        if len(got) != len(model) or any(a is not b for a, b in zip(got, model)):
            raise Violation('after {}: list of {} items differs from a built-in list of {} items'.format(what, len(got), len(model)))
        same('len after ' + what, len(sl), len(model))
        same('truth after ' + what, bool(sl), bool(model))
        need(sl == model and not (sl != model), 'equality after', what)

    def case(self, rng, ctx, i):
        text = ''.join(gen.statement(rng, 'new').text for _ in range(rng.randint(0, 10)))
        other = ''.join(gen.statement(rng, 'new').text for _ in range(rng.randint(1, 4)))
        root = ctx.newdir()
        paths = ctx.write(root, {'foo_1.bb': text, 'bar_1.bb': other})
        s = lab.stash(new_style_override_syntax=True)
        s.AddFile(paths['foo_1.bb'])
        s.AddFile(paths['bar_1.bb'])
        s.Finalize()
        full = list(s.GetItemsFor())
        SL = type(s.GetItemsFor())
        sl = s.GetItemsFor(filename=paths['foo_1.bb'])
        need(isinstance(sl, SL), 'kind of the answer')
        pool = [(sl, list(sl)), (s.GetItemsFor(filename=paths['bar_1.bb']), None), (s.GetItemsFor(classifier='Variable'), None)]
        pool = [(a, list(a)) for a, _ in pool]
        log = []
        derived = False

        def pick(m):
            return rng.choice(m) if m and rng.random() < .8 else rng.choice(full)

        def some(m):
            return [pick(m) for _ in range(rng.randint(0, 3))]

        def sli(m):
            n = len(m)

            def e():
                return rng.choice([None, rng.randint(-n - 2, n + 2)])
            return slice(e(), e(), rng.choice([None, None, 1, 2, -1, -2, 3]))
        for _ in range(rng.randint(5, 40)):
            k = rng.randrange(len(pool))
            a, m = pool[k]
            op = rng.choice(['append', 'append_many', 'extend', 'insert', 'remove', 'remove_many', 'pop', 'index', 'count', 'reverse', 'sort', 'slice', 'add', 'radd', 'mul', 'imul', 'iadd', 'copy', 'copycopy',
                             'set', 'setslice', 'del', 'delslice', 'contains', 'compare', 'iterate', 'reduce', 'reduce', 'get', 'clear', 'stash_reduce', 'ctor'])
            log.append(op)
            ctx.describe({'operations': log, 'text': text, 'other': other})
            ctx.event('operations')
            if len(m) > 200 and op in ('extend', 'add', 'radd', 'mul', 'imul', 'iadd', 'append_many'):
                op = 'clear'
            res = None
            new = None
            if op in ('append', 'insert'):
                x = pick(m)
                n = rng.randint(-len(m) - 1, len(m) + 1)
                (a.append(x), m.append(x)) if op == 'append' else (a.insert(n, x), m.insert(n, x))
            elif op in ('append_many', 'extend', 'iadd'):
                o = rng.randrange(len(pool))
                form = rng.choice(['list', 'tuple', 'result', 'gen'])
                if form == 'result':
                    if o == k:
                        ctx.event('self_argument')
                    arg, add = pool[o][0], list(pool[o][1])
                else:
                    add = some(m)
                    arg = list(add) if form == 'list' or (form == 'gen' and op == 'append_many') else tuple(add) if form == 'tuple' else (x for x in list(add))
                ctx.event('many')
                if op == 'append_many':
                    a.append(arg)
                elif op == 'extend':
                    a.extend(arg)
                else:
                    before = a
                    a += arg
                    need(a is before, 'in place addition made another list')
                m.extend(add)
            elif op in ('remove', 'remove_many'):
                if op == 'remove':
                    x = pick(m)
                    res = attempt(lambda: a.remove(x)), attempt(lambda: m.remove(x))
                else:
                    ctx.event('many')
                    r = rng.random()
                    if r < .2 and pool[k][0] is a:
                        arg, rem = a, list(m)
                        ctx.event('self_argument')
                    else:
                        rem = rng.sample(m, min(len(m), rng.randint(0, 3)))
                        arg = list(rem) if r < .5 else tuple(rem) if r < .8 else SL(s, rem)
                    a.remove(arg)
                    for x in rem:
                        m.remove(x)
            elif op == 'pop':
                n = rng.choice([None, None, rng.randint(-len(m) - 1, len(m))])
                res = attempt(lambda: a.pop() if n is None else a.pop(n)), attempt(lambda: m.pop() if n is None else m.pop(n))
            elif op == 'index':
                x = pick(m)
                res = attempt(lambda: a.index(x)), attempt(lambda: m.index(x))
            elif op == 'count':
                x = pick(m)
                res = a.count(x), m.count(x)
            elif op == 'reverse':
                a.reverse(), m.reverse()
            elif op == 'sort':
                key = rng.choice([lambda x: x.Line, lambda x: x.RealRaw, lambda x: -x.InFileLine])
                rev = rng.random() < .5
                a.sort(key=key, reverse=rev), m.sort(key=key, reverse=rev)
            elif op == 'slice':
                z = sli(m)
                new = (a[z], m[z])
            elif op == 'add':
                o = rng.randrange(len(pool))
                new = rng.choice([lambda: (a + pool[o][0], m + pool[o][1]), lambda: (a + list(pool[o][1]), m + pool[o][1]), lambda: (a + tuple(pool[o][1]), m + pool[o][1])])()
            elif op == 'radd':
                o = some(m)
                new = (o + a, o + m)
            elif op == 'mul':
                n = rng.randint(-1, 3)
                new = rng.choice([lambda: (a * n, m * n), lambda: (n * a, n * m)])()
            elif op == 'imul':
                n = rng.randint(0, 2)
                before = a
                a *= n
                need(a is before, 'in place repetition made another list')
                m *= n
            elif op == 'copy':
                new = (a.copy(), m.copy())
            elif op == 'copycopy':
                new = (copy.copy(a), list(m))
            elif op == 'ctor':
                new = (SL(s, rng.choice([iter, list, tuple])(m)), list(m))
            elif op in ('set', 'get', 'del'):
                n = rng.randint(-len(m) - 1, len(m))
                x = pick(m)

                def do(lst):
                    if op == 'set':
                        lst[n] = x
                    elif op == 'del':
                        del lst[n]
                    else:
                        return lst[n]
                res = attempt(lambda: do(a)), attempt(lambda: do(m))
            elif op == 'setslice':
                z = sli(m)
                xs = some(m)

                def put(lst):
                    lst[z] = list(xs)
                res = attempt(lambda: put(a)), attempt(lambda: put(m))
            elif op == 'delslice':
                z = sli(m)
                del a[z]
                del m[z]
            elif op == 'contains':
                x = pick(m)
                res = (x in a, x not in a), (x in m, x not in m)
            elif op == 'compare':
                o = rng.randrange(len(pool))
                b, n = pool[o]
                res = (a == b, a != b, a == n, n == a, a == tuple(m)), (m == n, m != n, m == n, n == m, False)
            elif op == 'iterate':
                need(all(x is y for x, y in zip(iter(a), m)) and all(x is y for x, y in zip(reversed(a), reversed(m))), 'iteration')
                same('repr', repr(a), repr(m))
                need(all(x is y for x, y in zip(a, [*a])), 'unpacking')
            elif op == 'clear':
                if rng.random() < .3 or len(m) > 200:
                    a.clear(), m.clear()
            elif op in ('reduce', 'stash_reduce'):
                kw = {}
                keep = list(m)
                if rng.random() < .6:
                    c = rng.choice(['Variable', 'Comment', 'Function', ['Variable', 'Item'], ['Comment', 'Inherit', 'FlagAssignment']])
                    kw['classifier'] = c
                    keep = [x for x in keep if x.CLASSIFIER in ([c] if isinstance(c, str) else c)]
                if rng.random() < .4:
                    f = rng.choice(sorted(paths.values()))
                    kw['filename'] = f
                    keep = [x for x in keep if x.Origin == f]
                if rng.random() < .3:
                    v = rng.choice(['FOO', 'A', ['FOO', 'BAR', 'SRC_URI']])
                    kw.update(attribute='VarName', attributeValue=v)
                    keep = [x for x in keep if hasattr(x, 'VarName') and x.VarName in ([v] if isinstance(v, str) else v)]
                uniq = []
                for x in keep:
                    if not any(x is y for y in uniq):
                        uniq.append(x)
                uniq.sort(key=lambda x: x.Line)
                if op == 'reduce':
                    r = a.reduce(**kw)
                    need(r is a, 'reduce works on another list')
                    got = list(a)
                else:
                    r = s.Reduce(a, **kw)
                    got = list(r)
                same('reduced items', sorted(id(x) for x in got), sorted(id(x) for x in uniq))
                same('order of reduced items', [x.Line for x in got], [x.Line for x in uniq])
                ctx.event('reduced')
                if op == 'reduce':
                    m[:] = got
            if res is not None:
                same('result of ' + op, res[0], res[1])
                if isinstance(res[0], tuple) and res[0][0] == 'failed':
                    ctx.event('failed')
                elif isinstance(res[0], tuple) and res[0][0] == 'ok':
                    need(res[0][1] is res[1][1] or not hasattr(res[0][1], 'Line'), 'another item', op)
            if new is not None:
                derived = True
                ctx.event('derived')
                need(isinstance(new[0], SL), 'result of', op, 'can not be filtered', type(new[0]))
                need(all(new[0] is not x for x, _ in pool), 'result is the same list', op)
                self.check(op + ' (result)', *new)
                pool.append(new)
                if len(pool) > 6:
                    pool.pop(rng.randrange(len(pool)))
            for b, n in pool:
                self.check(op, b, n)
        if derived:
            ctx.shape(log, text)
            ctx.sample(log)


CHECK = Check()
