"""C13 variables expand according to the assignment operators"""
from mon import gen, inline, lab, world
from mon.core import same

NAMES = ['A', 'B', 'FOO', 'MY_VAR', 'lower', 'X-Y']
WORDS = ['a', 'b', 'c', 'foo', 'foobar', 'bar', '--x=1', 'lib/z.so', 'foo-dev', 'é', '${NOPE}', '${PN}', '#h', 'a:b', '=']


def val(rng, blanks=True):
    out = []
    for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
        out.append(rng.choice(WORDS))
    t = rng.choice([' ', ' ', '  ', '\t']).join(out)
    if blanks:
        t = rng.choice(['', '', ' ']) + t + rng.choice(['', '', ' '])
    return t


def statement(rng, style, pending, unset_ok, conditionals):
    delim = ':' if style == 'new' else '_'
    name = rng.choice(NAMES if style == 'new' else ['A', 'B', 'FOO', 'MY_VAR'])
    over = ''
    if rng.random() < .2:
        over = delim + rng.choice(['qemuarm', 'class-native', 'poky'])
    key = name + over
    if rng.random() < .08 and unset_ok and key not in pending:
        return gen.S('unset {}\n'.format(key), 'Unset', {'_op': (key, 'unset', '')})
    if rng.random() < .04:
        flag = rng.choice(['doc', 'noexec'])
        text = rng.choice(['unset {}[{}]\n', '{}[{}] = "x"\n']).format(name, flag)
        return gen.S(text, 'FlagAssignment' if '"' in text else 'Unset', {})
    kind = rng.choice(['=', '=', '?=', '?=', '??=', ':=', '+=', '+=', '=+', '.=', '=.', 'append', 'append', 'prepend', 'remove', 'remove'])
    v = val(rng)
    text = v
    if rng.random() < .12:
        src, t, f, _ = inline.block(rng, "'")
        if '${' not in t + f and '"' not in src:
            text, v = v + ' ' + src, v + ' ' + (f if conditionals else t)
    elif rng.random() < .06:
        text = v = v + ' ' + '${@foo(d)}'
    elif rng.random() < .12:
        text, v = 'q \\\n    ' + text, 'q ' + text
    if kind in ('append', 'prepend', 'remove'):
        if key in pending['unset']:
            kind = '+='
        else:
            pending.setdefault(key, True)
    if kind in ('append', 'prepend', 'remove'):
        full = name + delim + kind + over
        if rng.random() < .3:
            full = name + over + delim + kind
        op = '='
        if rng.random() < .15:
            # no difference, as long as the words are apart
            op, text, v = rng.choice([':=', '+=', '.=', '=+']), ' ' + text + ' ', ' ' + v + ' '
        out = '{} {} "{}"\n'.format(full, op, text)
    else:
        out = '{}{}{}{}"{}"\n'.format(key, rng.choice([' ', ' ', '  ', '\t'] if key[-1] in '-+' or kind[0] in '.+' else ['', ' ', ' ', '\t']), kind, gen.gap(rng), text)
    return gen.S(out, 'Variable', {'_op': (key, kind, v)})


def evaluate(ops, expand):
    """the operators of bitbake, statement by statement"""
    val, weak, app, rem = {}, {}, [], {}
    keys = []
    for key, kind, v in ops:
        if kind == 'unset':
            val.pop(key, None)
            weak.pop(key, None)
            if key in keys:
                keys.remove(key)
            continue
        if key not in keys:
            keys.append(key)
        if kind in ('=', ':='):
            val[key] = v
        elif kind == '?=':
            val.setdefault(key, v)
        elif kind == '??=':
            weak[key] = v
        elif kind == '+=':
            val[key] = val.get(key, '') + ' ' + v
        elif kind == '=+':
            val[key] = v + ' ' + val.get(key, '')
        elif kind == '.=':
            val[key] = val.get(key, '') + v
        elif kind == '=.':
            val[key] = v + val.get(key, '')
        elif kind in ('append', 'prepend'):
            app.append((key, kind, v))
        elif kind == 'remove':
            rem.setdefault(key, []).append(v)
    res = {}
    for key in keys:
        x = val.get(key, weak.get(key, ''))
        for k, kind, v in app:
            if k == key:
                x = x + v if kind == 'append' else v + x
        gone = set()
        for v in rem.get(key, []):
            gone.update(expand(v).split())
        res[key] = [y for y in expand(x).split() if y not in gone]
    return res


def probe_shared(ctx):
    root = ctx.newdir()
    p = ctx.write(root, {'a_1.bb': 'require x.inc\n', 'b_1.bb': 'require x.inc\n', 'x.inc': 'A = "1"\nA += "2"\n'})
    s = lab.stash()
    s.AddFile(p['a_1.bb'])
    s.AddFile(p['b_1.bb'])
    s.Finalize()
    got = s.ExpandVar(filename=p['a_1.bb'])['A']
    if got == ['1', '2']:
        return None
    return 'an include used by two recipes is applied twice: A += "2" in it gives {}'.format(got)


class Check:
    quick, thorough = 7500, 150000
    rule = ('Random programs of all operators, override style append/prepend/remove, unset and inline conditionals over few variables, spread over a recipe, its includes, classes and appends (each file pulled in from '
            'one place). Oracle: executable model of the operators run over the statements in processing order (known by construction). Non-trivial: a variable with at least 3 operations.')
    min_events = {'values': 5000, 'op_append': 1000, 'op_??=': 500, 'op_unset': 200, 'op_remove': 500, 'multi_file': 800, 'nolink': 1000}
    probes = {'shared-include': probe_shared}

    def case(self, rng, ctx, i):
        style = 'new' if i % 3 else 'old'
        neg = rng.random() < .3
        # a variable is either unset somewhere or has override style operations
        unset_vars = {n for n in NAMES if rng.random() < .35}
        pending = {'unset': unset_vars | {n + d + o for n in unset_vars for d in ':_' for o in ('qemuarm', 'class-native', 'poky')}}
        for n in NAMES:
            if n not in unset_vars:
                for d in ':_':
                    for o in ('', d + 'qemuarm', d + 'class-native', d + 'poky'):
                        pending[n + o] = True

        def stmt(r):
            if r.random() < .1:
                return gen.blank(r) if r.random() < .5 else gen.comment(r)
            return statement(r, style, pending, True, neg)
        w = world.build(rng, recipes=(1, 1), appends=(0, 3), incs=(0, 3), classes=(0, 2), shared_inc=False, shared_cls=False, maxdepth=2, append_depth=1,
                        size=(1, 9), stmt=stmt, names=['foo', 'bar-x', 'gtk+'], repeat=False)
        w.write(ctx)
        ctx.describe({'style': style, 'negative': neg, 'files': w.describe()})
        recipe = w.recipes[0]
        s = lab.stash(new_style_override_syntax=style == 'new', negative_inline=neg)
        adds = [recipe] + w.matching_appends(recipe)
        rng.shuffle(adds)
        for a in adds:
            s.AddFile(w.paths[a])
        s.Finalize()
        seq = []
        for f in [recipe] + [a for a in adds if a != recipe]:
            seq += world.process(w, f, set())
        at = {(rel, line): st for rel in w.stmts for st, line in zip(w.stmts[rel], w.lines(rel))}
        ops = [at[x].want['_op'] for x in seq if '_op' in at[x].want]
        path = w.paths[recipe]

        pn = s.GuessRecipeName(path)

        def expand(v):
            return v.replace('${PN}', pn)
        want = evaluate(ops, expand)
        base = set(lab.CONSTANTS.SetsBase) | {'PN', 'PV', 'BPN'}
        base = {expand(x) for x in base}
        got = s.ExpandVar(filename=path)
        same('variables known', sorted(x for x in got if x not in base), sorted(want))
        for k in want:
            mine = [x for x in ops if x[0] == k]
            same('value of {} after {}'.format(k, mine), got[k], want[k])
            ctx.event('values')
        for _, k, _ in ops:
            ctx.event('op_' + k)
        if want:
            k = rng.choice(sorted(want))
            if k in NAMES:
                one = s.ExpandVar(filename=path, attribute='VarNameComplete', attributeValue=[k + x for x in ('', ':append', ':prepend', ':remove', '_append', '_prepend', '_remove')])
                same('value of {} asked for alone'.format(k), one.get(k), want[k])
                ctx.event('alone')
        own = [at[x].want['_op'] for x in seq if x[0] == recipe and '_op' in at[x].want]
        got = s.ExpandVar(filename=path, nolink=True)
        want1 = evaluate(own, expand)
        same('own variables', {k: v for k, v in got.items() if k not in base}, want1)
        ctx.event('nolink')
        if len({x[0] for x in seq}) > 1:
            ctx.event('multi_file')
        if any(len([x for x in ops if x[0] == k]) >= 3 for k in want):
            ctx.shape(ops)
            ctx.sample({'operations': ops[:12], 'values': dict(list(want.items())[:4])})


CHECK = Check()
