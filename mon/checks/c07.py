"""C07 statements are understood independently of their neighbours (metamorphic)"""
import os

from mon import gen, lab
from mon.core import same

JUNK = ['foo', 'A', '= "1"', 'A == "x"', 'inherit', 'include', 'require', 'export', 'addtask', 'deltask', 'unset', 'A[b]', '[', ']', '}', '"', "'", 'EXPORT_FUNCTIONS', 'addpylib',
        'python', 'fakeroot', 'INHERIT', 'A ?= ', '@', '%', '$', '${', '${A}', '1', '-', '+', '.', ',', ';', 'x y', 'def', ' ', '\t', 'A="1"', 'before', 'after', ' # x', 'A = \'y\'', '~', '漢', '\x0c', '>', '(', ')', 'addfragments', 'include_all', 'd.getVar("A")']


def junk(rng):
    t = ''.join(rng.choice(JUNK) for _ in range(rng.randint(1, 7)))
    if t.lstrip().startswith(('#', 'def ')) or ('(' in t and '{' in t) or not t.strip():
        t = 'x' + t.replace('{', '')
    return gen.S(t + '\n', '?', tag='Junk')


class Check:
    quick, thorough = 9000, 100000
    rule = ('Sequences of 2-12 units (structured statements and malformed one-line junk) are parsed once together and once each in a file of its own. Oracle: the items (all attributes '
            'but the line numbers) of the joint file are the concatenation of the items of the single files. Non-trivial: at least 2 different kinds of units.')
    min_events = {'units_compared': 10000, 'junk_units': 2000}

    def case(self, rng, ctx, i):
        style = 'new' if i % 3 else 'old'
        units = []
        for _ in range(rng.randint(2, 12)):
            units.append(units[-1] if units and rng.random() < .05 else junk(rng) if rng.random() < .45 else gen.statement(rng, style))
        if style == 'old':
            units = [x for x in units if ':' not in x.text]
        text, units = gen.compose(rng, units, nonl=False)
        # a comment right after another one is one block in the joint file (compose has merged those)
        ctx.describe({'style': style, 'text': text})
        kw = {'new_style_override_syntax': style == 'new'}
        root = os.path.join(ctx.newdir(), 'x')
        name = rng.choice(['foo_1.0.bb', 'foo_1.0.inc', 'foo.bbclass'])

        def parse(n, t):
            p = ctx.write(os.path.join(root, str(n)), {name: t})[name]
            s = lab.stash(**kw)
            return [lab.snap(x, os.path.join(root, str(n)), lines=False) for x in s.AddFile(p)]
        together = parse('all', text)
        alone = []
        for n, u in enumerate(units):
            res = parse(n, u.text)
            same('number of items made from ' + repr(u.text), len(res), 1)
            alone += res
            ctx.event('units_compared')
            if u.tag == 'Junk':
                ctx.event('junk_units')
                ctx.event('junk_as_' + res[0]['__class__'])
        same('number of items', len(together), len(alone))
        for a, b, u in zip(together, alone, units):
            same('{!r} in company vs. alone'.format(u.text), a, b)
        if len({u.tag for u in units}) > 1:
            ctx.shape(text)
            ctx.sample({'text': text[:300]})


CHECK = Check()
