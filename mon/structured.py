"""Shared by the fidelity checks: parse composed statements, compare item by item"""
import os
import re

from mon import gen, lab
from mon.core import same


def compare(ctx, items, stmts):
    same('kinds of items', [x.CLASSIFIER for x in items], [x.cls for x in stmts])
    for item, s in zip(items, stmts):
        same('raw text', item.RealRaw, s.text)
        same('class of ' + repr(s.text), type(item).__name__, s.cls)
        for k, v in s.want.items():
            if k == '_body':
                got = gen.tidy(item.FuncBodyRaw.split('\n'))
                same('FuncBodyRaw of ' + repr(s.text), got, gen.tidy(v))
                same('get_items() of ' + repr(s.text), gen.tidy(item.get_items()), gen.tidy(v))
                # a backslash at the end of a line is a continuation, all others are part of the text
                flat = ''.join(re.sub(r'\\\s*$', '', ''.join(x.split())) for x in v).replace('\x1b', '')
                same('FuncBody of ' + repr(s.text), ''.join(item.FuncBody.replace('\x1b', '').split()), flat)
                same('FuncBodyStripped of ' + repr(s.text), ''.join(item.FuncBodyStripped.replace('\x1b', '').split()),
                     flat.replace('{', '').replace('}', ''))
                ctx.event('bodies_compared')
                continue
            same('{} of {!r}'.format(k, s.text), gen.read(item, k), v)
            ctx.event('attributes_compared')
        if s.cls in ('Comment', 'PythonBlock'):
            same('get_items() of ' + repr(s.text), item.get_items(), s.text.split('\n'))
        if s.cls == 'FunctionExports':
            stem = os.path.basename(item.Origin).rpartition('.')[0]
            same('unaliased names of ' + repr(s.text), item.get_items_unaliased(), [stem + '-' + x for x in s.want['get_items()']])
        ctx.event('is_' + s.tag)


class Fidelity:
    """one file of composed statements, item by item comparison"""
    weights = None
    names = ['foo_1.0.bb', 'zz.inc', 'foo.bbclass', 'foo_%.bbappend', 'x.conf', 'foo-1.2.bbclass', 'a.b_1.0.1.bb', 'cls.d/k_x.bbclass']
    size = (1, 14)

    def stmts(self, rng, style):
        return [gen.statement(rng, style, self.weights) for _ in range(rng.randint(*self.size))]

    def case(self, rng, ctx, i):
        style = 'new' if i % 3 else 'old'
        text, stmts = gen.compose(rng, self.stmts(rng, style))
        if style == 'old':
            stmts2 = [x for x in stmts if ':' not in x.want.get('VarName', '')]
            if len(stmts2) != len(stmts):
                text, stmts = gen.compose(rng, stmts2)
        name = rng.choice(self.names)
        ctx.describe({'file': name, 'style': style, 'text': text})
        s, items, path = lab.parse_text(ctx, text, name, new_style_override_syntax=style == 'new')
        compare(ctx, items, stmts)
        kinds = sorted({x.tag for x in stmts})
        if text.strip():
            ctx.shape(text)
            ctx.sample({'text': text[:300], 'kinds': kinds})
