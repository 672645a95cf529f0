"""C01 lossless segmentation: conservation monitor text-in == text-out"""
import os
import re

from mon import gen, lab
from mon.core import same, need


NEAR = ['x.inc', 'foo.inc', 'conf/layer.conf', 'conf/x.conf', 'gtk+.inc', 'classes/foo.bbclass', 'classes/core.bbclass', 'classes-global/a.bbclass', 'classes-recipe/lib.bbclass']


class Check:
    quick, thorough = 36000, 300000
    rule = ('One file per case: either composed structured statements (all kinds), hostile token soup, or a mutated structured file; LF/CRLF/CR, '
            'with and without final newline; included files and classes that exist, are missing or ignored by configuration. Non-trivial: at least 2 items came back. Oracle: conservation - the concatenated unprocessed raw texts '
            'equal the newline-normalised file text, and the newline count of every item equals the distance to the next one.')
    min_events = {'items_observed': 1000, 'bytes_conserved': 10000}

    def case(self, rng, ctx, i):
        kind = i % 4
        style = rng.choice(['new', 'old'])
        if kind in (0, 1):
            text, _ = gen.compose(rng, [gen.statement(rng, style) for _ in range(rng.randint(1, 20))])
        elif kind == 2:
            text, _ = gen.compose(rng, [gen.statement(rng, style) for _ in range(rng.randint(1, 10))])
            text = gen.mutate(rng, text)
        else:
            text = gen.soup(rng)
        if rng.random() < .03:
            text = '\ufeff' + text
        nl = rng.random()
        if nl < .1:
            text = text.replace('\n', '\r\n')
        elif nl < .13:
            text = text.replace('\n', '\r')
        name = rng.choice(['foo_1.0.bb', 'foo.inc', 'foo.bbclass', 'foo_%.bbappend', 'foo.conf'])
        ctx.describe({'file': name, 'text': text})
        kw = {'new_style_override_syntax': rng.random() < .5, 'negative_inline': rng.random() < .5}
        # some of the files the statements name may exist or be ignored by configuration
        root = os.path.realpath(ctx.newdir())
        more = {}
        if i % 2:
            for n in rng.sample(NEAR, rng.randint(0, len(NEAR))):
                more[n] = '# c\nX = "1"\n'
            for n in sorted(set(re.findall(r'(?:include|require)[ \t]+([\w.+/-]+)', text)))[:4]:
                if rng.random() < .5 and '..' not in n and len(n) < 80 and not n.endswith('/') and n != name:
                    more.setdefault(n, 'Y = "1"\n')
            for n in sorted(set(re.findall(r'inherit(?:_defer)?[ \t]+([\w-]+)', text)))[:4]:
                if rng.random() < .5:
                    more['classes/{}.bbclass'.format(n)] = 'Z = "1"\n'
            ig = {'classes': rng.sample(gen.LOWER, 3), 'include': [n for n in more if rng.random() < .3] + rng.sample(['x.inc', 'foo.inc', 'gtk+.inc'], 1)}
            lab.CONSTANTS.OverrideConstants({'ignore': ig})
            ctx.describe({'file': name, 'text': text, 'more': more, 'ignored': ig})
            ctx.event('ignored_names', len(ig['include']))
            try:
                ctx.write(root, more)
            except OSError:
                more = {}
            ctx.event('files_near', len(more))
        path = ctx.write(root, {name: text})[name]
        s = lab.stash(**kw)
        res = s.AddFile(path)
        items = [x for x in res if x.Origin == path]
        if not more:
            same('items of other files', len(res) - len(items), 0)
        want = lab.norm(text)
        got = ''.join(x.RealRaw for x in items)
        same('concatenated raw text of all items', got, want)
        line = 1
        for x in items:
            same('first line of {!r}'.format(x.RealRaw[:60]), x.InFileLine, line)
            line += x.RealRaw.count('\n')
            need(x.RealRaw != '', 'item without any text at line', x.InFileLine)
        # and the stash has the same picture
        back = s.GetItemsFor(filename=path, nolink=True)
        same('items stored for the file', sorted(id(x) for x in back), sorted(id(x) for x in items))
        ctx.event('items_observed', len(items))
        ctx.event('bytes_conserved', len(got))
        ctx.event('files_' + ('structured', 'structured', 'mutated', 'soup')[kind])
        if len(items) > 1:
            ctx.shape(text)
            ctx.sample({'file': name, 'text': text[:300], 'items': len(items)})


CHECK = Check()
