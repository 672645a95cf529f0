"""C09 detection of the override syntax: a small state machine as oracle"""
from mon import gen, lab
from mon.core import same


class Check:
    quick, thorough = 18000, 200000
    rule = ('Files (and included files) mixing statements in old and new override syntax, with and without the constructor flag. Oracle: a per-file state machine - old until the first '
            'variable or function with a colon, new from it on; flag set: new everywhere - predicts the delimiter of every item and the decomposition of each name. '
            'Non-trivial: the file contains both syntaxes.')
    min_events = {'items_compared': 10000, 'switches': 500}

    def body(self, rng, flag):
        """(text, [(cls, want)])"""
        mode = 'new' if flag else 'old'
        text, want = '', []
        pnew = rng.choice([0, .1, .3, .8])
        for _ in range(rng.randint(1, 9)):
            style = 'new' if rng.random() < pnew else 'old'
            r = rng.random()
            if r < .6:
                if style == 'new':
                    full, base, subs = gen.new_name(rng)
                    if ':' not in full:
                        continue
                    mode = 'new'
                    w = {'VarName': base, 'SubItems': subs, 'OverrideDelimiter': ':', 'IsNewStyleOverrideSyntax': True, 'VarNameComplete': full}
                else:
                    full, base, subs = gen.old_name(rng)
                    if mode == 'new':
                        base, subs = full, []
                    d = ':' if mode == 'new' else '_'
                    w = {'VarName': base, 'SubItems': subs, 'OverrideDelimiter': d, 'IsNewStyleOverrideSyntax': d == ':', 'VarNameComplete': full}
                text += '{} = "{}"\n'.format(full, rng.choice(['1', 'a:b', 'x_append', '']))
                want.append(('Variable', w))
            elif r < .8:
                d = ':' if style == 'new' else '_'
                op = rng.choice(['append', 'prepend', None])
                if style == 'new' and op is None:
                    op = 'append'
                if style == 'new':
                    mode = 'new'
                fn = rng.choice(['do_install', 'do_install', 'do_compile', 'pkg_postinst', 'my_helper', 'x', 'do_foo-bar', 'pkg_prerm', 'python_x'])
                full = fn + (d + op if op else '')
                if style == 'old' and mode == 'new':
                    w = {'FuncName': full, 'SubItems': []}
                else:
                    w = {'FuncName': fn, 'SubItems': [op] if op else []}
                w['FuncNameComplete'] = full
                w['OverrideDelimiter'] = ':' if mode == 'new' else '_'
                text += full + '() {\n    :\n}\n'
                want.append(('Function', w))
            elif r < .9:
                text += rng.choice(['# FOO:append\nX9 = "2"\n', 'X9 = "a:append b:c"\n'])
                d = ':' if mode == 'new' else '_'
                if text.endswith('2"\n'):
                    want.append(('Comment', {'OverrideDelimiter': d}))
                want.append(('Variable', {'VarName': 'X9', 'SubItems': [], 'OverrideDelimiter': d}))
            else:
                text += 'do_foo[noexec] = "1"\n'
                want.append(('FlagAssignment', {'OverrideDelimiter': ':' if mode == 'new' else '_'}))
        return text, want

    def case(self, rng, ctx, i):
        flag = rng.random() < .25
        files = {'foo_1.0.bb': self.body(rng, flag), 'a.inc': self.body(rng, flag), 'classes/k.bbclass': self.body(rng, flag)}
        texts = {k: v[0] for k, v in files.items()}
        main, mw = files['foo_1.0.bb']
        # the included files come first, in the middle or last
        at = rng.choice(['first', 'last', 'none'])
        edges = 'require a.inc\ninherit k\n'
        ew = [('Include', {}), ('Inherit', {})]
        if at == 'first':
            main, mw = edges + main, ew + mw
        elif at == 'last':
            main, mw = main + edges, mw + ew
        texts['foo_1.0.bb'] = main
        files['foo_1.0.bb'] = (main, mw)
        texts['conf/layer.conf'] = ''
        ctx.describe({'files': texts, 'flag': flag})
        root = ctx.newdir()
        paths = ctx.write(root, texts)
        s = lab.stash(new_style_override_syntax=flag)
        s.AddFile(paths['foo_1.0.bb'])
        s.Finalize()
        for rel, (text, want) in files.items():
            if rel != 'foo_1.0.bb' and at == 'none':
                continue
            items = sorted((x for x in s.GetItemsFor() if x.Origin == paths[rel]), key=lambda x: x.InFileLine)
            same('kinds in ' + rel, [x.CLASSIFIER for x in items], [x[0] for x in want])
            for item, (_, w) in zip(items, want):
                for k, v in w.items():
                    same('{} of {!r} in {}'.format(k, item.RealRaw, rel), gen.read(item, k), v)
                ctx.event('items_compared')
            ds = [x.OverrideDelimiter for x in items]
            if len(set(ds)) > 1:
                ctx.event('switches')
                ctx.shape(text)
                ctx.sample({'file': rel, 'text': text})


CHECK = Check()
