"""C37 comments, blank lines and line ends carry no meaning"""
from mon import gen, history, lab, world
from mon.core import need
from mon.view import compare

COMMENTS = ['#\n', '# x\n', '## A = "1"\n', '#A = "1"\n', '# inherit c0\n', '#require x.inc\n', '# do_x() {\n', '# }\n', '# python () {\n', '# def x():\n', '# "\n', "# it's\n", '# ${@bb.utils.contains("A", "b", "c", "d", d)}\n', '# A:append = "x"\n',
            '# A_append = "x"\n', '# \\x\n', '#\t#\n', '# addtask x before y\n', '# ${A} ${\n', '# """\n', '# ü\x0c\u2028x\n', '# unset A\n', '# export A\n', '#' * 80 + '\n', '# PACKAGES = "no"\n', '# \\ \\ x\n', '# ' + 'x' * 300 + '\n']
INDENTED = [' # x\n', '\t# A:append = "x"\n', '  #A_append = "x"\n', '    # do_x() {\n', ' # inherit c0\n', ' ## }\n', '   # "\n', '\t#\n', ' # def x():\n', ' # EXTRA:class-native = "1"\n']
BLANKS = ['\n', '\n\n', ' \n', '\t\n', '   \t \n', '\n' * 30]


class Check:
    quick, thorough = 1500, 50000
    rule = ('Layers of recipes, includes, classes and appends; a second layer differs in comments and blank lines inserted between statements, comments and blank lines taken out and line ends of another kind (\\n, \\r\\n, \\r, mixed, final one missing). Oracle (metamorphic): '
            'all other items, their order and attributes except lines, links, expansions, package knowledge and files are alike. Non-trivial: the texts differ.')
    min_events = {'answers_compared': 30000, 'items_compared': 30000, 'comments_added': 10000, 'blanks_added': 10000, 'comments_indented': 3000, 'taken_out': 500, 'crlf': 500, 'cr': 500, 'mixed': 500}

    def vary(self, rng, ctx, stmts):
        out = []
        inside = False      # what is indented belongs to a python function above

        def noise(after):
            nonlocal inside
            for _ in range(rng.choice([0, 0, 1, 1, 2, 4])):
                if rng.random() < .5 and not (after is not None and not after.text.endswith('\n')):
                    if not inside and rng.random() < .3:
                        out.append(rng.choice(INDENTED))
                        ctx.event('comments_indented')
                    else:
                        out.append(rng.choice(COMMENTS))
                        inside = False
                    ctx.event('comments_added')
                else:
                    out.append(rng.choice(BLANKS))
                    ctx.event('blanks_added')
        noise(None)
        for n, s in enumerate(stmts):
            if s.tag in ('Blank', 'Comment', 'CommentBlock') and rng.random() < .5:
                if all(x.endswith('\n') for x in out[-1:]):
                    ctx.event('taken_out')
                    continue
            out.append(s.text)
            if s.text.strip():
                inside = s.text.lstrip().startswith('def ')
            if s.text.endswith('\n'):
                noise(s)
        text = ''.join(out)
        end = rng.choice(['\n', '\n', '\r\n', '\r\n', '\r', 'mixed'])
        if end == 'mixed':
            ends, out = rng.choice([['\n', '\r\n', '\r'], ['\n', '\r\n'], ['\r', '\r\n']]), ''
            for c in text:
                # \r followed by \n is a single one
                out += rng.choice([x for x in ends if x != '\n' or not out.endswith('\r')] or ['\r\n']) if c == '\n' else c
            text = out
        else:
            text = text.replace('\n', end)
        ctx.event({'\n': 'lf', '\r\n': 'crlf', '\r': 'cr'}.get(end, end))
        return text

    def case(self, rng, ctx, i):
        rich, plain = history.rich_stmt(gen), world.plain(rng.choice(['new', 'new', 'old']))
        w = world.build(rng, recipes=(1, 2), appends=(0, 2), incs=(0, 3), classes=(0, 3), size=(0, 6), shared_inc=False, shared_cls=False, stmt=lambda r: (rich if r.random() < .5 else plain)(r))
        for k in w.stmts:
            # a file without any item at all is a case of its own
            w.stmts[k].insert(0, gen.S('KEEP = "1"\n', 'Variable'))
            w.texts[k] = ''.join(x.text for x in w.stmts[k])
        w.write(ctx)
        history.layer_files(ctx, w)
        order = world.order(rng, w)
        kw = {'new_style_override_syntax': rng.random() < .4, 'negative_inline': rng.random() < .3}
        other = {k: self.vary(rng, ctx, w.stmts[k]) if k in w.stmts else v for k, v in w.texts.items()}
        w2 = world.World()
        w2.texts, w2.recipes = other, w.recipes
        w2.write(ctx)
        history.layer_files(ctx, w2)
        ctx.describe({'added': order, 'files': w.describe(), 'varied': other, 'settings': kw})
        res = []
        for x in (w, w2):
            s = lab.stash(**kw)
            for a in order:
                s.AddFile(x.paths[a])
            s.Finalize()
            res.append(s)
        need(res[1].GetRecipes() or not w.recipes, 'nothing observed')
        if other != w.texts:
            ctx.shape(w.texts, other)
            ctx.sample({'text': w.texts[order[0]][:300], 'varied': other[order[0]][:400]})
        compare(ctx, 'with other comments, blank lines and line ends', res[0], res[1], [(w.paths[k], w2.paths[k]) for k in rng.sample(sorted(w.stmts), min(4, len(w.stmts)))], (w.root, w2.root))


CHECK = Check()
