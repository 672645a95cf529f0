"""C21 the fingerprint tells different content apart"""
import os
import shutil

from mon import gen, inline, lab, world
from mon.core import need, same


class Check:
    quick, thorough = 1400, 60000
    rule = ('Random layers are fingerprinted twice (equal, also with questions asked in between, other line endings, and files nobody reads changed) and after one minimal edit: one character inserted, deleted or replaced, a line '
            'added, removed or swapped, a file moved, a file added, a setting flipped. Oracle: equal content gives the equal fingerprint, different content a different one; fingerprints of all distinct contents of a run never collide. '
            'Non-trivial: an edit that changed the text of a file that is parsed.')
    min_events = {'equal_pairs': 700, 'different_pairs': 2000, 'edit_char': 500, 'edit_lines': 500, 'setting_flips': 700, 'edit_unread': 70, 'long_statements': 20}

    def setup(self, ctx):
        self.seen = {}

    def fp(self, w, adds, kw, texts=None, rng=None):
        """write the texts (always at the same place) and take the fingerprint"""
        root = self.root
        for x in os.listdir(root):
            shutil.rmtree(os.path.join(root, x))
        paths = self.ctx.write(root, texts or w.texts)
        s = lab.stash(**kw)
        for a in adds:
            s.AddFile(paths[a])
            if rng is not None and rng.random() < .5:
                self.big or lab.poke(s, [paths[a]], rng)
        if rng is not None and rng.random() < .5:
            s.Finalize()
        return s.FingerPrint

    def case(self, rng, ctx, i):
        self.ctx = ctx
        self.root = os.path.realpath(ctx.newdir())

        def stmt(r):
            if r.random() < .25:
                return gen.S('{}"{}{} y"\n'.format(r.choice(['A = ', 'B:append = ', 'export C = ', 'do_x[dirs] = ']), r.choice(['', 'x ', '${Y}']), r.choice([inline.block, inline.block, lambda q, z: [inline.opaque(q, z)]])(r, "'")[0]), '?', {})
            return gen.statement(r, 'new')
        w = world.build(rng, recipes=(1, 2), appends=(0, 2), incs=(0, 2), classes=(0, 2), size=(1, 5), stmt=stmt, repeat=False)
        self.big = i % 250 == 7
        if self.big:
            # a file with thousands of statements, all edits are somewhere inside
            x = rng.choice(sorted(w.recipes))
            n = rng.choice([1100, 5000, 9000])
            w.texts[x] = ''.join('A{} = "{}"\n'.format(k, k % 7) for k in range(n)) + w.texts[x]
            w.stmts[x] = [gen.S('A = "1"\n', 'Variable')] * n + w.stmts[x]
            ctx.event('big_files')
        elif i % 50 == 9:
            # a single statement of thousands of lines
            x = rng.choice(sorted(w.recipes))
            n = rng.choice([60, 700, 3000])
            one = rng.choice(['do_x() {{\n{}}}\n', 'A = " \\\n{}"\n', 'def f(d):\n{}', '{}']).format(''.join('    echo {}\n'.format(k) for k in range(n)))
            if one[0] == 'A':
                one = one.replace('\n', ' \\\n').replace('\\ \\', '\\').rstrip('\\ \n') + '\n'
            elif one[0] == ' ':
                one = one.replace('    ', '# ')
            w.texts[x] = one
            w.stmts[x] = []
            ctx.event('long_statements')
        adds = world.order(rng, w)
        parsed = set()
        for a in adds:
            parsed |= set(w.reach(a, appends=False))
        kw = {'new_style_override_syntax': rng.random() < .5, 'negative_inline': rng.random() < .5}
        ctx.describe({'added': adds, 'files': w.describe(), 'settings': kw})
        base = self.fp(w, adds, kw)
        if any(w.texts[x] for x in parsed):
            self.note(base, (w.texts, adds, kw))
        same('fingerprint of the same content', self.fp(w, adds, kw, rng=rng), base)
        ctx.event('equal_pairs')
        if rng.random() < .2:
            same('fingerprint with other line endings', self.fp(w, adds, kw, {k: v.replace('\n', '\r\n') for k, v in w.texts.items()}), base)
            ctx.event('equal_pairs')
        idle = sorted(set(w.texts) - parsed - {'conf/layer.conf'})
        if idle:
            t = dict(w.texts)
            t[idle[0]] += 'X = "1"\n'
            same('fingerprint with unread file changed', self.fp(w, adds, kw, t), base)
            ctx.event('edit_unread')
        for k in kw:
            f = self.fp(w, adds, dict(kw, **{k: not kw[k]}))
            need(f != base, 'setting', k, 'does not change the fingerprint')
            ctx.event('setting_flips')
        for _ in range(4):
            t = dict(w.texts)
            f = rng.choice(sorted(x for x in parsed if t[x]) or [None])
            if f is None:
                continue
            if self.big and x in parsed and rng.random() < .8:
                f = x
            old = t[f]
            kind, p = rng.choice(['char', 'char', 'lines', 'lines', 'move', 'more'] if not self.big else ['char', 'more']), rng.randrange(len(old))
            if self.big and rng.random() < .5:
                p = len(old) - 1 - rng.randrange(len(old) // 20 + 1)
            at = old.find('${@')
            if kind == 'char' and at >= 0 and rng.random() < .6:
                p = min(len(old) - 1, at + rng.randint(3, 60))
                ctx.event('edit_inside_inline')
            adds2 = adds
            if kind == 'char':
                r = rng.random()
                c = rng.choice('xX1 _-"\n')
                t[f] = old[:p] + c + old[p:] if r < .4 else old[:p] + old[p + 1:] if r < .7 else old[:p] + c + old[p + 1:]
            elif kind == 'lines':
                ls = old.splitlines(True) if '\x0b' not in old else old.split('\n')
                ls = old.split('\n')
                k = rng.randrange(len(ls))
                r = rng.random()
                if r < .35:
                    ls.insert(k, rng.choice(['', '# c', ls[k]]))
                elif r < .7:
                    del ls[k]
                else:
                    m = rng.randrange(len(ls))
                    ls[k], ls[m] = ls[m], ls[k]
                t[f] = '\n'.join(ls)
            elif kind == 'move':
                if f not in adds:
                    continue
                new = os.path.join(os.path.dirname(f), 'moved', os.path.basename(f))
                t[new] = t.pop(f)
                adds2 = [new if x == f else x for x in adds]
            else:
                t['z/new_9.bb'] = 'X = "1"\n'
                adds2 = adds + ['z/new_9.bb']
            if t == w.texts or (kind == 'char' and lab.norm(t[f]) == lab.norm(old)):
                continue
            ctx.describe({'added': adds2, 'files': t, 'settings': kw, 'edit': kind, 'of': f, 'original': old})
            n = self.fp(w, adds2, kw, t)
            need(n != base, 'the fingerprint does not notice', kind, 'in', f)
            if any(t.get(x) for x in parsed):
                self.note(n, (t, adds2, kw))
            ctx.event('different_pairs')
            ctx.event('edit_' + kind)
            ctx.shape(t, adds2)
        ctx.sample({'fingerprint': base, 'files': sorted(w.texts)})

    def note(self, fp, what):
        # only files that are added or reached matter; collisions between random layers show missing content
        key = repr((sorted(what[0].items()), what[1], sorted(what[2].items())))
        self.ctx.event('different_pairs')
        root = (self.root, key)
        if fp in self.seen and self.seen[fp] != root and self.seen[fp][0] != self.root:
            need(False, 'same fingerprint for two layers:', self.seen[fp], root)
        self.seen[fp] = root


CHECK = Check()
