"""Random layers: recipes, appends, includes, classes and their relations, with
the relations known by construction."""
import os

from mon import gen


class World:
    def __init__(self):
        self.stmts = {}      # rel -> [S] (S.targets: list of rel)
        self.texts = {}
        self.recipes, self.appends, self.incs, self.classes, self.confs = [], [], [], [], []
        self.root = None
        self.paths = {}

    def direct(self, rel):
        res = []
        for s in self.stmts.get(rel, []):
            for t in getattr(s, 'targets', []):
                if t not in res:
                    res.append(t)
        return res

    def matching_appends(self, recipe):
        return [x for x in self.appends if append_matches(x, recipe)]

    def reach(self, rel, depth=None, appends=True):
        """files pulled in by rel: {file: distance}"""
        dist = {rel: 0}
        todo = [rel]
        while todo:
            cur = todo.pop(0)
            nxt = list(self.direct(cur))
            if appends and cur.endswith('.bb'):
                nxt += self.matching_appends(cur)
            for n in nxt:
                if n not in dist:
                    dist[n] = dist[cur] + 1
                    if depth is None or dist[n] < depth:
                        todo.append(n)
        return dist

    def lines(self, rel):
        """in-file line numbers of the statements"""
        res, line = [], 1
        for s in self.stmts[rel]:
            res.append(line)
            line += s.text.count('\n')
        return res

    def write(self, ctx):
        self.root = os.path.realpath(ctx.newdir())
        if ctx.index % 16 == 7:
            # the layer is reached by a symbolic link
            os.makedirs(os.path.join(self.root, 'real/deep'))
            os.symlink('real/deep', os.path.join(self.root, 'link'))
            self.root = os.path.join(self.root, 'link')
        self.paths = ctx.write(self.root, self.texts)
        return self

    def describe(self):
        return dict(self.texts)


def append_matches(append, recipe):
    """bitbake's rule: literal name, '%' stands for anything"""
    a = os.path.basename(append)[:-len('.bbappend')]
    r = os.path.basename(recipe)[:-len('.bb')]
    if '%' not in a:
        return a == r
    pre, _, post = a.partition('%')
    return r.startswith(pre) and r.endswith(post) and len(r) >= len(pre) + len(post)


def edge(rng, world, src, target):
    """a statement in src that pulls in target"""
    ext = os.path.splitext(target)[1]
    if ext == '.bbclass':
        name = os.path.basename(target)[:-len('.bbclass')]
        glob = os.path.dirname(target) in ('classes', 'classes-global')
        kind = rng.choice(['inherit', 'inherit', 'inherit', 'inherit_defer'] + (['INHERIT'] if glob else []))
        if kind == 'INHERIT':
            s = gen.S('INHERIT += "{}"\n'.format(name), 'Inherit', {'Statement': 'INHERIT'})
        else:
            s = gen.S('{} {}\n'.format(kind, name), 'Inherit', {'Statement': kind})
    else:
        here = os.path.dirname(src)
        forms = [target]
        if os.path.dirname(target) == here:
            forms = [os.path.basename(target)] * 2 + [target]
        kind = rng.choice(['require', 'include'])
        s = gen.S('{} {}\n'.format(kind, rng.choice(forms)), 'Include', {'Statement': kind})
    s.targets = [target]
    return s


def fill(rng, n, stmt):
    res = []
    for _ in range(n):
        # the same statement again, now and then
        res.append(res[-1] if res and rng.random() < .05 else stmt(rng))
    return res


def plain(style='new'):
    def _stmt(rng):
        return gen.statement(rng, style, {'variable': 8, 'function': 1, 'comment': 1, 'blank': 2, 'pydef': .5})
    return _stmt


def build(rng, recipes=(1, 3), appends=(0, 2), incs=(0, 4), classes=(0, 4), shared_inc=True, cyclic=False, maxdepth=4, size=(0, 5), stmt=None, empty=True,
          names=None, multi_inherit=True, repeat=True, shared_cls=True, append_depth=None):
    # shared_*: may a file be pulled in from several places / append_depth: levels an append may pull in
    w = World()
    stmt = stmt or plain()
    names = names or ['foo', 'bar', 'foo-native', 'gtk+', 'a.b', 'libstdc++', 'zlib', 'foobar']
    w.texts['conf/layer.conf'] = 'BBPATH .= ":${LAYERDIR}"\n'
    vers = ['1.0', '1', '2.1', 'git', '1.0.1']
    dirs = ['recipes-a/x', 'recipes-a/y', 'recipes-b/x']
    for _ in range(rng.randint(*recipes)):
        n = rng.choice(names)
        rel = '{}/{}_{}.bb'.format(rng.choice(dirs), n, rng.choice(vers))
        if rng.random() < .1:
            rel = '{}/{}.bb'.format(rng.choice(dirs), n)
        if rel not in w.recipes:
            w.recipes.append(rel)
    for _ in range(rng.randint(*appends)):
        base = os.path.basename(rng.choice(w.recipes))[:-3]
        r = rng.random()
        if r < .5:
            a = base
        elif r < .85:
            a = base.split('_')[0] + '_%'
        elif r < .92:
            a = base[:max(1, len(base) - 1)] + '%'
        else:
            a = rng.choice(['nosuch_1.0', base + '.1', base[:-1], 'x' + base])
        rel = 'recipes-c/{}/{}.bbappend'.format(rng.choice(['p', 'q', 'r']), a)
        if rel not in w.appends:
            w.appends.append(rel)
    for k in range(rng.randint(*incs)):
        rel = '{}/{}'.format(rng.choice(dirs + ['recipes-c/p']), rng.choice(['f{}.inc', 'g{}.inc', 'h-{}.inc', 'x_{}.inc']).format(k))
        w.incs.append(rel)
    for k in range(rng.randint(*classes)):
        w.classes.append('{}/{}.bbclass'.format(rng.choice(['classes', 'classes-recipe', 'classes-global']), rng.choice(['c{}', 'my-cls{}', 'k_{}']).format(k)))
    w.classes = list(dict.fromkeys(w.classes))
    level = {}
    for x in w.incs + w.classes:
        level[x] = rng.randint(1, maxdepth)
    used = set()
    todo = w.recipes + w.appends + sorted(w.incs + w.classes, key=lambda x: level[x])
    for rel in todo:
        lv = level.get(rel, 0)
        if append_depth is not None and rel in w.appends:
            lv = maxdepth - append_depth
        body = fill(rng, rng.randint(*size), stmt)
        if not empty and not body:
            body = [gen.variable(rng)]
        cand = [x for x in w.incs + w.classes if (level[x] > lv or (cyclic and rng.random() < .4))]
        picks = [x for x in cand if rng.random() < .5]
        for t in picks:
            if not shared_inc and t.endswith('.inc') and t in used:
                continue
            if not shared_cls and t.endswith('.bbclass') and t in used:
                continue
            used.add(t)
            body.insert(rng.randint(0, len(body)), edge(rng, w, rel, t))
            if repeat and shared_inc and rng.random() < .08:
                body.insert(rng.randint(0, len(body)), edge(rng, w, rel, t))
        # merge adjacent inherits now and then
        if multi_inherit:
            out = []
            for s in body:
                if out and getattr(s, 'targets', None) and getattr(out[-1], 'targets', None) and s.want.get('Statement') == out[-1].want.get('Statement') == 'inherit' and rng.random() < .7:
                    both = out[-1].targets + s.targets
                    names_ = [os.path.basename(x)[:-8] for x in both]
                    m = gen.S('inherit {}\n'.format(rng.choice([' ', '  ', '\t']).join(names_)), 'Inherit', {'Statement': 'inherit'})
                    m.targets = both
                    out[-1] = m
                else:
                    out.append(s)
            body = out
        text, merged = gen.compose(rng, body, nonl=True)
        w.stmts[rel] = merged
        w.texts[rel] = text
    return w


def order(rng, w, extra=()):
    """a plausible order in which a user adds files"""
    res = list(w.recipes) + list(w.appends) + list(extra)
    rng.shuffle(res)
    return res


def process(w, rel, seen_classes, stack=()):
    """statements in the order bitbake would process them: [(rel, in-file line)]"""
    res = []
    for s, line in zip(w.stmts[rel], w.lines(rel)):
        res.append((rel, line))
        for t in getattr(s, 'targets', []):
            if t in stack + (rel,):
                continue
            if t.endswith('.bbclass'):
                if t in seen_classes:
                    continue
                seen_classes.add(t)
            res += process(w, t, seen_classes, stack + (rel,))
    return res
