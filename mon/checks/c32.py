"""C32 local source files are found where the metadata looks for them"""
import fnmatch
import os

from mon import lab
from mon.core import need, same

FNAMES = ['a.patch', 'b.patch', '0001-x.patch', 'c.cfg', 'd', '.hidden.patch', 'e.PATCH', 'f.patch.bak', 'ü.patch', 'sp ace.patch', 'defconfig', 'x[1].patch', 'ab.cfg']
PATTERNS = ['*.patch', '*', '*.cfg', '?.patch', 'a.patch', '0001-*', 'nosuch', '[ab].patch', 'defconfig', '*.p*', '.hid*', '*x*']
SUBS = ['foo', 'files', 'foo-1.0', 'x [y]', '.dot', 'deep']


class Check:
    quick, thorough = 3000, 80000
    rule = ('Random trees of files (hidden, blank, bracket and non-ASCII names, deeper and shallower ones as decoys) below the directories of a recipe, its includes, classes and appends; directories with pattern characters; SRC_URI set in any of '
            'them or only in files not pulled in. Oracle: independent directory walk over the directories of all files that set SRC_URI for the recipe, and those of the files seen from these. Non-trivial: a file found in the directory of another file.')
    min_events = {'questions': 3500, 'found': 1800, 'nothing': 200, 'from_other_file': 300, 'pattern_roots': 150}

    def case(self, rng, ctx, i):
        base = os.path.realpath(ctx.newdir())
        pre = rng.choice(['', '', 'm[eta]/', 'l*/', 'q?/'])
        if pre:
            ctx.event('pattern_roots')
        d = {k: pre + v for k, v in {'rec': 'recipes-a/foo', 'inc': 'recipes-a/inc', 'cls': 'classes', 'app': 'recipes-b/foo', 'oth': 'recipes-c/bar'}.items()}
        main = d['rec'] + '/foo_1.0.bb'
        texts = {main: [], d['oth'] + '/bar_1.bb': ['SRC_URI = "file://o.patch"\n'], pre + 'conf/layer.conf': ['X = "1"\n'] if rng.random() < .3 else []}
        inc = d[rng.choice(['inc', 'rec'])] + '/foo.inc'
        edges = {main: []}
        if rng.random() < .6:
            texts[inc] = []
            texts[main].append('require {}\n'.format(inc[len(pre):]))
            edges[main].append(inc)
        cls = d['cls'] + '/c.bbclass'
        if rng.random() < .5:
            texts[cls] = []
            texts[main].append('inherit c\n')
            edges[main].append(cls)
        app = d['app'] + '/foo_%.bbappend'
        if rng.random() < .5:
            texts[app] = []
            edges[main].append(app)
        setters = set()
        for f in [main] + edges[main]:
            r = rng.random()
            if r < .4:
                texts[f].append(rng.choice(['SRC_URI = "file://x"\n', 'SRC_URI += "a b"\n', 'SRC_URI:append = " file://y"\n', 'SRC_URI:qemuarm ?= ""\n']))
                setters.add(f)
            elif r < .8:
                texts[f].append(rng.choice(['A = "1"\n', 'SRC_URIX = "file://x"\n', '# SRC_URI = "file://x"\n', 'do_x() {\n    SRC_URI="x"\n}\n', 'SRC_URI[md5sum] = "1"\n']))
        files = {}
        there = {}
        for k, dd in d.items():
            for sub in rng.sample(SUBS, rng.randint(0, 3)):
                for n in rng.sample(FNAMES, rng.randint(0, 5)):
                    files['{}/{}/{}'.format(dd, sub, n)] = rng.choice(['x', 'x', '', '\n' * 3000])
                    there.setdefault(dd, []).append((sub, n))
                if rng.random() < .3:
                    files['{}/{}/sub/{}'.format(dd, sub, rng.choice(FNAMES))] = 'x'
            if rng.random() < .4:
                files['{}/{}'.format(dd, rng.choice(FNAMES))] = 'x'
        files.update({k: ''.join(v) for k, v in texts.items()})
        paths = ctx.write(base, files)
        if rng.random() < .25:
            # links to files and directories, links to nowhere, directories in between
            dd = os.path.join(base, rng.choice(sorted({os.path.dirname(x) for x in texts})))
            for n, to in (('linked', rng.choice(['files', 'foo', '.', base])), ('files/z.patch', rng.choice(['a.patch', 'gone', '.', '/dev/null'])), ('foo/y.patch/', None), ('x.d', '../classes')):
                p = os.path.join(dd, n)
                if rng.random() < .5 and not os.path.lexists(p.rstrip('/')):
                    os.makedirs(os.path.dirname(p), exist_ok=True)
                    if to:
                        os.symlink(to, p)
            ctx.event('links')
        s = lab.stash(new_style_override_syntax=True)
        adds = [x for x in (main, app, d['oth'] + '/bar_1.bb') if x in texts]
        rng.shuffle(adds)
        ctx.describe({'files': files, 'added': adds})
        for f in adds:
            s.AddFile(paths[f])
        s.Finalize()
        # which directories are looked at
        look = set()
        for f in setters:
            look.add(os.path.dirname(f))
            if f == main:
                look |= {os.path.dirname(x) for x in [main] + edges[main] if texts[x]}
        for pat in rng.sample(PATTERNS, 4):
            got = s.GetFiles(paths[main], pat)
            want = set()
            for dd in look:
                for x in os.listdir(os.path.join(base, dd)):
                    p = os.path.join(base, dd, x)
                    if x.startswith('.') or not os.path.isdir(p):
                        continue
                    for n in os.listdir(p):
                        if fnmatch.fnmatchcase(n, pat) and (not n.startswith('.') or pat.startswith('.')):
                            want.add(os.path.join(p, n))
            same('files matching {} for {}'.format(pat, main), list(got), sorted(want))
            ctx.event('questions')
            ctx.event('found', len(want))
            if not want:
                ctx.event('nothing')
            if any(os.path.dirname(os.path.dirname(x)) != os.path.dirname(paths[main]) for x in want):
                ctx.event('from_other_file')
                ctx.shape(pat, files)
                ctx.sample({'pattern': pat, 'found': [os.path.relpath(x, base) for x in sorted(want)]})


CHECK = Check()
