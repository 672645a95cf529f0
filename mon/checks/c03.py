"""C03 total on any input: bounded-progress and exception monitor"""
import builtins
import errno
import io
import os

from mon import gen, lab, world


class Faults:
    """opening the given files fails"""

    def __init__(self, bad):
        self.bad, self.hits = bad, 0

    def __enter__(self):
        self.real = builtins.open
        builtins.open = io.open = self.open
        return self

    def __exit__(self, *_):
        builtins.open = io.open = self.real

    def open(self, file, *args, **kw):
        if self.bad and isinstance(file, (str, os.PathLike)):
            no = self.bad.get(os.path.realpath(file))
            if no:
                self.hits += 1
                raise OSError(no, os.strerror(no), file)
        return self.real(file, *args, **kw)


def probe_nesting(ctx):
    root = ctx.newdir()
    n = 1500
    files = {'{}.inc'.format(k): 'require {}.inc\n'.format(k + 1) for k in range(n)}
    files['a_1.bb'] = 'require 0.inc\n'
    p = ctx.write(root, files)
    s = lab.stash()
    try:
        s.AddFile(p['a_1.bb'])
    except RecursionError:
        return 'includes nested {} deep raise RecursionError'.format(n)
    return None


ATOMS = ['{', '}', '{}', '(', ')', '[', '"', "'", '\\', ' ', '\t', ',', '${', '${@', '${A}', '${@x}', '_', ':', '-', ':a', '_append', ';', ';a=b', '=', '#', '.', '/', '../', '%', 'a', 'A', 'a ', 'a,', '"a",', '(a', '\n', ' \\\n', '\\\n', '\x1b', 'd.getVar(', 'd.getVar("A") ',
         'bb.utils.contains(', 'bb.utils.contains("A", "b", "c", ', 'before ', 'after a ', '|', '!!!inlineblock!!!', '$', '@', '+', '[a]', '\u2028']
AROUND = [('A = "', '"\n'), ('A = "${@', '}"\n'), ('A', ' = "1"\n'), ('do_x() {\n', '\n}\n'), ('inherit ', '\n'), ('include ', '\n'), ('addtask a ', '\n'), ('A[', '] = "1"\n'), ('A[b] = ', '\n'), ('export A = "', '"\n'), ('export ', '\n'), ('python do_', '() {\n}\n'),
          ('def x(', '):\n    pass\n'), ('', '\n'), ('unset ', '\n'), ('SRC_URI = "git://', '"\n'), ('PACKAGES_DYNAMIC = "', '"\n'), ('PACKAGES = "', '"\n'), ('A = "${@bb.utils.contains(', ')}"\n'), ('A = "${@oe.utils.conditional(\'A\', \'b\', ', ', d)}"\n'), ('# ', '\n'),
          ('deltask ', '\n'), ('EXPORT_FUNCTIONS ', '\n'), ('INHERIT = "', '"\n'), ('addpylib ${LAYERDIR}/', ' x\n'), ('A = "${@oe.utils.read_file(', ')}"\n')]


NOFILES = ['${@oe.utils.read_file("a\0b")}', '${@oe.utils.read_file("%s")}' % ('n' * 300), '${@oe.utils.read_file("/")}', '${@oe.utils.read_file()}', '${@oe.utils.read_file("")}']


class Check:
    quick, thorough = 7200, 60000
    case_cpu = 90
    rule = ('Hostile files: token soup, mutated metadata, truncations, garbage characters, include/inherit graphs that are circular, dangling, pointing at directories '
            'or at themselves, missing or empty files, directories and over-long names given as file, files whose opening fails with any error of the system, bytes which are no UTF-8; all constructor flags; then Finalize (twice) and every query and item accessor. Monitor: no call may raise, and each case has to '
            'finish within 90 CPU seconds (typical: 5 ms). Non-trivial: the stash holds items of at least 2 kinds.')
    probes = {'nesting': probe_nesting}
    min_events = {'calls': 20000, 'faults': 300, 'undecodable': 200, 'odd_paths': 300, 'runs': 250, 'empty': 300}

    def case(self, rng, ctx, i):
        kind = i % 3
        if i % 12 == 5:
            # one and the same again and again
            a, b = rng.choice(AROUND)
            files = {'foo_1.0.bb': a + rng.choice(ATOMS) * rng.choice([30, 300, 1200, 2500]) + rng.choice(['', '', 'x', rng.choice(ATOMS)]) + b}
            todo = list(files)
            ctx.event('runs')
        elif kind == 0:
            files = {}
            n = rng.randint(1, 4)
            names = ['foo_1.0.bb', 'foo_%.bbappend', 'x.inc', 'a.bbclass', 'conf/layer.conf', 'classes/foo.bbclass', 'classes/a.bbclass', 'y.conf', 'b.bb', 'foo.bbappend', '_.bb', '%.bbappend', 'a_b_c.bb', '(.bbappend', '.bb', 'noext', 'x.inc.bb']
            for _ in range(n):
                files[rng.choice(names)] = gen.soup(rng)
            for k in list(files):
                if rng.random() < .5:
                    files[k] += rng.choice(['include ', 'require ', 'inherit ']) + rng.choice(['x.inc', 'foo', 'a', os.path.basename(k), 'conf', '.', '..', '/', '/dev/null', 'classes', '${PN}.inc', 'foo_1.0.bb']) + '\n'
            todo = list(files)
        elif kind == 1:
            w = world.build(rng, cyclic=True, size=(0, 6), stmt=lambda r: gen.statement(r, r.choice(['new', 'old'])))
            files = {k: gen.mutate(rng, v) if rng.random() < .6 else v for k, v in w.texts.items()}
            todo = list(files)
        else:
            text, _ = gen.compose(rng, [gen.statement(rng, rng.choice(['new', 'old'])) for _ in range(rng.randint(1, 15))])
            cut = rng.randint(0, len(text))
            files = {'foo_1.0.bb': text[:cut], 'x.inc': gen.soup(rng, 1, 5) + text[cut:]}
            todo = list(files)
        rng.shuffle(todo)
        ctx.describe({'files': files, 'order': todo})
        root = ctx.newdir()
        paths = ctx.write(root, files)
        if rng.random() < .15:
            # bytes that are no UTF-8
            x = rng.choice(todo)
            with open(paths[x], 'wb') as out:
                out.write(files[x].encode(rng.choice(['latin-1', 'utf-16', 'cp1252']), errors='replace').replace(b'e', rng.choice([b'\xe9', b'\xff\xfe', b'\xc3', b'\xed\xa0\x80', b'e'])))
            ctx.event('undecodable')
        s = lab.stash(new_style_override_syntax=rng.random() < .5, negative_inline=rng.random() < .5)
        if rng.random() < .1:
            # nothing there yet
            if rng.random() < .3:
                s.Finalize()
            ctx.event('calls', lab.poke(s, list(paths.values()) + [os.path.join(root, 'nosuch_1.bb')], rng, NOFILES))
            ctx.event('empty')
        bad = {}
        if rng.random() < .25:
            # files which can not be opened or read
            for x in rng.sample(todo, rng.randint(1, len(todo))):
                if rng.random() < .4:
                    # a link that leads nowhere or to itself, a directory
                    os.unlink(paths[x])
                    if rng.random() < .3:
                        os.mkdir(paths[x])
                    else:
                        os.symlink(rng.choice([os.path.basename(paths[x]), 'gone', '/nonexistent/x']), paths[x])
                    ctx.event('faults')
                    continue
                bad[os.path.realpath(paths[x])] = rng.choice([errno.EACCES, errno.EIO, errno.EMFILE, errno.ENOENT, errno.ELOOP, errno.ESTALE])
        with Faults(bad) as faults:
            self.run(rng, ctx, s, todo, paths, root, files)
        ctx.event('faults', faults.hits)

    def run(self, rng, ctx, s, todo, paths, root, files):
        for x in todo:
            s.AddFile(paths[x])
            if rng.random() < .15:
                odd = rng.choice([os.path.join(root, 'does-not-exist.bb'), root, os.path.dirname(paths[x]), os.path.join(root, 'n' * 300 + '_1.bb'), paths[x] + '/x.bb', os.path.join(root, 'r', '..', 'gone_1.0.bb'), ''])
                s.AddFile(odd)
                ctx.event('odd_paths')
            if rng.random() < .1:
                s.AddFile(paths[x], lineOffset=5, forcedLink=paths[todo[0]])
        if rng.random() < .8:
            s.Finalize()
            s.Finalize()
        n = lab.poke(s, paths.values(), rng, NOFILES)
        ctx.event('calls', n)
        kinds = {type(x).__name__ for x in s.GetItemsFor()}
        for k in kinds:
            ctx.event('kind_' + k)
        if len(kinds) > 1:
            ctx.shape(files)
            ctx.sample({'files': {k: v[:120] for k, v in files.items()}})


CHECK = Check()
