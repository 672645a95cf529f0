"""C33 using the library leaves the process as it was"""
import atexit
import builtins
import collections
import enum
import decimal
import errno
import faulthandler
import functools
import gc
import glob
import hashlib
import io
import json
import locale
import logging
import os
import random
import re
import resource
import signal
import subprocess
import sys
import tempfile
import textwrap
import threading
import urllib.parse
import warnings
import weakref

import regex

from mon.core import REPO, VERIF, need, same


MODULES = [x.__name__ for x in (collections, enum, functools, glob, hashlib, json, os, os.path, textwrap, urllib.parse)]


def state():
    """everything of the process a library has no business with"""
    mask = os.umask(0o22)
    os.umask(mask)
    fds = {}
    for x in os.listdir('/proc/self/fd'):
        try:
            fds[x] = os.readlink('/proc/self/fd/' + x)
        except OSError:
            pass        # the one used for listing
    return {
        'working directory': os.getcwd(), 'environment': dict(os.environ), 'umask': mask, 'open files': fds, 'priority': os.getpriority(os.PRIO_PROCESS, 0),
        'import path': list(sys.path), 'import hooks': [repr(x) for x in sys.meta_path + sys.path_hooks], 'recursion limit': sys.getrecursionlimit(), 'switch interval': sys.getswitchinterval(),
        'digits limit': sys.get_int_max_str_digits(), 'random state': random.getstate(), 'signal handlers': {int(x): repr(signal.getsignal(x)) for x in signal.valid_signals()},
        'timers': [signal.getitimer(signal.ITIMER_REAL), signal.getitimer(signal.ITIMER_PROF)],
        'warning filters': [repr(x) for x in warnings.filters], 'warning hook': repr(warnings.showwarning), 'locale': locale.setlocale(locale.LC_ALL), 'threads': sorted(x.name for x in threading.enumerate()),
        'streams': [id(sys.stdout), id(sys.stderr), id(sys.stdin)], 'hooks': [repr(x) for x in (sys.excepthook, sys.displayhook, sys.unraisablehook, sys.gettrace(), sys.getprofile())],
        'garbage collection': [gc.isenabled(), gc.get_threshold(), gc.get_debug(), gc.get_freeze_count()], 'logging': [logging.root.level, logging.root.disabled, logging.root.manager.disable, [repr(x) for x in logging.root.handlers]],
        'limits': [resource.getrlimit(x) for x in (resource.RLIMIT_NOFILE, resource.RLIMIT_STACK, resource.RLIMIT_AS, resource.RLIMIT_CPU)], 'exit handlers': atexit._ncallbacks(),
        'builtins': {k: id(v) for k, v in vars(builtins).items() if k != '_'}, 'temporary directory': tempfile.tempdir, 'decimal context': repr(decimal.getcontext()), 'fault handler': faulthandler.is_enabled(),
        'processors': sorted(os.sched_getaffinity(0)), 'arguments': list(sys.argv), 'regular expressions': [regex.cache_all(None), regex.DEFAULT_VERSION, re._MAXCACHE, {k: id(v) for k, v in vars(regex).items() if callable(v)}, {k: id(v) for k, v in vars(re).items() if callable(v)}],
        'modules': {m: {k: id(v) for k, v in vars(sys.modules[m]).items() if callable(v)} for m in MODULES},
    }


def compare(what, now, before):
    for k, v in before.items():
        same('{} {}'.format(k, what), now[k], v)


def announced(w, adds):
    """files in the order in which their parsing begins"""
    res, seen, classes = [], set(), set()

    def go(rel, active):
        ext = os.path.splitext(rel)[1]
        if rel in classes or rel in active or (rel in seen and ext == '.bbappend'):
            return
        res.append(rel)
        seen.add(rel)
        if ext == '.bbclass':
            classes.add(rel)
        for s in w.stmts.get(rel, []):
            for t in getattr(s, 'targets', []):
                go(t, active + (rel,))
    for a in adds:
        go(a, ())
    return res


class Streams:
    """everything written to the two output streams, on whatever level"""

    def __enter__(self):
        sys.stdout.flush(), sys.stderr.flush()
        self.keep = [os.dup(1), os.dup(2)]
        self.files = [tempfile.TemporaryFile(), tempfile.TemporaryFile()]
        os.dup2(self.files[0].fileno(), 1)
        os.dup2(self.files[1].fileno(), 2)
        return self

    def __exit__(self, *_):
        sys.stdout.flush(), sys.stderr.flush()
        os.dup2(self.keep[0], 1)
        os.dup2(self.keep[1], 2)
        self.text = []
        for k, f in zip(self.keep, self.files):
            os.close(k)
            f.seek(0)
            self.text.append(f.read().decode('utf-8', 'replace'))
            f.close()


class Flaky:
    """files that cannot be opened, or not be read to the end"""

    def __init__(self, rng, root, ctx):
        self.rng, self.root, self.ctx = rng, root, ctx

    def __enter__(self):
        self.orig = (builtins.open, io.open)

        def fake(file, *args, **kw):
            res = self.orig[0](file, *args, **kw)
            if not (isinstance(file, (str, os.PathLike)) and os.fspath(file).startswith(self.root)) or self.rng.random() > .25:
                return res
            self.ctx.event('faults_injected')
            if self.rng.random() < .3:
                res.close()
                raise OSError(self.rng.choice([errno.EIO, errno.EACCES, errno.EMFILE]), 'injected')
            return Broken(res)

        builtins.open = fake
        return self

    def __exit__(self, *_):
        builtins.open = self.orig[0]


class Broken:
    """a file whose content cannot be read"""

    def __init__(self, f):
        self._f = f

    def __enter__(self):
        self._f.__enter__()
        return self

    def __exit__(self, *a):
        return self._f.__exit__(*a)

    def _fail(self, *_, **__):
        raise OSError(errno.EIO, 'injected')

    read = readline = readlines = __iter__ = __next__ = _fail

    def __getattr__(self, k):
        return getattr(self._f, k)


class Check:
    quick, thorough = 3000, 60000
    rule = ('Random layers are parsed, queried with every query and accessor and finalized, half of the stashes not being quiet, a fifth of the runs with files failing to open or to be read. Oracle: a picture of the process taken before and after '
            '(open files, working directory, environment, import path and hooks, recursion limit, signals, timers, random state, locale, warnings, threads, streams, limits, builtins, ...) is the same; both output streams are recorded on the level of file '
            'descriptors: a quiet stash writes nothing, others exactly one line per file in the order in which parsing begins, computed from the generated statements; a stash, its items and lists that are dropped are gone (weak references) once another stash '
            'exists; importing the package in a fresh process changes and prints nothing. Non-trivial: a run that parsed at least two files.')
    min_events = {'states_compared': 2000, 'announcements': 4000, 'quiet_runs': 1000, 'faults_injected': 300, 'stashes_released': 1500, 'imports': 3}

    def setup(self, ctx):
        # whatever is loaded or set lazily by others is now
        tempfile.gettempdir()
        from mon import gen, history, lab, world
        self.gen, self.history, self.lab, self.world = gen, history, lab, world

    def case(self, rng, ctx, i):
        if i % 700 == 3:
            return self.imports(ctx)
        gen, history, lab, world = self.gen, self.history, self.lab, self.world
        rich = history.rich_stmt(gen)
        inl = ['D = "${@oe.utils.read_file(\'${THISDIR}/files/y\')}"\n', 'E = "${@bb.utils.contains(\'A\', \'b\', \'c\', \'d\', d)}"\n', 'PACKAGES_DYNAMIC += "^((a)+)+$"\n', 'PACKAGES_DYNAMIC += "(["\n']
        w = world.build(rng, recipes=(1, 3), appends=(0, 2), incs=(0, 3), classes=(0, 3), cyclic=rng.random() < .3, size=(0, 4),
                        stmt=lambda r: gen.S(r.choice(inl), '?', {}) if r.random() < .1 else rich(r))
        w.write(ctx)
        history.layer_files(ctx, w)
        adds = world.order(rng, w)
        adds += [x for x in adds if rng.random() < .2]
        quiet = i % 2 == 0
        flaky = i % 5 == 4
        ctx.describe({'added': adds, 'files': w.describe(), 'quiet': quiet, 'faults': flaky})
        gone = []
        before = state()
        with Streams() as streams:
            if flaky:
                with Flaky(rng, w.root, ctx):
                    try:
                        self.run(rng, w, adds, quiet, gone)
                    except OSError:
                        ctx.event('faults_passed_on')
            else:
                self.run(rng, w, adds, quiet, gone)
            lab.stash()
        gc.collect()
        compare('after {} files'.format(len(adds)), state(), before)
        ctx.event('states_compared')
        same('text on the error stream', streams.text[1], '')
        if quiet:
            same('text printed by a quiet stash', streams.text[0], '')
            ctx.event('quiet_runs')
        elif not flaky:
            want = announced(w, adds)
            same('text printed', streams.text[0].splitlines(), ['Parsing ' + w.paths[x] for x in want])
            ctx.event('announcements', len(want))
        need(gone or flaky, 'nothing observed')
        for what, ref in gone:
            need(ref() is None, what, 'is kept alive although nobody uses it any more')
        ctx.event('stashes_released')
        if len(adds) > 1:
            ctx.shape(w.texts, adds, quiet, flaky)
        ctx.sample({'added': adds, 'printed': streams.text[0][:300]})

    def run(self, rng, w, adds, quiet, gone):
        s = self.lab.Stash(quiet=quiet, new_style_override_syntax=rng.random() < .3, negative_inline=rng.random() < .3)
        gone.append(('a stash', weakref.ref(s)))
        for a in adds:
            items = s.AddFile(w.paths[a])
            for x in items[:3]:
                gone.append(('an item', weakref.ref(x)))
            if rng.random() < .3:
                self.lab.poke(s, [w.paths[a]], rng)
        if rng.random() < .8:
            s.Finalize()
        self.lab.poke(s, [w.paths[x] for x in w.texts], rng)
        lst = s.GetItemsFor(classifier='Variable')
        lst.reduce(attribute='VarName', attributeValue='A')
        gone.append(('a list', weakref.ref(lst)))

    def imports(self, ctx):
        ctx.describe('import of the package in a fresh process')
        res = subprocess.run([sys.executable, '-B', '-m', 'mon.checks.c33', REPO], cwd=VERIF, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300, check=False)
        same('text on the error stream while importing', res.stderr.decode('utf-8', 'replace'), '')
        same('process after importing', json.loads(res.stdout.decode()), {'changed': {}, 'printed': ''})
        ctx.event('imports')


CHECK = Check()


def main():
    sys.path.insert(0, sys.argv[1])
    import regex  # noqa: F401  (not ours)
    import urllib.parse  # noqa: F401
    out = io.StringIO()
    before = state()
    keep, sys.stdout = sys.stdout, out
    import oelint_parser.cls_item  # noqa: F401
    import oelint_parser.cls_stash  # noqa: F401
    import oelint_parser.constants  # noqa: F401
    import oelint_parser.inlinerep  # noqa: F401
    import oelint_parser.parser  # noqa: F401
    import oelint_parser.rpl_regex  # noqa: F401
    sys.stdout = keep
    now = state()
    print(json.dumps({'changed': {k: [repr(v), repr(now[k])] for k, v in before.items() if now[k] != v}, 'printed': out.getvalue()}))


if __name__ == '__main__':
    main()
