"""C25 regular expressions are guarded against runaway matching"""
import dis
import gc
import inspect
import os
import sys
import time
import types

import regex
from mon import gen, history, lab, world
from mon.core import REPO, need, same

from oelint_parser.rpl_regex import RegexRpl

FUNCS = ['search', 'split', 'match', 'sub', 'finditer']
PARTS = ['a', 'b', '\\w', '\\s', '.', '[ab]', '[^a]', '(a)', '(?P<n>b)', '(a|b)', '\\d', '^', '$', '\\b', 'a*', 'b+?', '(?:ab)', '.*', '\\.', 'x{2}', '[A-Z]', '(?=a)', '\\n', '=']
TEXT = ['a', 'b', 'ab', 'A', 'x', 'xx', ' ', '\n', '1', '.', '=', 'é', '_', 'ba', '']
RUNAWAY = [('(a|aa)+$', 'a' * 60 + 'b'), ('^(a|aa|aaa)+$', 'a' * 60 + '\n\nb')]


def outcome(f, *a, **kw):
    try:
        return ('value', picture(f(*a, **kw)))
    except Exception as e:
        return ('error', type(e).__name__)


def picture(v):
    if hasattr(v, 'span'):
        return ('match', v.span(), v.groups(), v.groupdict(), v.group(0))
    if v is None or isinstance(v, str):
        return v
    return [picture(x) for x in v]


class Calls:
    """watches every call the code under test makes into a regular expression library"""
    TOOL = 3
    METHODS = {'search', 'match', 'fullmatch', 'split', 'splititer', 'sub', 'subn', 'subf', 'subfn', 'findall', 'finditer'}

    def __init__(self, ctx):
        self.ctx = ctx
        self.bad = set()
        self.cache = {}
        mon = sys.monitoring
        mon.use_tool_id(self.TOOL, 'verif-calls')
        mon.register_callback(self.TOOL, mon.events.CALL, self.call)
        root = os.path.join(REPO, 'oelint_parser') + os.sep
        todo = [x.__code__ for x in gc.get_objects() if isinstance(x, types.FunctionType) and x.__code__.co_filename.startswith(root)]
        seen = set()
        while todo:
            c = todo.pop()
            if c in seen:
                continue
            seen.add(c)
            mon.set_local_events(self.TOOL, c, mon.events.CALL)
            todo += [x for x in c.co_consts if isinstance(x, types.CodeType)]
        ctx.event('functions_watched', len(seen))

    def call(self, code, offset, func, arg0):
        key = (code, offset)
        name = getattr(func, '__name__', None)
        if name not in self.METHODS:
            return sys.monitoring.DISABLE
        owner = getattr(func, '__self__', None)
        lib = None
        if owner is not None and type(owner).__name__ == 'Pattern':
            lib = type(owner).__module__
        elif isinstance(func, types.FunctionType) and (func.__module__ or '').split('.')[0] in ('regex', 're'):
            lib = func.__module__
        elif type(func).__name__ == 'method_descriptor' and getattr(func, '__objclass__', type).__name__ == 'Pattern':
            lib = func.__objclass__.__module__
        if lib is None:
            return None
        if key not in self.cache:
            self.cache[key] = self.guarded(code, offset, lib)
        self.ctx.event('library_call_sites')
        if not self.cache[key]:
            self.bad.add('{}:{} calls {}.{} without time limit'.format(os.path.basename(code.co_filename), code.co_name, lib, name))
        return sys.monitoring.DISABLE

    @staticmethod
    def guarded(code, offset, lib):
        """does the call at this place hand over a time limit"""
        if lib.split('.')[0] in ('re', '_sre'):
            return False
        kw = None
        for x in dis.get_instructions(code):
            if x.opname == 'KW_NAMES':
                kw = code.co_consts[x.arg]
            if x.offset == offset:
                if x.opname == 'CALL_FUNCTION_EX':
                    return True
                return bool(kw) and 'timeout' in kw
            if x.opname == 'CALL':
                kw = None
        return True


class Check:
    quick, thorough = 1920, 60000
    case_cpu = 120
    rule = ('A: random patterns (plain and compiled), texts, flags, counts: result or error equals the one of the regular expression library. B: patterns that run away, with short, default and absent limits and marked defaults: '
            'the default comes back in time. C: every call of the code under test into a regular expression library during parsing and querying is observed at the call site and must hand over a limit. D: a time-out is injected at a random '
            'guarded call while layers are parsed and queried; nothing may raise. Non-trivial: a pattern that matches something, or an injected time-out.')
    min_events = {'same_as_library': 8000, 'timeouts': 100, 'empty_defaults': 40, 'timeouts_default_limit': 5, 'library_call_sites': 20, 'injected': 300}

    def setup(self, ctx):
        self.calls = Calls(ctx)
        self.real = {f: inspect.getattr_static(RegexRpl, f) for f in FUNCS}

    def case(self, rng, ctx, i):
        if i < 5:
            self.default_limit(ctx, FUNCS[i])
        kind = (i // 8) % 20      # i % 8 is the worker
        (self.runaway if kind == 0 else self.library if kind < 8 else self.observe if kind < 10 else self.inject)(rng, ctx)
        need(not self.calls.bad, 'unguarded:', sorted(self.calls.bad))

    def library(self, rng, ctx):
        for _ in range(12):
            p = ''.join(rng.choice(PARTS) for _ in range(rng.randint(1, 5)))
            if rng.random() < .05:
                p += rng.choice(['(', '[', '*', '\\'])
            if p.count('(?P<n>') > 1:
                continue
            t = ''.join(rng.choice(TEXT) for _ in range(rng.randint(0, 12)))
            fl = 0
            for x in (regex.IGNORECASE, regex.MULTILINE, regex.DOTALL, regex.VERBOSE):
                if rng.random() < .2:
                    fl |= x
            pat = p
            if rng.random() < .3:
                try:
                    pat = regex.compile(p, fl)
                    fl = 0
                except regex.error:
                    pat = p
            ctx.describe({'pattern': p, 'text': t, 'flags': int(fl)})
            for f in FUNCS:
                kw = {'flags': fl} if fl or rng.random() < .2 else {}
                args = [pat, t]
                if f == 'sub':
                    args = [pat, rng.choice(['', 'Z', '<\\g<0>>', '\\1']), t]
                    if rng.random() < .3:
                        kw['count'] = rng.randint(0, 2)
                if f == 'split' and rng.random() < .3:
                    kw['maxsplit'] = rng.randint(0, 2)
                if f in ('search', 'match', 'finditer') and rng.random() < .2:
                    kw['pos'] = rng.randint(0, 3)
                if rng.random() < .1:
                    kw['concurrent'] = rng.choice([True, False])
                if f in ('search', 'match') and rng.random() < .1:
                    kw['partial'] = True
                if f == 'sub' and rng.random() < .1:
                    kw['pos'] = rng.randint(0, 3)
                mine = dict(kw)
                if rng.random() < .3:
                    mine['default'] = rng.choice([None, 'default', ['default']])
                if rng.random() < .2:
                    mine['timeout'] = 30
                want = outcome(getattr(regex, f), *args, **kw)
                got = outcome(getattr(RegexRpl, f), *args, **mine)
                same('{}({}, {})'.format(f, args, mine), got, want)
                ctx.event('same_as_library')
                if want[0] == 'value' and want[1] and want[1] != t and want[1] != [t]:
                    ctx.shape(f, p, t, int(fl))
        ctx.sample({'pattern': p, 'text': t})

    def runaway(self, rng, ctx):
        p, t = rng.choice(RUNAWAY)
        pat = regex.compile(p) if rng.random() < .5 else p
        limit = rng.choice([.01, .02, .05])
        mark = rng.choice(['marked', ['marked'], ('m',)])
        for f in FUNCS:
            args = [pat, '', t] if f == 'sub' else [pat, t]
            ctx.describe({'function': f, 'pattern': p, 'limit': limit})
            more = {}
            if rng.random() < .6:
                more['flags'] = 0
            if f == 'sub' and rng.random() < .6:
                more['count'] = rng.randint(0, 3)
            if f == 'split' and rng.random() < .6:
                more['maxsplit'] = rng.randint(0, 3)
            if f in ('search', 'match', 'finditer') and p[0] != '^' and rng.random() < .4:
                more['pos'] = rng.randint(0, 3)
            start = time.process_time()
            res = getattr(RegexRpl, f)(*args, timeout=limit, default=mark, **more)
            took = time.process_time() - start
            if f == 'finditer' and hasattr(res, '__next__'):
                res = type(mark)(res)
            same('{} on time-out'.format(f), res, mark)
            need(took < 20, f, 'took', took, 'seconds with a limit of', limit)
            res = getattr(RegexRpl, f)(*args, timeout=limit, **more)
            if f == 'finditer':
                res = list(res)
            same('{} on time-out without default'.format(f), res, {'search': None, 'match': None, 'split': [], 'sub': '', 'finditer': []}[f])
            ctx.event('timeouts', 2)
            if f != 'split':        # which has no use for an empty one
                none = rng.choice(['', 0, False, [], ()] if f in ('search', 'match') else ['', None] if f == 'sub' else ['', [], ()])
                res = getattr(RegexRpl, f)(*args, timeout=limit, default=none, **more)
                if f == 'finditer':
                    res, none = list(res), []
                same('{} on time-out with an empty default'.format(f), res, none)
                ctx.event('empty_defaults')

    def default_limit(self, ctx, f):
        p, t = RUNAWAY[0]
        ctx.describe({'function': f, 'pattern': p, 'limit': 'default'})
        res = getattr(RegexRpl, f)(*([p, '', t] if f == 'sub' else [p, t]))
        if f == 'finditer':
            res = list(res)
        need(not res, f, 'without limit returned', res)
        ctx.event('timeouts_default_limit')

    def layer(self, rng, ctx):
        w = world.build(rng, recipes=(1, 2), appends=(0, 2), incs=(0, 2), classes=(0, 2), size=(1, 6), names=['foo', 'bar', 'foo-native'], stmt=rng.choice([history.rich_stmt(gen), lambda r: gen.statement(r, 'new')]))
        w.write(ctx)
        history.layer_files(ctx, w)
        return w, world.order(rng, w)

    def work(self, rng, w, adds):
        s = lab.stash(new_style_override_syntax=rng.random() < .5)
        for a in adds:
            s.AddFile(w.paths[a])
        s.Finalize()
        lab.poke(s, [w.paths[x] for x in w.recipes + w.appends], rng)

    def observe(self, rng, ctx):
        w, adds = self.layer(rng, ctx)
        ctx.describe({'added': adds, 'files': w.describe()})
        self.work(rng, w, adds)

    def inject(self, rng, ctx):
        w, adds = self.layer(rng, ctx)
        total = self.counted(rng, w, adds, None)
        for _ in range(2):
            hits = {rng.randrange(total) for _ in range(rng.choice([1, 1, 2, 5]))}
            ctx.describe({'added': adds, 'files': w.describe(), 'time-outs at calls': sorted(hits)})
            self.counted(rng, w, adds, hits)
            ctx.event('injected', len(hits))
            ctx.shape(w.texts, sorted(hits))

    def counted(self, rng, w, adds, hits):
        n = [0]

        def wrap(name, func):
            sig = inspect.signature(func)

            def _wrapped(*a, **kw):
                n[0] += 1
                if hits and n[0] - 1 in hits:
                    b = sig.bind(*a, **kw)
                    b.apply_defaults()
                    d = b.arguments.get('default')
                    return d or [] if name == 'split' else d
                return func(*a, **kw)
            return staticmethod(_wrapped)
        state = rng.getstate()
        try:
            for f in FUNCS:
                setattr(RegexRpl, f, wrap(f, self.real[f].__func__))
            self.work(rng, w, adds)
        finally:
            for f in FUNCS:
                setattr(RegexRpl, f, self.real[f])
        if hits is None:
            rng.setstate(state)
        return max(1, n[0])


CHECK = Check()
