"""C35 stashes used by several threads do not disturb each other"""
import hashlib
import os
import sys
import threading
import time

from mon import gen, history, lab, world
from mon.checks.c19 import CHECK as C19
from mon.core import REPO, need, same


class Scheduler:
    """watches the lines of the library executed by the threads and perturbs their order"""
    TOOL = 5

    def __init__(self, rng, rate):
        self.root = os.path.join(REPO, 'oelint_parser') + os.sep
        self.rng, self.rate = rng, rate
        self.last, self.switches, self.trail = None, 0, hashlib.sha1()

    def __enter__(self):
        self.interval = sys.getswitchinterval()
        sys.setswitchinterval(2e-6 if self.rate else 1e-5)
        mon = sys.monitoring
        mon.use_tool_id(self.TOOL, 'verif-threads')
        mon.register_callback(self.TOOL, mon.events.LINE, self._line)
        mon.set_events(self.TOOL, mon.events.LINE)
        return self

    def __exit__(self, *_):
        mon = sys.monitoring
        mon.set_events(self.TOOL, 0)
        mon.register_callback(self.TOOL, mon.events.LINE, None)
        mon.free_tool_id(self.TOOL)
        sys.setswitchinterval(self.interval)

    def _line(self, code, line):
        if not code.co_filename.startswith(self.root):
            return sys.monitoring.DISABLE
        me = threading.get_ident()
        if me != self.last:
            self.last = me
            self.switches += 1
            self.trail.update('{}:{};'.format(code.co_name, line).encode())
        if self.rng.random() < self.rate:
            time.sleep(0)
        return None


class Check:
    quick, thorough = 700, 25000
    case_cpu = 120
    rule = ('Two to four threads each fill, query and finalize a stash of their own over a layer of their own, at the same time, from a common start; the interpreter is made to switch threads every few microseconds and to give up the processor at random '
            'lines of the library (sys.monitoring). Oracle: every single answer is the one the same calls give on that stash alone. Evidence: switches between threads seen inside of the library, distinct orders of them. Non-trivial: a run with at least 20 '
            'switches inside of the library.')
    min_events = {'answers_compared': 5000, 'thread_switches': 20000, 'parallel_runs': 600}

    def case(self, rng, ctx, i):
        worlds = []
        for _ in range(rng.randint(2, 4)):
            if rng.random() < .5:
                worlds.append(C19.build(rng, ctx))
            else:
                w = world.build(rng, recipes=(1, 2), appends=(0, 1), incs=(0, 2), classes=(0, 2), size=(0, 6), stmt=lambda r: gen.statement(r, style), names=['foo', 'bar']) if (style := rng.choice(['new', 'old'])) else None
                w.write(ctx)
                worlds.append((w, world.order(rng, w)))
        opts = [{'new_style_override_syntax': rng.random() < .5, 'negative_inline': rng.random() < .5} for _ in worlds]
        ctx.describe([{'added': a, 'files': w.describe(), 'settings': o} for (w, a), o in zip(worlds, opts)])
        plans = []
        for w, adds in worlds:
            files = w.recipes * 2 + w.appends + sorted(w.texts)
            p = []
            for a in adds:
                p.append(('add', a))
                for _ in range(rng.randint(0, 2)):
                    p.append(('ask', history.random_query(rng, files)))
            p.append(('finalize',))
            for _ in range(5):
                p.append(('ask', history.random_query(rng, files)))
            plans.append(p)

        def play(w, p, o, answers):
            s = lab.stash(**o)
            for op in p:
                if op[0] == 'add':
                    answers.append(history.norm(s.AddFile(w.paths[op[1]])))
                elif op[0] == 'finalize':
                    answers.append(s.Finalize())
                else:
                    answers.append(history.ask(s, op[1], w.paths))
        want = []
        for (w, _), p, o in zip(worlds, plans, opts):
            want.append([])
            play(w, p, o, want[-1])
        got = [[] for _ in worlds]
        fails = []
        start = threading.Barrier(len(worlds))

        def body(k):
            try:
                start.wait()
                play(worlds[k][0], plans[k], opts[k], got[k])
            except BaseException as e:
                fails.append((k, plans[k][len(got[k])], e))
        with Scheduler(rng, rng.choice([0, .001, .01, .05])) as sched:
            threads = [threading.Thread(target=body, args=(k,), daemon=True) for k in range(len(worlds))]
            for t in threads:
                t.start()
            for t in threads:
                t.join()
        for k, op, e in fails:
            need(False, 'thread {} of {}, {}: {}: {}'.format(k, len(worlds), op, type(e).__name__, e))
        for k, p in enumerate(plans):
            same('number of answers', len(got[k]), len(p))
            for op, a, b in zip(p, got[k], want[k]):
                same('{} in thread {} of {}'.format(op, k, len(worlds)), a, b)
                ctx.event('answers_compared')
        ctx.event('parallel_runs')
        ctx.event('thread_switches', sched.switches)
        if sched.switches >= 20:
            ctx.shape(sched.trail.hexdigest())
        ctx.sample({'threads': len(worlds), 'switches': sched.switches})


CHECK = Check()
