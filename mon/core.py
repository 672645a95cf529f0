"""Runner: drives one property's workload over the real code, collects what the
monitors observed, decides the three-valued verdict and writes the evidence."""
import argparse
import collections
import hashlib
import importlib
import json
import multiprocessing
import os
import random
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.environ.get('VERIF_EVIDENCE') or os.path.join(VERIF, 'evidence')
REPLAYS = os.path.join(EVIDENCE, 'replays')
KNOWN = os.path.join(VERIF, 'known_findings.txt')

sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)

ASSUMPTIONS = [
    'The oracle observes only the executions driven here; nothing is claimed about inputs outside the generators described under rule.',
    'Files are UTF-8 text, are not modified while a stash exists, and layers live in a scratch directory.',
]


class Violation(Exception):
    """The monitor observed the property being broken."""


class CaseHang(BaseException):
    """A case used up its (generous) CPU budget."""


def need(cond, *detail):
    """Monitor assertion"""
    if not cond:
        raise Violation(' '.join(x if isinstance(x, str) else repr(x) for x in detail))


def same(what, got, want):
    """Monitor assertion on equality"""
    if got != want:
        raise Violation('{}: observed {!r}, the oracle says {!r}'.format(what, got, want))


class Ctx:
    """What one worker shares with its cases"""

    def __init__(self, prop, tier, seed, scratch):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.scratch = scratch
        self.events = collections.Counter()
        self.sigs = set()
        self.samples = []
        self.lines = collections.defaultdict(set)
        self.index = -1
        self.note = None
        self._n = 0

    # -- recording
    def event(self, name, n=1):
        self.events[name] += n

    def shape(self, *obj):
        """register the (non-trivial) case for the distinct count"""
        self.sigs.add(hashlib.sha1(repr(obj).encode()).digest()[:8])

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(obj)

    def describe(self, obj):
        """remember what the current case did, for the replay file"""
        self.note = obj

    # -- scratch files
    def newdir(self):
        self._n += 1
        path = os.path.join(self.scratch, 'd{}'.format(self._n))
        os.makedirs(path)
        return path

    def cleardirs(self):
        for x in os.listdir(self.scratch):
            path = os.path.join(self.scratch, x)
            if os.path.isdir(path) and not os.path.islink(path):
                shutil.rmtree(path, ignore_errors=True)

    def write(self, root, files):
        """write {relative name: content}, return {name: absolute path}"""
        res = {}
        for name, content in files.items():
            path = os.path.join(root, name)
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, 'w', encoding='utf-8', newline='') as out:
                out.write(content)
            res[name] = path
        return res


class LineMonitor:
    """Which lines of the code under test were executed (sys.monitoring)"""
    TOOL = 4

    def __init__(self, ctx):
        self.ctx = ctx
        self.root = os.path.join(REPO, 'oelint_parser') + os.sep

    def start(self):
        mon = getattr(sys, 'monitoring', None)
        if mon is None:
            return
        try:
            mon.use_tool_id(self.TOOL, 'verif')
        except ValueError:
            return
        mon.register_callback(self.TOOL, mon.events.LINE, self._line)
        mon.set_events(self.TOOL, mon.events.LINE)

    def _line(self, code, line):
        if code.co_filename.startswith(self.root):
            self.ctx.lines[code.co_filename[len(self.root):]].add(line)
        return sys.monitoring.DISABLE


def rng_for(seed, prop, i):
    return random.Random('{}:{}:{}'.format(seed, prop, i))


def load(prop):
    return importlib.import_module('mon.checks.{}'.format(prop.lower())).CHECK


def _hang(signum, frame):
    raise CaseHang()


def reset_constants():
    """Bring the process-wide constants back to what the package ships"""
    from oelint_parser.constants import CONSTANTS, Constants
    if not hasattr(reset_constants, 'base'):
        reset_constants.base = Constants()
    base = reset_constants.base
    CONSTANTS.OverrideConstants({'replacements': {
        'distros': list(base.DistrosKnown), 'machines': list(base.MachinesKnown)},
        'ignore': {'classes': list(base.ClassIgnore), 'include': list(base.IncludeIgnore)}})


def run_one(check, ctx, i):
    """Run one case, return None or a violation dict"""
    ctx.index = i
    ctx.note = None
    budget = getattr(check, 'case_cpu', 120)
    signal.signal(signal.SIGVTALRM, _hang)
    signal.setitimer(signal.ITIMER_VIRTUAL, budget)
    try:
        reset_constants()
        check.case(rng_for(ctx.seed, ctx.prop, i), ctx, i)
        return None
    except CaseHang:
        frames = [x for x in traceback.format_exc().splitlines() if x.strip()]
        return {'index': i, 'what': 'no answer within {} CPU seconds (bounded-progress monitor)'.format(budget),
                'detail': frames[-12:], 'case': ctx.note}
    except Violation as e:
        return {'index': i, 'what': str(e), 'detail': [], 'case': ctx.note}
    except KeyboardInterrupt:
        raise
    except Exception as e:
        if isinstance(e, OSError) and e.errno in (28, 24, 12):  # no space, files, memory
            raise
        frames = [x for x in traceback.format_exc().splitlines() if x.strip()]
        return {'index': i, 'what': 'unexpected {}: {}'.format(type(e).__name__, e),
                'detail': frames[-16:], 'case': ctx.note}
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def roomy():
    """memory backed place for the scratch files, if there is one with room"""
    try:
        s = os.statvfs('/dev/shm')
        if os.access('/dev/shm', os.W_OK) and s.f_bavail * s.f_frsize > 4 << 30:
            return '/dev/shm'
    except OSError:
        pass
    return None


def cpu_of(pid):
    """CPU seconds a process used so far"""
    try:
        with open('/proc/{}/stat'.format(pid)) as i:
            f = i.read().rpartition(')')[2].split()
        return (int(f[11]) + int(f[12])) / os.sysconf('SC_CLK_TCK')
    except (OSError, ValueError, IndexError):
        return 0


def worker(prop, tier, seed, wid, nworkers, total, wall, scratch, conn, current):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        check = load(prop)
        ctx = Ctx(prop, tier, seed, scratch)
        LineMonitor(ctx).start()
        if hasattr(check, 'setup'):
            check.setup(ctx)
        start = time.monotonic()
        done, bad, slowest = 0, None, (0, -1)
        for i in range(wid, total, nworkers):
            if time.monotonic() - start > wall:
                break
            current.value = i
            began = time.process_time()
            bad = run_one(check, ctx, i)
            slowest = max(slowest, (time.process_time() - began, i))
            done += 1
            if done % 25 == 0:
                ctx.cleardirs()
            if bad:
                break
        if hasattr(check, 'teardown'):
            check.teardown(ctx)
        conn.send({'done': done, 'bad': bad, 'events': ctx.events, 'sigs': ctx.sigs,
                   'samples': ctx.samples, 'lines': dict(ctx.lines), 'slowest': slowest})
    except BaseException:
        conn.send({'error': traceback.format_exc()})
    finally:
        conn.close()


def jsonable(obj):
    try:
        json.dumps(obj)
        return obj
    except (TypeError, ValueError):
        return repr(obj)[:20000]


def known_entries(prop):
    """mechanism keys listed for this property in the committed known-findings file"""
    res = {}
    try:
        with open(KNOWN) as i:
            for line in i:
                line = line.strip()
                if line.startswith('known: property={} '.format(prop)):
                    rest = line.split(' ', 2)[2]
                    key, _, text = rest.partition(' ')
                    res[key] = text
    except OSError:
        pass
    return res


def write_evidence(prop, tier, seed, check, merged, wall, violations):
    os.makedirs(EVIDENCE, exist_ok=True)
    lines = {k: len(v) for k, v in sorted(merged['lines'].items())}
    cov = {
        'evaluations': merged['done'],
        'distinct_nontrivial': len(merged['sigs']),
        'rule': check.rule,
        'samples': [jsonable(x) for x in merged['samples'][:3]] or ['(none)'],
        'monitor_events': dict(sorted(merged['events'].items())),
        'lines_of_code_under_test_executed': lines,
        'slowest_case': {'index': merged['slowest'][1], 'cpu_s': round(merged['slowest'][0], 1)},
    }
    if merged.get('known'):
        cov['known_findings_reproduced'] = merged['known']
    data = {'property': prop, 'tier': tier, 'seed': seed, 'level': getattr(check, 'level', 'exploration'),
            'coverage': cov, 'assumptions': ASSUMPTIONS + list(getattr(check, 'assumptions', [])),
            'wall_s': round(wall, 2), 'violations': violations}
    tmp = os.path.join(EVIDENCE, '.{}.tmp'.format(prop))
    with open(tmp, 'w') as out:
        json.dump(data, out, indent=1, ensure_ascii=True)
        out.write('\n')
    os.replace(tmp, os.path.join(EVIDENCE, '{}.json'.format(prop)))


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('VERIF_JOBS', '8')))
    ap.add_argument('--n', type=int)
    args = ap.parse_args(argv)
    prop = args.prop.upper()
    begin = time.monotonic()

    import oelint_parser.cls_stash
    where = os.path.realpath(oelint_parser.cls_stash.__file__)
    if not where.startswith(os.path.realpath(REPO) + os.sep):
        print('inconclusive: code under test was loaded from {}'.format(where))
        return 3
    check = load(prop)

    base = tempfile.mkdtemp(prefix='verif-{}-'.format(prop), dir=roomy())
    try:
        if args.replay:
            with open(args.replay) as i:
                rep = json.load(i)
            ctx = Ctx(prop, rep['tier'], rep['seed'], base)
            if hasattr(check, 'setup'):
                check.setup(ctx)
            bad = run_one(check, ctx, rep['index'])
            print(json.dumps(jsonable(bad), indent=1))
            print('reproduced' if bad else 'not reproduced')
            return 1 if bad else 0

        total = args.n or (check.quick if args.tier == 'quick' else check.thorough)
        wall = 300 if args.tier == 'quick' else getattr(check, 'thorough_wall', 400)
        jobs = max(1, min(args.jobs, total))
        mp = multiprocessing.get_context('fork')
        procs = []
        for w in range(jobs):
            scratch = os.path.join(base, 'w{}'.format(w))
            os.makedirs(scratch)
            rd, wr = mp.Pipe(False)
            current = mp.Value('q', -1)
            p = mp.Process(target=worker, args=(prop, args.tier, args.seed, w, jobs, total, wall, scratch, wr, current))
            p.start()
            wr.close()
            procs.append((p, rd, current))
        merged = {'done': 0, 'events': collections.Counter(), 'sigs': set(), 'samples': [],
                  'lines': collections.defaultdict(set), 'slowest': (0, -1)}
        bads, errors = [], []
        deadline = time.monotonic() + wall + 240
        for p, rd, current in procs:
            msg = None
            try:
                if rd.poll(max(1, deadline - time.monotonic())):
                    msg = rd.recv()
            except EOFError:
                pass
            if msg is None:
                if p.is_alive() and cpu_of(p.pid) > wall + 150:
                    # stuck where not even the signal of the progress monitor gets through
                    bads.append({'index': current.value, 'what': 'no answer within {} CPU seconds (bounded-progress monitor)'.format(wall + 150), 'detail': [], 'case': None})
                errors.append('worker gave no result')
                p.kill()
            elif 'error' in msg:
                errors.append(msg['error'])
            else:
                merged['done'] += msg['done']
                merged['events'].update(msg['events'])
                merged['sigs'] |= msg['sigs']
                merged['samples'] += msg['samples']
                merged['slowest'] = max(merged['slowest'], msg['slowest'])
                for k, v in msg['lines'].items():
                    merged['lines'][k] |= v
                if msg['bad']:
                    bads.append(msg['bad'])
            p.join(5)
            if p.is_alive():
                p.kill()

        # known findings: fixed probes keyed by mechanism
        known = known_entries(prop)
        merged['known'] = []
        if hasattr(check, 'probes'):
            ctx = Ctx(prop, args.tier, args.seed, os.path.join(base, 'probe'))
            os.makedirs(ctx.scratch)
            for key, probe in check.probes.items():
                reset_constants()
                out = probe(ctx)          # None: holds, else description of what fails
                if out is None:
                    continue
                if key in known:
                    print('KNOWN-FINDING: property={} {}: {}'.format(prop, key, out))
                    merged['known'].append(key)
                else:
                    bads.append({'index': -1, 'what': 'probe {}: {}'.format(key, out), 'detail': [], 'case': key})

        bads.sort(key=lambda x: x['index'])
        took = time.monotonic() - begin
        write_evidence(prop, args.tier, args.seed, check, merged, took, len(bads))
        print('{} {} seed={} cases={} distinct={} events={} wall={:.1f}s'.format(
            prop, args.tier, args.seed, merged['done'], len(merged['sigs']),
            sum(merged['events'].values()), took))
        if bads:
            os.makedirs(REPLAYS, exist_ok=True)
            for n, bad in enumerate(bads[:3]):
                path = os.path.join(REPLAYS, '{}-{}-{}-{}.json'.format(prop, args.tier, args.seed, bad['index']))
                with open(path, 'w') as out:
                    json.dump({'property': prop, 'tier': args.tier, 'seed': args.seed, 'index': bad['index'],
                               'what': bad['what'], 'detail': bad['detail'], 'case': jsonable(bad['case'])}, out, indent=1)
                if n == 0:
                    print(bad['what'][:2000])
                    for x in bad['detail']:
                        print('   ' + x[:300])
                    print('VIOLATION property={} replay={}'.format(prop, path))
            return 1
        if errors:
            print('inconclusive: {}'.format(errors[0]))
            return 3
        for name, low in getattr(check, 'min_events', {}).items():
            if merged['events'][name] < low:
                print('inconclusive: monitor "{}" fired {} times, {} needed'.format(name, merged['events'][name], low))
                return 3
        return 0
    finally:
        shutil.rmtree(base, ignore_errors=True)
