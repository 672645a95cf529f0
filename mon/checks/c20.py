"""C20 the result is a function of the input"""
import json
import os
import re
import subprocess
import sys

from mon import core, gen, history, world
from mon.core import need, same


class Check:
    quick, thorough = 48, 1500
    case_cpu = 200
    rule = ('Batches of 12 random layers with random questions are run in separate interpreter processes with different hash seeds, working directories, locales, environment variables, time zones and orders of the batch; the complete transcripts '
            '(items, their text form, answers in order, fingerprints after every file) must be identical. Non-trivial: every layer.')
    min_events = {'processes': 60, 'entries_compared': 10000, 'environment_variables': 500}

    def case(self, rng, ctx, i):
        spec = []
        mentioned = {'MACHINE', 'DISTRO', 'TOPDIR', 'LAYERDIR', 'BBPATH', 'WORKDIR', 'DEBUG', 'OELINT_DEBUG', 'USER', 'COLUMNS'}
        for _ in range(12):
            w = world.build(rng, recipes=(1, 3), appends=(0, 3), incs=(0, 4), classes=(0, 4), cyclic=rng.random() < .2, stmt=history.rich_stmt(gen))
            for t in w.texts.values():
                mentioned.update(re.findall(r'[A-Za-z_]\w*', ' '.join(re.findall(r'\$\{?\w+|^\w+', t, re.M))))
            w.write(ctx)
            history.layer_files(ctx, w)
            ctx.write(w.root, {'conf/{}.conf'.format(x): 'A = "{}"\n'.format(x) for x in ('a', 'b', 'c', 'd')})
            for x in 'abcd':
                w.paths['conf/{}.conf'.format(x)] = os.path.join(w.root, 'conf', x + '.conf')
            ctx.write(w.root, {os.path.dirname(r) + '/text.txt': 'größe 漢字 \u00a0é\n' for r in w.recipes[:1]})
            adds = world.order(rng, w, extra=['conf/{}.conf'.format(x) for x in 'abcd'])
            files = w.recipes * 3 + w.appends + sorted(w.texts)
            qs = [history.random_query(rng, files) for _ in range(10)] + [(n, [], {}) for n in ('GetRecipes', 'GetLoneAppends', 'GetConfFiles', 'GetBBClasses')]
            for r in w.recipes:
                qs += [('GetLinksForFile', [('file', r)], {}), ('ExpandVar', [], {'filename': ('file', r)}), ('GetValidPackageNames', [('file', r)], {}), ('GetItemsFor', [], {'filename': ('file', r)}),
                       ('GetFiles', [('file', r), '*'], {}), ('GetValidNamedResources', [('file', r)], {}),
                       ('ExpandTerm', [('file', r), '${PN} ${@oe.utils.read_file(\'${THISDIR}/text.txt\')}'], {})]
            spec.append({'kw': {'new_style_override_syntax': rng.random() < .5, 'negative_inline': rng.random() < .5}, 'added': adds, 'paths': w.paths,
                         'finalize': rng.random() < .8, 'queries': qs})
        ctx.describe([{'added': x['added'], 'paths': x['paths']} for x in spec])
        d = ctx.newdir()
        path = os.path.join(d, 'spec.json')
        with open(path, 'w') as out:
            json.dump(spec, out)
        script = os.path.join(core.VERIF, 'mon', 'transcript.py')
        base, how = None, None
        for n, (seed, cwd, order, locale) in enumerate([(0, d, 'forward', 'C.UTF-8'), (rng.randint(1, 10 ** 6), '/', 'forward', 'ascii'), (rng.randint(1, 10 ** 6), d, 'reverse', 'C.UTF-8')]):
            env = dict(os.environ, PYTHONHASHSEED=str(seed))
            if locale == 'ascii':
                env.update(LC_ALL='C', PYTHONUTF8='0', PYTHONCOERCECLOCALE='0')
            if n:
                # whatever the metadata mentions exists in the environment, too
                env.update({x: 'env{} ${{PN}}'.format(n) for x in mentioned if x not in os.environ and not x.startswith(('PYTHON', 'LC_', 'LD_', 'LANG', 'VERIF'))}, TZ=['', 'Asia/Tokyo', 'America/Lima'][n])
                ctx.event('environment_variables', len(mentioned))
            p = subprocess.run([sys.executable, script, path, order], cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=180)
            need(p.returncode == 0, 'session fails under hash seed', seed, p.stderr.decode(errors='replace')[-800:])
            res = json.loads(p.stdout)
            ctx.event('processes')
            if base is None:
                base, how = res, (seed, cwd, order)
                continue
            for k, (a, b) in enumerate(zip(base, res)):
                same('number of observations', len(a), len(b))
                for x, y in zip(a, b):
                    if x != y:
                        same('observation under {} and {}: {}'.format(how, (seed, cwd, order), x[:1]), y, x)
                    ctx.event('entries_compared')
        for x in spec:
            ctx.shape(x['added'], x['queries'])
        ctx.sample({'added': spec[0]['added'], 'observations': len(base[0])})


CHECK = Check()
