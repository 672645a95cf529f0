"""C24 constants are changed exactly as asked, and by nobody else"""
import copy
import json
import os

from mon import lab
from mon.core import REPO, need, same

PATHS = {'FunctionsKnown': 'functions/known', 'FunctionsOrder': 'functions/order', 'MirrorsKnown': 'replacements/mirrors', 'VariablesKnown': 'variables/known', 'DistrosKnown': 'replacements/distros',
         'MachinesKnown': 'replacements/machines', 'ImagesClasses': 'images/known-classes', 'ImagesVariables': 'images/known-variables', 'SetsBase': 'sets/base', 'ClassIgnore': 'ignore/classes', 'IncludeIgnore': 'ignore/include'}
LEAF = ['a', 'b', 'c', 'do_x', 'FOO', 'é', 'x/y']


def paths_of(db, pre=''):
    res = []
    for k, v in db.items():
        if '/' in k or not k:
            continue
        res.append(pre + k)
        if isinstance(v, dict):
            res += paths_of(v, pre + k + '/')
    return res


def at(db, path):
    for x in path.split('/'):
        db = db.get(x, {}) if isinstance(db, dict) else {}
    return db


# pure reference: every function returns a new structure
def m_add(a, b):
    res = copy.deepcopy(a)
    for k, v in b.items():
        if k not in res:
            res[k] = copy.deepcopy(v)
        elif isinstance(v, dict):
            res[k] = m_add(res[k], v)
        else:
            res[k] = res[k] + v
    return res


def m_remove(a, b):
    res = copy.deepcopy(a)
    for k, v in b.items():
        if k in res:
            if isinstance(v, dict):
                res[k] = m_remove(res[k], v)
            elif isinstance(res[k], list):
                res[k] = [x for x in res[k] if x not in v]
            else:
                del res[k]
    return res


def m_override(a, b):
    res = copy.deepcopy(a)
    for k, v in b.items():
        if k in res and isinstance(v, dict):
            res[k] = m_override(res[k], v)
        else:
            res[k] = copy.deepcopy(v)
    return res


def value(rng, depth):
    r = rng.random()
    if r < .5 or depth > 2:
        return [rng.choice(LEAF) for _ in range(rng.randint(0, 3))]
    if r < .65:
        return rng.choice(LEAF)
    return {rng.choice(LEAF[:5] + ['known', 'k2']): value(rng, depth + 1) for _ in range(rng.randint(0, 3))}


def change(rng, db, op, depth=0):
    """a change that fits the types in db"""
    res = {}
    keys = list(db)
    for _ in range(rng.choice([1, 1, 2])):
        if keys and rng.random() < .75:
            k = rng.choice(keys)
            v = db[k]
            if isinstance(v, dict):
                res[k] = change(rng, v, op, depth + 1)
            elif isinstance(v, list):
                res[k] = [rng.choice(LEAF + [str(x) for x in v[:6]]) for _ in range(rng.randint(0, 3))]
            elif op != 'add':
                res[k] = rng.choice(LEAF)
        elif op != 'remove' or rng.random() < .5:
            k = rng.choice(['new', 'known', 'k2', 'zz', 'deep'])
            if k not in db:
                res[k] = value(rng, depth)
    return res


class Check:
    quick, thorough = 16000, 300000
    rule = ('Random sequences of 1-12 add/remove/override operations with nested dictionaries on up to three sets of constants built from the shipped data, from dictionaries or from files; the given data is '
            'altered by the caller afterwards. Oracle: pure functional model per set. All paths, missing paths and all named lists are compared after every operation. Non-trivial: an operation that changes the model.')
    min_events = {'operations': 10000, 'changing': 5000, 'paths_compared': 100000}

    def case(self, rng, ctx, i):
        with open(os.path.join(REPO, 'oelint_parser', 'data', 'const-default.json')) as f:
            shipped = json.load(f)
        sets = []
        given = {k: value(rng, 0) for k in rng.sample(['functions', 'images', 'replacements', 'own', 'ignore'], 3)}
        given = {k: v if isinstance(v, dict) else {'known': v} for k, v in given.items()}
        orig = copy.deepcopy(given)
        for kind in rng.sample(['default', 'dict', 'dict', 'file'], rng.randint(1, 3)):
            if kind == 'default':
                sets.append([lab.Constants(), copy.deepcopy(shipped)])
            elif kind == 'dict':
                sets.append([lab.Constants(given), copy.deepcopy(orig)])
            else:
                p = ctx.write(ctx.newdir(), {'c.json': json.dumps(orig)})['c.json']
                sets.append([lab.Constants(p), copy.deepcopy(orig)])
        if i % 10 == 0:
            # unusable files give no constants at all
            d = ctx.newdir()
            p = ctx.write(d, {'bad.json': '{"a": '})['bad.json']
            err, devnull = os.dup(2), os.open(os.devnull, os.O_WRONLY)
            os.dup2(devnull, 2)
            try:
                for x in (p, os.path.join(d, 'missing.json'), d):
                    c = lab.Constants(x)
                    same('constants of unusable file', [getattr(c, n) for n in PATHS], [{}] * len(PATHS))
            finally:
                os.dup2(err, 2)
                os.close(err)
                os.close(devnull)
        ops = []
        world = sorted(paths_of(lab_db()))
        before = [copy.deepcopy(lab.CONSTANTS.GetByPath(x)) for x in world]
        for _ in range(rng.randint(1, 12)):
            k = rng.randrange(len(sets))
            c, model = sets[k]
            op = rng.choice(['add', 'remove', 'override'])
            arg = change(rng, model, op)
            mine = copy.deepcopy(arg)
            ops.append((k, op, mine))
            ctx.describe({'initial': orig, 'operations': ops})
            {'add': c.AddConstants, 'remove': c.RemoveConstants, 'override': c.OverrideConstants}[op](arg)
            new = {'add': m_add, 'remove': m_remove, 'override': m_override}[op](model, mine)
            same('data handed in', arg, mine)
            ctx.event('operations')
            if new != model:
                ctx.event('changing')
                ctx.shape(op, mine, model)
            sets[k][1] = new
            self.compare(ctx, sets, ops)
            # the caller goes on using the data
            self.spoil(rng, arg)
            self.spoil(rng, given)
            self.compare(ctx, sets, ops)
        same('constants of the package', [lab.CONSTANTS.GetByPath(x) for x in world], before)
        ctx.sample({'operations': ops[:3]})

    def spoil(self, rng, x):
        if isinstance(x, dict):
            for v in list(x.values()):
                self.spoil(rng, v)
            x['spoiled'] = ['spoiled']
        elif isinstance(x, list):
            x.append('spoiled')

    def compare(self, ctx, sets, ops):
        for c, model in sets:
            for p in paths_of(model):
                same('{} after {}'.format(p, ops), c.GetByPath(p), at(model, p))
                same('{} with a slash at the end'.format(p), c.GetByPath(p + '/'), at(model, p))
                ctx.event('paths_compared')
            for p in ('nosuch', 'functions/nosuch', 'functions/known/x/y', 'own/zz/q', 'spoiled', 'new/spoiled'):
                same('missing path ' + p, c.GetByPath(p), at(model, p))
                same('path with slash at the end', c.GetByPath(p + '/'), at(model, p))
            for n, p in PATHS.items():
                same(n, getattr(c, n), at(model, p))


def lab_db():
    with open(os.path.join(REPO, 'oelint_parser', 'data', 'const-default.json')) as f:
        return json.load(f)


CHECK = Check()
