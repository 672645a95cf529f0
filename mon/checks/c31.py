"""C31 machines and distros of a layer are recognised"""
import os

from mon import lab
from mon.core import need, same

NAMES = ['poky-x', 'mydistro', 'a.b', 'distro1', 'qemuarm', 'raspberrypi4-64', 'imx8', 'board_x', 'x86', 'generic+', 'ünit', 'machine', 'tiny', 'foo', 'qemux86-64', 'my-board', 'arm']
MODS = ['append', 'prepend', 'remove']
CLASSES = ['class-native', 'class-nativesdk', 'class-cross', 'class-target']
OTHER = ['libc-musl', 'pn-foo', '${PN}', 'task-compile', 'poky', 'nodistro', 'poky-tiny', 'class-devupstream', 'unknown']
ROOTS = ['meta-a', 'meta [b]', 'm*c', 'meta-d/sub', 'x?y', 'layer.e', 'Ünit', 'meta-f']


class Check:
    quick, thorough = 4500, 100000
    rule = ('1-3 layers (names with blanks and pattern characters, one possibly inside another, one possibly without layer.conf, one possibly never used) with machine and distro configurations and files which only look alike (other directory, subdirectory, '
            'other extension); files of every type at any depth added in random order. After each addition the known machines and distros are compared with those of the layers used so far plus the shipped ones, and the distro, machine and class '
            'entries of every variable and function added so far with its overrides. Non-trivial: a distro of a layer is found in an override.')
    min_events = {'additions': 2000, 'configured': 3000, 'lookups': 20000, 'distro_found': 500, 'shipped_found': 500, 'unused_layer': 200}
    assumptions = ['Which of the remaining overrides is a machine can not be told from the layer alone, so the machine entry is specified as the first override that is neither operation nor class.']

    def case(self, rng, ctx, i):
        base = os.path.realpath(ctx.newdir())
        files, layers = {}, []
        shipped_d, shipped_m = set(lab.CONSTANTS.DistrosKnown), set(lab.CONSTANTS.MachinesKnown)
        roots = rng.sample(ROOTS, rng.randint(1, 3))
        if rng.random() < .2 and len(roots) > 1:
            roots[1] = roots[0] + '/recipes-x/inner'
        todo = []
        for k, r in enumerate(roots):
            lay = {'root': r, 'distro': set(), 'machine': set(), 'is_layer': rng.random() < .9 or len(roots) == 1}
            if lay['is_layer']:
                files[r + '/conf/layer.conf'] = 'BBPATH .= ":${LAYERDIR}"\n'
            for kind in ('distro', 'machine'):
                for n in rng.sample(NAMES, rng.randint(0, 4)):
                    files['{}/conf/{}/{}.conf'.format(r, kind, n)] = '#@NAME: x\n'
                    lay[kind].add(n)
                for n in rng.sample(NAMES, rng.choice([0, 0, 1, 2])):
                    if n in lay[kind]:
                        continue
                    files[r + '/' + rng.choice(['conf/{k}/include/{n}.conf', 'conf/{k}/{n}.inc', 'conf/{k}s/{n}.conf', '{k}/{n}.conf', 'conf/{n}.conf', 'recipes/conf/{k}/{n}.conf', 'conf/{k}/{n}.conf.bak', 'conf/{k}/{n}/x']).format(k=kind, n=n)] = 'Y = "1"\n'
                    ctx.event('look_alikes')
            ctx.event('configured', len(lay['distro']) + len(lay['machine']))
            layers.append(lay)
            if rng.random() < .8 or k == 0:
                for _ in range(rng.randint(1, 2)):
                    f = r + '/' + rng.choice(['recipes-x/foo/foo_1.0.bb', 'a_1.bb', 'b/c/d/e/x_%.bbappend', 'classes/q.bbclass', 'conf/zz.conf', 'recipes-y/y.inc'])
                    if f not in files:
                        files[f] = self.text(rng)
                        todo.append(f)
            else:
                ctx.event('unused_layer')
        if rng.random() < .3:
            files['outside/out_1.bb'] = self.text(rng)
            todo.append('outside/out_1.bb')
        paths = ctx.write(base, files)
        rng.shuffle(todo)
        ctx.describe({'files': files, 'added': todo})
        s = lab.stash(new_style_override_syntax=True)
        items = []
        used_d, used_m = set(shipped_d), set(shipped_m)
        for f in todo:
            items += s.AddFile(paths[f])
            home = None
            for lay in layers:
                if lay['is_layer'] and f.startswith(lay['root'] + '/') and (home is None or len(lay['root']) > len(home['root'])):
                    home = lay
            if home:
                used_d |= home['distro']
                used_m |= home['machine']
            ctx.event('additions')
            for known in (lab.CONSTANTS.DistrosKnown, lab.CONSTANTS.MachinesKnown):
                twice = {x for x in known if known.count(x) > 1} - {x for x in shipped_d | shipped_m}
                need(not twice, 'listed more than once after ' + f, twice)
            same('known distros after ' + f, set(lab.CONSTANTS.DistrosKnown), used_d)
            same('known machines after ' + f, set(lab.CONSTANTS.MachinesKnown), used_m)
            for x in items:
                if type(x).__name__ not in ('Variable', 'Function'):
                    continue
                ctx.event('lookups')
                want = [y for y in self.subs(x) if y in used_d]
                same('distro of {!r}'.format(x.RealRaw), x.GetDistroEntry(), want[0] if want else '')
                m = [y for y in self.subs(x) if y not in MODS + CLASSES + ['machine']]
                same('machine of {!r}'.format(x.RealRaw), x.GetMachineEntry(), m[0] if m else '')
                if hasattr(x, 'GetClassOverride'):
                    c = [y for y in self.subs(x) if y in CLASSES]
                    same('class of {!r}'.format(x.RealRaw), x.GetClassOverride(), c[0] if c else '')
                if want:
                    ctx.event('shipped_found' if want[0] in shipped_d else 'distro_found')
                    if want[0] not in shipped_d:
                        ctx.shape(x.RealRaw, sorted(used_d))
                        ctx.sample({'statement': x.RealRaw, 'configured': sorted(used_d)})
        same('items', len(items), sum(files[f].count('##') for f in todo))
        for f in todo:
            home = [lay['root'] for lay in layers if lay['is_layer'] and f.startswith(lay['root'] + '/')]
            same('layer of ' + f, s.GetLayerRoot(paths[f]), os.path.join(base, max(home, key=len)) if home else '')

    def subs(self, x):
        # known by construction: the statement carries its overrides in a trailing mark
        head = x.RealRaw.split('##')[0]
        name = head.split(' ')[0].split('(')[0]
        return name.split(':')[1:]

    def text(self, rng):
        out = ''
        for _ in range(rng.randint(1, 6)):
            pool = [x for x in NAMES if x != 'ünit' and '+' not in x and '.' not in x and '_' not in x] + OTHER + CLASSES
            subs = rng.sample(pool, rng.choice([0, 1, 2, 2, 3]))
            if rng.random() < .3:
                subs.insert(rng.randint(0, len(subs)), rng.choice(MODS))
            if rng.random() < .25:
                subs = [rng.choice(['append', 'prepend', 'class-native', 'class-nativesdk'])] + [x for x in subs if x not in MODS and x not in CLASSES]
                out += ':'.join(['do_install'] + subs) + '() {\n    : ##\n}\n'
            else:
                out += ':'.join([rng.choice(['FOO', 'SRC_URI', 'lower', 'FILES'])] + subs) + ' = "##"\n'
        return out


CHECK = Check()
