"""C26 source URIs are taken apart correctly"""
import os

from mon import lab, world
from mon.core import need, same

SCHEMES = ['http', 'https', 'ftp', 'git', 'gitsm', 'file', 'svn', 'npm', 'crate', 'hg', 's3', 'cvs', 'p4', 'sftp', 'ssh', 'bzr', 'repo', 'az', 'gs', 'ccrc', 'osc', 'npmsw', 'gomod', 'gomodgit', 'git+ssh', 'x-y.z+1', 'git3']
HOSTS = ['ex.org', 'git.example.com', '10.0.0.1', 'localhost', '${HOST}', 'h-1.x', 'ex_y.org', 'EX.org', '${THISDIR}', 'a', 'git.${BPN}.org', '[::1]']
USERS = ['', '', '', 'git@', 'u:p@', '${USER}@', 'a.b@', 'u:p%40@']
PORTS = ['', '', '', ':22', ':8080', ':${PORT}']
SEGS = ['a', 'foo.git', '${BPN}', '${PN}-${PV}.tar.gz', 'x-1.0', '.', '..', 'a+b', '~u', 'a%20b', 'ü', 'foo_bar.patch', '0001-x.patch', 'A@B', 'a:b', 'a=b', 'a,b', '*.cfg', '[ab].x', '${@d.x}', '(c)', '!', '&', "it's", 'q&amp', '-', '...', 'tree$']
OPTS = ['name', 'branch', 'protocol', 'rev', 'striplevel', 'patchdir', 'subdir', 'destsuffix', 'tag', 'md5sum', 'sha256sum', 'unpack', 'apply', 'x', 'type', 'module', 'downloadfilename', 'nobranch', 'subpath', 'lfs', 'package', 'usehead', 'a-b', 'A']
VALS = ['main', '1', '0', 'ssh', '${SRCREV}', 'a/b', '${S}/x', '', 'a=b', '==', 'x:y', 'http://p.x/y?z=1', 'a#b', 'v1.0', '${PV}', '@a/b', 'a,b', '?', '*', '${@x}', 'ü', '.', '${BPN}-x', 'name=z', 'file://x']
NAMES = ['foo', 'main', 'a-b', 'x1', '${PN}', '${PN}-data', 'pre-${PN}', 'A.B', 'a_b', 'ü', 'name', 'x${PN}${PN}', '1', 'machine', 'foo2']


def uri(rng, mirrors, name=None):
    """(text, scheme, src, options) known by construction"""
    opts = []
    keys = rng.sample([x for x in OPTS if x != 'name'], rng.choice([0, 0, 1, 1, 2, 3, 5]))
    for k in keys:
        opts.append((k, rng.choice(VALS)))
    if name is not None:
        opts.insert(rng.randint(0, len(opts)), ('name', name))
    tail = ''
    r = rng.random()
    if r < .12:
        tail += '?' + rng.choice(['h=1', 'a=b&c=d', 'x', 'file=a.tgz', 'u=http://x/y', '?', 'p=a/b'])
    if r < .04 or .12 < r < .18:
        tail += '#' + rng.choice(['frag', 'a/b', '1', 'x=y'])
    path = '/'.join(rng.choice(SEGS) for _ in range(rng.randint(0, 4)))
    if rng.random() < .12 and mirrors:
        key = rng.choice(sorted(mirrors))
        base = mirrors[key]
        pre, _, more = base.partition(';')
        scheme, rest = pre.split('://', 1)
        host, sl, mpath = rest.partition('/')
        full = path and '/' + path
        text = key + full
        if more:
            # the remainder belongs to the option of the mirror
            tail = ''
            k, _, v = more.partition('=')
            options = {k: v + full}
            src = rest
            text = key + full
        else:
            options = {}
            joined = mpath + full
            # what follows the host starts with one slash
            src = host + ('/' + joined.lstrip('/') if sl or full else '')
        kind = 'mirror'
    else:
        scheme = rng.choice(SCHEMES)
        options = {}
        if scheme == 'file' and rng.random() < .8:
            segs = path.split('/') if path else ['x.patch']
            if not segs[0] or '[' in segs[0]:
                segs[0] = 'd'
            src = '/'.join(segs)
            if rng.random() < .1:
                src = '/' + src
        else:
            host = rng.choice(HOSTS)
            src = rng.choice(USERS) + host + rng.choice(PORTS) + (path and '/' + path)
            if rng.random() < .1:
                src += '/'
        text = scheme + '://' + src
        kind = scheme
    text += tail
    src += tail
    for k, v in opts:
        text += ';{}={}'.format(k, v)
        options[k] = v
    if mirrors and rng.random() < .08:
        # the place where others are kept, within the value of an option
        key = rng.choice(sorted(mirrors))
        if ';' not in mirrors[key]:
            v = rng.choice(['', 'x,', 'a=']) + key + rng.choice(['', '/x', '/${BPN}'])
            text += ';mirror=' + v
            options['mirror'] = v.replace(key, mirrors[key])
    return text, scheme, src, options, kind


class Check:
    quick, thorough = 15000, 150000
    rule = ('URIs assembled from scheme, user, host, port, path, query, fragment and options (values with =, ;-free), with and without the mirror variables; put into one or many SRC_URI assignments with any operator, overrides, '
            'single or multi line, in recipe, includes and appends. Oracle: the components the URI was made from; own name plus all name options. Non-trivial: URI with options, or recipe with a name from another file.')
    min_events = {'uris': 20000, 'with_options': 8000, 'with_tail': 2000, 'mirror': 1500, 'resources': 2000, 'foreign_names': 500, 'multi_line': 1000}

    def case(self, rng, ctx, i):
        mirrors = lab.CONSTANTS.MirrorsKnown
        s0 = lab.stash()
        for _ in range(10):
            name = rng.choice(NAMES) if rng.random() < .3 else None
            text, scheme, src, options, kind = uri(rng, mirrors, name)
            ctx.describe({'uri': text})
            got = s0.GetScrComponents(text)
            same('scheme of ' + text, got['scheme'], scheme)
            same('location of ' + text, got['src'], src)
            same('options of ' + text, got['options'], options)
            same('parts of ' + text, sorted(got), ['options', 'scheme', 'src'])
            ctx.event('uris')
            if kind == 'mirror':
                ctx.event('mirror')
            if options:
                ctx.event('with_options')
                ctx.shape(text)
            if '?' in src or '#' in src:
                ctx.event('with_tail')
        ctx.sample(text)

        # named resources over all files of a recipe
        recipe = rng.choice(['foo', 'foo-native', 'libx++', 'a.b', 'nativesdk-y', 'ü'])
        base = '{}_{}'.format(recipe, rng.choice(['1.0', 'git']))
        files = {'conf/layer.conf': '', 'r/{}.bb'.format(base): '', 'r/other_1.bb': 'SRC_URI = "git://x/y;name=other"\n'}
        parts = ['r/{}.bb'.format(base)]
        if rng.random() < .5:
            files['r/a.inc'] = ''
            parts.append('r/a.inc')
        if rng.random() < .4:
            files['classes/c.bbclass'] = ''
            parts.append('classes/c.bbclass')
        if rng.random() < .5:
            n = 'b/{}.bbappend'.format(rng.choice([base, recipe + '_%']))
            files[n] = ''
            parts.append(n)
        if rng.random() < .3:
            files['b/other_1.bbappend'] = 'SRC_URI += "git://x/z;name=other2"\n'
        want = {recipe}
        foreign = set()
        for p in parts:
            for _ in range(rng.randint(0, 3)):
                us = []
                for _ in range(rng.randint(0, 4)):
                    n = rng.choice(NAMES) if rng.random() < .5 else None
                    if n is not None and rng.random() < .2:
                        # one name for each branch
                        n = ','.join(rng.sample(NAMES, rng.randint(2, 3)))
                        ctx.event('several_names')
                    while True:
                        text = uri(rng, {}, n)[0]
                        if '{@' not in text and not any(x in text for x in ('"', "'")):
                            break
                    us.append(text)
                    if n is not None:
                        want.update(n.replace('${PN}', recipe).split(','))
                        if p != parts[0]:
                            foreign.add(n)
                var = rng.choice(['SRC_URI', 'SRC_URI', 'SRC_URI', 'SRC_URI:append', 'SRC_URI:qemuarm', 'SRC_URI:prepend:class-native'])
                op = rng.choice(['=', '+=', '=+', '.=', '?=', ':=', '??='])
                if us and rng.random() < .4:
                    ctx.event('multi_line')
                    body = ''.join('{}{} \\\n'.format(rng.choice(['    ', '\t', '']), u) for u in us)
                    files[p] += '{} {} "{}{}"\n'.format(var, op, rng.choice(['\\\n', ' \\\n', '']), body)
                else:
                    files[p] += '{} {} "{}"\n'.format(var, op, rng.choice([' ', '  ', '\t']).join(us))
            if rng.random() < .3:
                files[p] += rng.choice(['MY_SRC_URI = "git://x/y;name=not1"\n', 'SRC_URI_X = "git://x/y;name=not2"\n', '# SRC_URI = "git://x/y;name=not3"\n', 'do_x() {\n    SRC_URI = "git://x/y;name=not4"\n}\n',
                                        'SRC_URI[name] = "git://x/y;name=not5"\n', 'SRCREV_not6 = "1"\n'])
        if 'r/a.inc' in files:
            files[parts[0]] = 'require a.inc\n' + files[parts[0]]
        if 'classes/c.bbclass' in files:
            files[parts[0]] += 'inherit c\n'
        root = os.path.realpath(ctx.newdir())
        paths = ctx.write(root, files)
        s = lab.stash(new_style_override_syntax=True)
        adds = [x for x in paths if x.endswith(('.bb', '.bbappend'))]
        rng.shuffle(adds)
        ctx.describe({'files': files, 'added': adds})
        for a in adds:
            s.AddFile(paths[a])
        s.Finalize()
        res = s.GetValidNamedResources(paths[parts[0]])
        need(len(res) == len(set(res)), 'a resource is listed twice', res)
        same('named resources', set(res), want)
        ctx.event('resources')
        if foreign:
            ctx.event('foreign_names')
            ctx.shape(files)


CHECK = Check()
