"""Workload generators. Every structured statement carries what it must be
understood as (ground truth by construction, not by parsing)."""
import re
import textwrap

OPS = ['=', '?=', '??=', ':=', '+=', '=+', '.=', '=.']
UPPER = ['FOO', 'BAR', 'SUMMARY', 'LICENSE', 'DEPENDS', 'EXTRA_OECONF', 'SRC_URI', 'A', 'B2', 'PACKAGECONFIG',
         'CVE_STATUS', 'MY_LONG_VAR_NAME', 'HOMEPAGE', 'INSANE_SKIP', 'RDEPENDS', 'FILES', 'X1_Y', 'T']
LOWER = ['foo', 'bar', 'zlib', 'openssl', 'core', 'image', 'utils', 'lib', 'net', 'gtk', 'qt', 'python3', 'kernel', 'x11', 'do']
OVERRIDES = ['class-native', 'class-target', 'class-nativesdk', 'class-cross', 'qemuarm', 'raspberrypi4', 'libc-musl', 'pn-foo', 'x86-64', 'mydistro',
             'task-compile', 'pn-foo-bar-baz', '${PN}-dev-extra', 'x-y-z', 'class-foo-bar', 'a--b', '${PN}', '${PN}-dev', '${PN}-doc', 'virtclass', 'toolchain-clang', 'poky', 'arm', 'a9']
WORD_POOL = ['foo', 'bar', 'baz-1.2', 'lib/foo.so.*', '${PN}', '${PV}', '${libdir}/x', '${sysconfdir}', '--enable-x', '-DFOO=1', 'a=b',
             '#frag', 'x#y', "'sq'", '(y)', '{z}', '>=1.0', 'git://ex.org/r.git;protocol=https;branch=main', 'file://a.patch;striplevel=2',
             '&', '|', '!', '@', 'GPL-2.0-only', 'MIT', '%', '*', '?', '[ab]', ':', 'a:append', ',', ';', '<', '~', '^', '`', 'ünï', '漢字', '$X', '$', '{', '}',
             'inherit', 'include', 'require', 'export', 'def', 'python', 'addtask', 'unset', 'x\x0cy', 'p\x0bq', 'a\x85b', '\u2028', 'l\u2029m', '\ufeff', 'z\u200b', 'x()', '()', 'foo() {', 'EXPORT_FUNCTIONS', '=', '+=', '1', '0',
             '\\"x\\"', '\\x41', '\\n', '\\', '_append', 'x_append', 'do_install_append', 'FOO_remove', 'A_prepend_x', ':append', 'FOO:remove:x', 'C:\\dir', '\\1\\2', '\\$', '\\.so$', '\\x1b', '\\\\', '"', 'a"b', '-DX=\\"y\\"']
NASTY_CHARS = 'abzAZ019_-.+:/~${}[]()=?"\'#\\ \t%&*;,<>@!|^`äß漢\x0b\x0c\x1b\x1c\x1d\x1e\x85\u2028\u2029\u00a0\ufeff\u200b'


def words(rng, lo=0, hi=6, pool=None):
    return [rng.choice(pool or WORD_POOL) for _ in range(rng.randint(lo, hi))]


def value(rng, pool=None, lo=0, hi=6):
    """the text between two double quotes on one line"""
    ws = words(rng, lo, hi, pool)
    out = ''
    for n, w in enumerate(ws):
        if n:
            out += rng.choice([' ', ' ', ' ', '  ', '\t'])
        out += w
    if rng.random() < .15:
        out = ' ' + out
    if rng.random() < .15:
        out = out + ' '
    return out


def ident(rng, lo=1, hi=3, sep='-'):
    return sep.join(rng.choice(LOWER) for _ in range(rng.randint(lo, hi)))


class S:
    """One statement: its text, and what it has to be understood as"""

    def __init__(self, text, cls, want=None, **kw):
        self.text = text
        self.cls = cls
        self.want = want or {}
        self.merge = kw.get('merge')          # 'comment': merges with adjacent ones / 'def': absorbs blanks
        self.tag = kw.get('tag', cls)

    def __repr__(self):
        return '<{} {!r}>'.format(self.cls, self.text)


def gap(rng):
    return rng.choice(['', ' ', ' ', ' ', '  ', '\t', ' \t'])


# ---------------------------------------------------------------- names
def new_name(rng):
    """(text, name, overrides) in new style syntax"""
    if rng.random() < .6:
        base = rng.choice(UPPER)
    else:
        base = rng.choice(['do_foo', 'foo', 'my-var', 'a.b', 'FILES', 'lib_x', 'B-C', 'foo/bar', 'x~1', 'libstdc++-x', '_priv', 'pkg_x', 'X_${PN}', '${PN}_x', 'Foo.Bar', 'S3', 'c++x', '9p'])
    subs = []
    for _ in range(rng.choice([0, 0, 0, 1, 1, 2, 3])):
        subs.append(rng.choice(OVERRIDES + ['libstdc++', 'foo_bar', 'k.v']))
    if rng.random() < .35:
        subs.insert(rng.randint(0, len(subs)), rng.choice(['append', 'prepend', 'remove']))
    return ':'.join([base] + subs), base, subs


def old_name(rng):
    """(text, name, overrides) in old style syntax"""
    if rng.random() < .04:
        # package scripts
        base, subs = rng.choice(['pkg_postinst', 'pkg_prerm', 'pkg_FOO_x']), [rng.choice(['${PN}', '${PN}-dev', '${PN}-dev-extra'])]
        return '_'.join([base] + subs), base, subs
    base = '_'.join(rng.choice(['FOO', 'BAR', 'SRC', 'URI', 'FILES', 'A', 'B2', 'EXTRA', 'OECONF', 'Z9Z']) for _ in range(rng.randint(1, 3)))
    subs = []
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        subs.append(rng.choice(['class-native', 'class-target', 'qemuarm', 'libc-musl', 'pn-foo', 'pn-foo-bar-baz', '${PN}-dev-extra', 'x-y-z', 'a--b', '${PN}', '${PN}-dev', 'poky', 'arm', 'x86-64', 'mydistro']))
    if rng.random() < .35:
        subs.insert(rng.randint(0, len(subs)), rng.choice(['append', 'prepend', 'remove']))
    return '_'.join([base] + subs), base, subs


def name_for(rng, style):
    return new_name(rng) if style == 'new' else old_name(rng)


# ---------------------------------------------------------------- statements
def variable(rng, style='new', val=None, cont=None):
    text, base, subs = name_for(rng, style)
    op = rng.choice(OPS)
    pre = gap(rng)
    if text[-1] in '+.-' and not pre:
        pre = ' '
    post = gap(rng)
    delim = ':' if style == 'new' else '_'
    want = {'VarName': base, 'SubItems': subs, 'RawVarName': base,
            'VarNameComplete': delim.join([base] + subs),
            'VarNameCompleteNoModifiers': delim.join([base] + [x for x in subs if x not in ('append', 'prepend', 'remove')]),
            'VarOp.strip()': op, 'OverrideDelimiter': delim}
    multi = rng.random() < .25 if cont is None else cont
    if multi and val is None:
        lines = []
        for _ in range(rng.randint(1, 5)):
            lines.append(' '.join(words(rng, 0, 3)))
        indent = rng.choice(['', '    ', '\t', '  '])
        tail = rng.choice([' \\\n', '\\\n', ' \\\n'])
        if len(lines) == 1:
            lines.append('')
        # a separating blank keeps the words apart, as in real metadata
        val_text = (' ' + tail.lstrip(' ') if not tail.startswith(' ') else tail).join(indent + x for x in lines)
        want['get_items()'] = [w for x in lines for w in x.split()]
        want['IsMultiLine()'] = True
        out = '{}{}{}{}"{}"\n'.format(text, pre, op, post, val_text)
    else:
        v = value(rng) if val is None else val
        q = '"' if rng.random() < .85 or val is not None else "'"
        want['VarValueStripped'] = v
        want['VarValue.strip()'] = q + v + q
        want['get_items()'] = v.split()
        want['IsMultiLine()'] = False
        out = '{}{}{}{}{q}{}{q}{}\n'.format(text, pre, op, post, v, rng.choice(['', '', '', ' ', '\t']), q=q)
    want['IsAppend()'] = op in ('+=', '=+', '.=', '=.') or 'append' in subs or 'prepend' in subs
    want['IsImmediateModify()'] = not any(x in ('append', 'prepend', 'remove') for x in subs)
    return S(out, 'Variable', want)


BODY_SHELL = ['install -d ${D}${bindir}', 'oe_runmake install', ':', 'if [ -e x ]; then', 'fi', 'FOO = "1"', 'inherit foo', 'include x.inc',
              '# a comment', '# ${A}', '# {b}', '# } {', '# x() {}', 'for i in 1 2 3; do', 'done', 'cat <<EOF', 'EOF', 'x=${A}', 'a() { b; }', 'echo "${X}" | sed -e \'s/a/b/\'', 'cp a \\', 'export A="1"',
              'rm -f ${D}/foo', 'addtask x', 'case x in', 'esac', 'y=$(ls)', 'printf "a\x0cb\x1cc\u2028d"', 'python3 -c "1"', 'EXTRA += "2"', "echo '漢'", '[ -z "$x" ] && { true; }', "sed -e 's/\\./x/' -e 's,\\(a\\),\\1,' f", 'printf "a\\n\\x41"', 'find . -exec x {} \\;', 'unset FOO', 'do_install_append', 'x_append=1', 'FOO_remove = "1"', 'a:append b']
BODY_PY = ['import os', 'x = d.getVar("FOO")', 'if x:', 'pass', 'bb.note("hi")', '# comment', 'y = {"a": 1}', "re.sub(r'\\s+', '\\\\1', x)", 'z = a + \\', 'return', 'for i in x:', 'continue',
           'd.setVar("A", "b" + x)', 'ff = "\x0c \u2028 \x85"', "z = '''q'''", 'FOO = "1"', 'def inner(a):', 'inherit = 3', 'raise bb.parse.SkipRecipe("a {} b".format(1))', 'w = [i for i in (1, 2)]']


def body_lines(rng, pool, lo=0, hi=7, blanks=True):
    indent = rng.choice(['    ', '\t', '  '])
    out = []
    for _ in range(rng.randint(lo, hi)):
        if blanks and rng.random() < .12:
            out.append(rng.choice(['', '', '', ' ', '\t', indent, indent * 2]))
            continue
        extra = rng.choice(['', '', '', indent])
        out.append(indent + extra + rng.choice(pool))
    return out


def func_name(rng, style):
    known = rng.choice(['do_install', 'do_compile', 'do_configure', 'do_fetch', 'do_patch'])
    delim = ':' if style == 'new' else '_'
    r = rng.random()
    if r < .45:
        return known, known, []
    if r < .8:
        # the overrides of a function are known from the first operation or class override on
        subs = [rng.choice(['append', 'prepend', 'class-native', 'class-nativesdk', 'class-target', 'class-cross', 'remove'])]
        if rng.random() < .5:
            subs.append(rng.choice(['class-native', 'qemuarm', 'libc-musl', 'append', 'prepend']))
            if subs[0] == subs[1]:
                subs.pop()
        return delim.join([known] + subs), known, subs
    if r < .86:
        # a name which uses the words of its overrides, too
        name, sub = rng.choice([(['append', 'foo'], 'append'), (['remove', 'x'], 'remove'), (['append'], 'append'),
                                (['prepend', 'it'], 'prepend'), (['a', 'b', 'a'], 'append'), (['foo', 'foo'], 'prepend')])
        return '_'.join(name) + delim + sub, '_'.join(name), [sub]
    if style == 'new':
        n = rng.choice(['my_func', 'do_my_own-task', 'pkg_postinst', '_helper', 'Foo_Bar', 'python_foo', 'fakeroot_x', 'pythonic', 'a.b', 'do_x+y', '${PN}_setup'])
        if n == 'pkg_postinst':
            return 'pkg_postinst:${PN}', None, None
        return n, n, []
    n = rng.choice(['my_func', 'do_my_own-task', 'helper', 'python_foo', 'fakeroot_x', 'pythonic'])
    return n, n, []


def function(rng, style='new'):
    text, name, subs = func_name(rng, style)
    py = rng.random() < .35
    fr = rng.random() < .25
    anon = py and rng.random() < .15
    head = ''
    if fr:
        head += 'fakeroot' + rng.choice([' ', ' ', '  ', '\t'])
    if py:
        head += 'python' + ('' if anon and rng.random() < .4 else rng.choice([' ', ' ', '  ', '\t']))
    if anon:
        text, name, subs = rng.choice([('', '', []), ('__anonymous', '__anonymous', [])]) if head.endswith((' ', '\t')) else ('', '', [])
    lines = body_lines(rng, BODY_PY if py else BODY_SHELL)
    if rng.random() < .15:
        # blocks on their own, closed in any column
        k = rng.randint(0, len(lines))
        ind = rng.choice(['', '', '    '])
        lines[k:k] = [ind + rng.choice(['x = {', 'y.update({'] if py else ['{', 'helper() {', 'if x; then {', 'cat <<EOF > {']), rng.choice(['    :', '', 'a: 1', '    }{'])] + \
            [ind + '}' + rng.choice(['', '', ' ', ' || x', ')'])]
    out = '{}{}{}(){}{{\n'.format(head, text, rng.choice(['', '', ' ']), rng.choice(['', ' ', ' ', '  ']))
    out += ''.join(x + '\n' for x in lines) + '}\n'
    want = {'IsPython': py, 'IsFakeroot': fr, '_body': lines}
    if name is not None:
        want['FuncName'] = name
        want['SubItems'] = subs
        want['FuncNameComplete'] = text
        want['IsAppend()'] = any(x in ('append', 'prepend') for x in subs)
    else:
        want['FuncNameComplete'] = text
    return S(out, 'Function', want)


def pydef(rng):
    name = rng.choice(['foo', 'my_func', 'get_X', 'CamelCase', 'x1', '_priv', 'oe_filter_out', 'A'])
    args = rng.choice(['d', '', 'a, b=None', 'd, *args, **kw', 'x: str', "a='b'", 'a = {}', 'a=[1, 2]'])
    lines = body_lines(rng, BODY_PY, 1, 6)
    while lines and not lines[-1].strip():
        lines.pop()
    if not lines:
        lines = ['    pass']
    out = 'def{}{}{}({}){}:{}\n'.format(rng.choice([' ', ' ', '  ']), name, rng.choice(['', '', ' ']), args,
                                        rng.choice([' -> str', ' -> "List[str]"', '->None', ' ->  dict[str, int]', ' -> f(1)', ' ']) if rng.random() < .2 else '', rng.choice(['', '', ' ', '  # note']))
    out += ''.join(x + '\n' for x in lines)
    return S(out, 'PythonBlock', {'FuncName': name}, merge='def')


def comment(rng):
    if rng.random() < .2:
        return S(rng.choice([' ', '\t', '    ']) + '#' + rng.choice(['', ' ']) + re.sub(r'[\\\s]+$', '', value(rng)) + '\n', 'Comment', {}, tag='IndentedComment')
    return S('#' + rng.choice(['', ' ', ' ', '#', '# ']) + re.sub(r'[\\\s]+$', '', value(rng)) + '\n', 'Comment', {}, merge='comment')


def blank(rng):
    return S('\n', 'Item', {}, tag='Blank')


def tasks(rng, lo=1, hi=3):
    return ['do_' + rng.choice(['compile', 'install', 'fetch', 'x', 'build', 'deploy_it', 'sdk-x', 'before_x', 'after_all', 'x-after', 'afterwards', 'beforehand']) for _ in range(rng.randint(lo, hi))]


def class_names(rng):
    return [ident(rng) if rng.random() < .85 else rng.choice(['${PN}-c', '${PV}', '${PN}', 'x-${X_Y}', '${BPN}.x', 'a_${PV}_b', '${A}${B}', 'Foo', 'k+x']) for _ in range(rng.randint(1, 4))]


def directive(rng, kind=None):
    kind = kind or rng.choice(['inherit', 'inherit', 'inherit_defer', 'INHERIT', 'include', 'require', 'export', 'exportnov', 'addtask', 'addtask', 'deltask',
                               'unset', 'flag', 'flag', 'exportfunc', 'addpylib', 'addfragments', 'include_all'])
    sp = rng.choice([' ', ' ', ' ', '  ', '\t'])
    ind = rng.choice(['', '', '', ' ', '    '])
    if kind in ('inherit', 'inherit_defer'):
        cl = class_names(rng)
        return S('{}{}{}{}\n'.format(ind, kind, sp, rng.choice([' ', ' ', '  ', '\t']).join(cl)), 'Inherit',
                 {'Statement': kind, 'get_items()': cl, 'Class.split()': cl}, tag=kind)
    if kind == 'INHERIT':
        cl = class_names(rng)
        q = rng.choice('"\'')
        return S('INHERIT{}{}{}{}{}{}\n'.format(gap(rng), rng.choice(['=', '+=', '?=', ':=', '.=']), gap(rng), q, ' '.join(cl), q), 'Inherit',
                 {'Statement': 'INHERIT', 'get_items()': cl}, tag=kind)
    if kind in ('include', 'require'):
        fn = rng.choice(['foo.inc', 'recipes-x/foo/foo_1.0.bb', '${PN}-x.inc', 'conf/x.conf', 'gtk+.inc', 'a/b/c.inc', '../up.inc', '${LAYERDIR}/x.inc', 'foo_${PV}.inc', 'FOO-bar.inc', 'x2.y_z.inc', 'a@b.inc', 'x~1:y.inc', 'p%q,r.inc', 'ä/ö.inc', 'w=1.inc', '(x).inc', '[y].inc', '#z.inc'])
        return S('{}{}{}{}{}\n'.format(ind, kind, sp, fn, rng.choice(['', '', ' '])), 'Include',
                 {'Statement': kind, 'IncName': fn, 'FileIncluded': '', 'get_items()': [fn, kind]}, tag=kind)
    if kind == 'export':
        n = rng.choice(['FOO', 'my_var', 'PKG_CONFIG_PATH', 'X2', 'a-b.c', 'X${PN}', 'FOO:class-native', 'FOO:append', 'lib/x++y', 'exportx', 'A~b'])
        v = value(rng)
        q = rng.choice('""""\'')
        return S('{}export{}{}{}{}{}{q}{}{q}\n'.format(ind, sp, n, gap(rng), rng.choice(['=', '=', '='] + OPS), gap(rng), v, q=q), 'Export', {'Name': n, 'Value': v, 'get_items()': [n, v]}, tag=kind)
    if kind == 'exportnov':
        n = rng.choice(['FOO', 'my_var', 'PKG_CONFIG_PATH', 'X2', 'a-b.c', 'X${PN}', 'lib/x++', 'A~b', 'export'])
        return S('{}export{}{}{}\n'.format(ind, sp, n, rng.choice(['', '', ' '])), 'Export', {'Name': n, 'Value': '', 'get_items()': [n, '']}, tag=kind)
    if kind == 'addtask':
        fn = rng.choice(['do_foo', 'foo', 'do_deploy-x', 'x2', 'after_x', 'do_before', 'my_pkg_postinst', 'do_pkg_prerm', 'addtask', 'before', 'after'])
        b = tasks(rng) if rng.random() < .7 else []
        a = tasks(rng) if rng.random() < .7 else []
        parts = []
        if b:
            parts.append('before ' + ' '.join(b))
        if a:
            parts.append('after ' + ' '.join(a))
        if rng.random() < .5:
            parts.reverse()
        note = rng.choice(['', '', '', '', '# why', '# before x after y', '#', '# ${A}'])
        return S('{}addtask{}{}{}\n'.format(ind, sp, ' '.join([fn] + parts), ' ' + note if note else ''), 'TaskAdd',
                 {'FuncName': fn, 'Comment': note, 'Before': b, 'After': a, 'get_items()': [fn] + b + a}, tag=kind)
    if kind == 'deltask':
        fn = rng.choice(['do_foo', 'foo', 'do_deploy-x', 'x2'])
        note = rng.choice(['', '', '', '', '# why', '#', '# deltask x'])
        return S('{}deltask{}{}{}\n'.format(ind, sp, fn, ' ' + note if note else ''), 'TaskDel', {'FuncName': fn, 'Comment': note, 'get_items()': [fn]}, tag=kind)
    if kind == 'unset':
        n = rng.choice(['FOO', 'my_var', 'SRC_URI', 'a-b.c', 'X:y', 'do_foo', 'X${PN}', 'a/b~c', 'unset', 'X:${PN}-y'])
        if rng.random() < .5:
            f = rng.choice(['doc', 'noexec', 'vardeps', 'a-b', 'x.y', 'a@b', 'l++', 'p/q'])
            return S('{}unset{}{}[{}]\n'.format(ind, sp, n, f), 'Unset', {'VarName': n, 'Flag': f, 'get_items()': [n, f]}, tag='unsetflag')
        return S('{}unset{}{}\n'.format(ind, sp, n), 'Unset', {'VarName': n, 'Flag': '', 'get_items()': [n, '']}, tag=kind)
    if kind == 'flag':
        n = rng.choice(['do_foo', 'SRC_URI', 'PACKAGECONFIG', 'x', 'a-b', 'FOO:bar', 'A_${PN}', 'c++'])
        f = rng.choice(['noexec', 'sha256sum', 'foo.md5sum', 'x11', 'a-b', 'x@y', 'libx++', 'dirs', 'a/b', 'cleandirs'])
        op = rng.choice(OPS)
        v = value(rng)
        q = rng.choice('""""\'')
        return S('{}{}[{}]{}{}{}{q}{}{q}\n'.format(ind, n, f, gap(rng), op, gap(rng), v, q=q), 'FlagAssignment',
                 {'VarName': n, 'Flag': f, 'VarOp.strip()': op, 'Value.strip()': q + v + q, 'ValueStripped': v}, tag=kind)
    if kind == 'exportfunc':
        fn = [rng.choice(['do_compile', 'do_install', 'do_x', 'pkg_y', 'a-b.c', '${PN}_z']) for _ in range(rng.randint(1, 5))]
        return S('EXPORT_FUNCTIONS{}{}{}\n'.format(sp, rng.choice([' ', ' ', '  ', '\t']).join(fn), rng.choice(['', '', ' '])), 'FunctionExports', {'get_items()': fn}, tag=kind)
    if kind == 'addpylib':
        p = '${LAYERDIR}/' + rng.choice(['lib', 'lib/x', 'py-lib'])
        ns = rng.choice(['oe', 'foo', 'my_ns'])
        return S('addpylib{}{}{}{}{}\n'.format(rng.choice([' ', '  ']), p, rng.choice([' ', '  ', '\t']), ns, rng.choice(['', '', ' '])), 'AddPylib', {'Path': p, 'Namespace': ns, 'get_items()': [p, ns]}, tag=kind)
    if kind == 'addfragments':
        p, v, f = rng.choice(['conf/fragments', 'x/y']), rng.choice(['OE_FRAGMENTS', 'X']), rng.choice(['OE_FRAGMENTS_METADATA_VARS', 'Y_z'])
        return S('addfragments{g}{} {}{g}{}{}\n'.format(p, v, f, rng.choice(['', '', ' ', ' OE_BUILTIN_FRAGMENTS']), g=sp), 'AddFragements', {'Path': p, 'Variable': v, 'Flagged': f, 'get_items()': [p, v, f]}, tag=kind)
    if kind == 'include_all':
        f = rng.choice(['conf/distro/include/x.inc', 'a.conf', '${X}/y.inc'])
        return S('include_all{}{}{}\n'.format(sp, f, rng.choice(['', '', ' '])), 'IncludeAll', {'File': f, 'get_items()': [f]}, tag=kind)
    raise ValueError(kind)


def statement(rng, style='new', weights=None):
    w = weights or {'variable': 6, 'function': 2, 'pydef': 1, 'comment': 2, 'blank': 2, 'directive': 5}
    kind = rng.choices(list(w), list(w.values()))[0]
    if kind == 'variable':
        return variable(rng, style)
    if kind == 'function':
        return function(rng, style)
    if kind == 'pydef':
        return pydef(rng)
    if kind == 'comment':
        return comment(rng)
    if kind == 'blank':
        return blank(rng)
    return directive(rng)


def compose(rng, stmts, nonl=True):
    """Join statements; returns (text, [merged statements]). Statements that
    would be absorbed by a preceding def block are left out."""
    res = []
    for s in stmts:
        prev = res[-1] if res else None
        if prev is not None and prev.merge == 'def':
            if s.tag == 'Blank':
                res[-1] = S(prev.text + s.text, prev.cls, prev.want, merge='def', tag=prev.tag)
                continue
            if not (s.text[0].isascii() and s.text[0].isalnum() or s.text[0] in '#_$'):
                continue
        if prev is not None and prev.merge == 'comment' and s.merge == 'comment':
            res[-1] = S(prev.text + s.text, 'Comment', {}, merge='comment', tag='CommentBlock')
            continue
        res.append(s)
    if nonl and res and rng.random() < .25 and res[-1].tag != 'Blank' and res[-1].text.endswith('\n') and res[-1].merge != 'def':
        last = res[-1]
        res[-1] = S(last.text[:-1], last.cls, last.want, merge=last.merge, tag=last.tag)
        if hasattr(last, 'targets'):
            res[-1].targets = last.targets
    return ''.join(x.text for x in res), res


def read(item, expr):
    """'A.b()' style accessor"""
    obj = item
    for part in expr.split('.'):
        if part.endswith('()'):
            obj = getattr(obj, part[:-2])()
        else:
            obj = getattr(obj, part)
    return obj


def tidy(lines):
    """dedented lines without trailing blanks and without blank ends"""
    out = [x.rstrip() for x in textwrap.dedent('\n'.join(lines)).split('\n')]
    while out and not out[0]:
        out.pop(0)
    while out and not out[-1]:
        out.pop()
    return out


# ---------------------------------------------------------------- hostile text
SOUP = ['A = "1"\n', 'A = "1 \\\n', '\\\n', '\\', '\n', '\n\n', 'do_foo() {\n', '}\n', '}', '{', '${@', '${@bb.utils.contains("A", "b", "c", "d", d)}', '${', '${A}', 'python () {\n', 'python',
        'def foo(d):\n', '    pass\n', '# c\n', '#', '"', "'", 'inherit ', 'inherit foo\n', 'include ', 'include x.inc\n', 'require ${A}\n', 'addtask ', 'addtask a before b after c\n', 'addtask x after before\n',
        'deltask a\n', 'unset ', 'unset A[x]\n', 'A[b] = "c"\n', 'A[', ']', 'export ', 'export A = "b"\n', 'EXPORT_FUNCTIONS a b\n', 'addpylib ${LAYERDIR}/lib x\n', 'addfragments a b c\n', 'include_all x\n', 'INHERIT += "a"\n', 'INHERIT',
        ' = ', ' += ', ' ?= ', ':append', '_append', ':', '_', '=', 'fakeroot ', 'A', 'foo', ' ', '\t', '() {', '()', '(', ')', ';', 'd.getVar("A")', '${@d.getVar("A")}', "${@oe.utils.conditional('A','b','c','d',d)}", '${@foo()}', '!!!inlineblock!!!',
        '\x1b', '\x0b', '\x0c', '\r', '\r\n', '\x85', '\u2028', '\u2029', '\x1c', '\ufeff', '漢', '\x00', '$', '@', '%', 'PN', 'SRC_URI = "file://a;name=b"\n', 'pkg_postinst_${PN} () {\n', 'PACKAGES =+ "${PN}-x"\n', 'A = "${B}"\n', 'B = "${A}"\n', 'unset A\n', "B = 'x'\n", 'A:remove = "1"\n', 'A ??= "x"\n', 'read_file("x")', 'PACKAGES_DYNAMIC = "^foo-(.*"\n', 'PACKAGES_DYNAMIC += "*x [ c++++ foo.*"\n', '${@oe.utils.read_file("/nonexistent")}', '  # () {\n', 'A = "#"\n']


def soup(rng, lo=1, hi=40):
    out = []
    for _ in range(rng.randint(lo, hi)):
        r = rng.random()
        if r < .8:
            out.append(rng.choice(SOUP))
        elif r < .95:
            out.append(''.join(rng.choice(NASTY_CHARS) for _ in range(rng.randint(1, 12))))
        else:
            out.append('\n')
    return ''.join(out)


def mutate(rng, text):
    """small edits that make well-formed metadata malformed"""
    text = list(text)
    for _ in range(rng.randint(1, 6)):
        if not text:
            break
        p = rng.randrange(len(text))
        r = rng.random()
        if r < .35:
            del text[p:p + rng.choice([1, 1, 2, 5, 20])]
        elif r < .6:
            text.insert(p, rng.choice(NASTY_CHARS + '\n\n\n'))
        elif r < .75:
            q = min(len(text), p + rng.randint(1, 30))
            text[p:p] = text[p:q]
        elif r < .9:
            text[p:p] = list(rng.choice(SOUP))
        else:
            del text[p:]
    return ''.join(text)
