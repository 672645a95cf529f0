"""C29 the views an item gives of itself agree"""
import os
import re

from mon import gen, lab
from mon.core import need, same
from oelint_parser import cls_item as ITEM

MODS = ('append', 'prepend', 'remove')
CLASSES = ('class-native', 'class-nativesdk', 'class-cross', 'class-target')
APPENDOPS = ('+=', '=+', '.=', '=.')
VALIDOPS = ('=', '?=', '??=', ':=', '+=', '=+', '.=', '=.')
GAP = re.compile('[\\s\x1b]')
DISTROS = ['poky', 'mydistro', 'qemuarm', 'nodistro']


NAMED = {
    'Item': {'LINE': 'Line', 'RAW': 'Raw', 'ORIGIN': 'Origin'},
    'Variable': {'VAR': 'VarName', 'VARVAL': 'VarValue', 'VARRAW': 'RawVarName', 'VARVALSTRIPPED': 'VarValueStripped', 'SUB': 'SubItem'},
    'Include': {'INCNAME': 'IncName', 'STATEMENT': 'Statement', 'FILEINCLUDED': 'FileIncluded'},
    'Export': {'NAME': 'Name', 'STATEMENT': 'Value'},
    'Function': {'FUNCNAME': 'FuncName', 'FUNCBODY': 'FuncBody', 'SUB': 'SubItem'},
    'PythonBlock': {'FUNCNAME': 'FuncName'},
    'FlagAssignment': {'NAME': 'VarName', 'FLAG': 'Flag', 'VARVAL': 'Value', 'VARVAL_STRIPPED': 'ValueStripped', 'VAROP': 'VarOp'},
    'FunctionExports': {'FUNCNAME': 'FuncNames'},
    'TaskAdd': {'FUNCNAME': 'FuncName', 'BEFORE': 'Before', 'AFTER': 'After', 'COMMENT': 'Comment'},
    'TaskDel': {'FUNCNAME': 'FuncName', 'COMMENT': 'Comment'},
    'MissingFile': {'FILENAME': 'Filename', 'STATEMENT': 'Statement'},
    'AddPylib': {'PATH': 'Path', 'NAMESPACE': 'Namespace'},
    'AddFragements': {'PATH': 'Path', 'VARIABLE': 'Variable', 'FLAGGED': 'Flagged'},
    'IncludeAll': {'FILE': 'File'},
    'Inherit': {'STATEMENT': 'Statement', 'CLASS': 'Class'},
    'Unset': {'VARNAME': 'VarName', 'FLAG': 'Flag'},
}


def chunks(rng):
    """names with every mix of overrides"""
    pool = list(MODS) + list(CLASSES) + ['poky', 'mydistro', 'qemuarm', 'raspberrypi4', 'pn-foo', '${PN}', '${PN}-dev', 'libc-musl', 'x86-64', 'class-devupstream', 'machine', 'arm', 'nodistro', 'Upper', 'A9', '-x', 'a_b', 'appends', 'append-x', 'class', 'native', 'removed']
    return rng.sample(pool, rng.choice([0, 1, 1, 2, 2, 3, 4]))


def var_line(rng):
    d = rng.choice(':::_')
    name = d.join([rng.choice(['FOO', 'A', 'FILES', 'pkg', 'RDEPENDS', 'lower', 'S-X', 'pkg_postinst', '${PN}', 'EXTRA'])] + chunks(rng))
    val = rng.choice(['a b', '', ' a  b ', '"', '""x""', 'a (>= 1.0) b(<2)  c', '(x)', 'a \\\n   b \\\n', '\\\n', 'x\\\n', '\ta\t', "'q'", 'a(b', '(a) (b', '${@d}', '${@f(d, \\\n  1)}', 'x ${@f( \\\n d)} y', '${@bb.utils.contains("A", \\\n "b", "c", "d", d)}', 'é x', 'a=b;c="', 'a:append', '  '])
    q = rng.choice(['"', '"', '"', "'", ''])
    return '{}{}{}{}{}{}{}{}\n'.format(name, rng.choice([' ', '', '  ', '\t']), rng.choice(VALIDOPS), rng.choice([' ', '', '\t']), q, val, q, rng.choice(['', '', ' ']))


def func_line(rng):
    d = rng.choice(':::_')
    name = d.join([rng.choice(['do_install', 'foo', 'pkg_postinst', 'do_x-y', '', 'python_x'])] + chunks(rng))
    body = rng.choice(['    :\n', '', '    a() { x; }\n', '\n\n', '    if {x}; then\n        y\n    fi\n', '\tz\n\ty\n', '    x \\\n      y\n', '# c }\n', '  FOO = "1"\n'])
    return '{}{}() {{\n{}}}\n'.format(rng.choice(['', '', 'python ', 'fakeroot ', 'python fakeroot ', 'fakeroot python ']), name, body)


def within(part, x):
    """part is taken from the text of the item, layout aside"""
    def flat(t):
        return re.sub('[\\s\\\\\x1b\x1c-\x1f]', '', t)
    return flat(part) in flat(x.Raw) or flat(part) in flat(x.RealRaw)


def unquoted(text):
    text = text.strip()
    if len(text) > 1 and text[0] == text[-1] and text[0] in ('"', "'"):
        return text[1:-1]
    return text.strip('"')


class Check:
    quick, thorough = 24000, 250000
    rule = ('Every item of hostile files (assignments and functions with any mix of operations, class, machine and distro overrides, all operators, odd quoting; all directives; token soup; mutated metadata) '
            'in files of every type, both override styles. Monitor: relations between all attributes and accessors of an item, then again after its value was set. Non-trivial: an item with overrides or an operation.')
    min_events = {'items': 30000, 'variables': 10000, 'functions': 1000, 'with_overrides': 5000, 'relations': 300000, 'distro_hit': 500, 'machine_hit': 2000, 'class_hit': 500, 'set': 2000, 'multi_line': 500, 'versioned': 300, 'selected': 3000}

    def case(self, rng, ctx, i):
        style = rng.choice(['new', 'old'])
        out = []
        for _ in range(rng.randint(1, 12)):
            r = rng.random()
            if r < .5:
                out.append(var_line(rng))
            elif r < .65:
                out.append(func_line(rng))
            elif r < .85:
                out.append(gen.statement(rng, style).text)
            elif r < .95:
                out.append(gen.mutate(rng, gen.statement(rng, style).text) + '\n')
            else:
                out.append(gen.soup(rng, 1, 8) + '\n')
        name = rng.choice(['foo_1.0.bb', 'foo_%.bbappend', 'classes/my_cls.bbclass', 'x.inc', 'conf/x.conf'])
        text = ''.join(out)
        ctx.describe({'file': name, 'text': text})
        lab.CONSTANTS.AddConstants({'replacements': {'distros': ['mydistro', 'qemuarm']}})
        s, items, path = lab.parse_text(ctx, text, name, new_style_override_syntax=style == 'new')
        for item in items:
            self.relations(ctx, item, path)
        if items and i % 4 == 0:
            self.selected(rng, ctx, s, items)
        if i % 50 == 0:
            self.missing(rng, ctx)
        for item in items:
            if rng.random() < .3:
                self.after_set(rng, ctx, item, path)

    def relations(self, ctx, x, path):
        n = 8
        what = repr(x.RealRaw)
        cls = type(x).__name__
        same('kind', x.CLASSIFIER, cls)
        same('origin', x.Origin, path)
        same('from class', x.IsFromClass, path.endswith('.bbclass'))
        same('from append', x.IsFromAppend(), path.endswith('.bbappend'))
        same('style of ' + what, x.IsNewStyleOverrideSyntax, x.OverrideDelimiter == ':')
        need(x.OverrideDelimiter in (':', '_'), 'delimiter', x.OverrideDelimiter)
        attrs = x.GetAttributes()
        props = {k for k in dir(type(x)) if not k.startswith('_') and isinstance(getattr(type(x), k), property)}
        same('attributes', set(attrs), props)
        for k, v in attrs.items():
            same('attribute ' + k, v, getattr(x, k))
            n += 1
        for const, key in list(NAMED['Item'].items()) + list(NAMED.get(cls, {}).items()):
            same('attribute name ATTR_{} of {}'.format(const, cls), getattr(x, 'ATTR_' + const), key)
            need(key in attrs, 'ATTR_' + const, 'of', cls, 'names no attribute')
            n += 1
        same('text form', repr(x), repr(x))
        need(cls in repr(x), 'text form names the kind')
        for w in x.safe_linesplit(x.Raw):
            need(w and not re.search('[ \t\n]', w), 'word', w)
        ctx.event('items')
        fn = getattr(self, 'of_' + cls, None)
        if fn:
            n += fn(ctx, x, what) or 0
        ctx.event('relations', n)

    def selected(self, rng, ctx, s, items):
        """the attribute names a kind of item publishes select its items"""
        x = rng.choice(items)
        for const in NAMED[type(x).__name__] if type(x).__name__ in NAMED else ():
            key = getattr(x, 'ATTR_' + const)
            have = [y for y in items if type(y) is type(x)]
            got = s.GetItemsFor(classifier=x.CLASSIFIER, attribute=key)
            same('items of kind {} with {}'.format(x.CLASSIFIER, key), sorted(id(y) for y in got), sorted(id(y) for y in have))
            ctx.event('selected')
            v = getattr(x, key)
            if isinstance(v, str) and v:
                got = s.GetItemsFor(classifier=x.CLASSIFIER, attribute=key, attributeValue=v)
                same('items of kind {} with {} {}'.format(x.CLASSIFIER, key, v), sorted(id(y) for y in got), sorted(id(y) for y in have if getattr(y, key) == v))

    def missing(self, rng, ctx):
        """the one kind of item that only users make"""
        f, k, o, n = rng.choice(['a.inc', 'b/${PN}.inc']), rng.choice(['include', 'require']), rng.choice(['/x/a.bb', '/y/b.bbclass']), rng.randint(1, 99)
        for x in (ITEM.MissingFile(f, k, o, n, n + 1, inline_blocks=[]), ITEM.MissingFile(filename=f, statement=k, origin=o, line=n, infileline=n + 1, inline_blocks=[], new_style_override_syntax=True)):
            same('missing file', [x.Filename, x.Statement, x.Origin, x.Line, x.InFileLine, x.Raw, x.RealRaw], [f, k, o, n, n + 1, '', ''])
            same('parts', list(x.get_items()), [f, k])
            self.relations(ctx, x, o)

    def words(self, what, got, text):
        """got are the blank separated parts of text"""
        pos = 0
        for k, w in enumerate(got):
            need(w, 'empty word in', what)
            p = text.find(w, pos)
            need(p >= 0, 'word', w, 'of', what, 'is not in', text)
            need(all(GAP.match(c) for c in text[pos:p]), 'text left out between words of', what, got)
            need(k == 0 or p > pos, 'words without blank in between', what, got)
            need(not re.search('[ \t\n]', w), 'blank in word of', what, got)
            pos = p + len(w)
        need(all(GAP.match(c) for c in text[pos:]), 'text left out after the words of', what, got)

    def overrides(self, ctx, x, what, name, complete):
        d = x.OverrideDelimiter
        subs = x.SubItems
        same('overrides of ' + what, x.SubItem, d.join(subs))
        need(all(subs), 'empty override', what)
        same('complete name of ' + what, complete, d.join([name] + subs))
        for c in complete.split(d):
            need(within(c, x), 'part', c, 'of the name is not in', what)
        hit = [c for c in subs if c in lab.CONSTANTS.DistrosKnown]
        same('distro of ' + what, x.GetDistroEntry(), hit[0] if hit else '')
        m = [c for c in subs if c not in MODS + CLASSES + ('machine',)]
        same('machine of ' + what, x.GetMachineEntry(), m[0] if m else '')
        if subs:
            ctx.event('with_overrides')
            ctx.shape(complete, type(x).__name__)
            ctx.sample(complete)
        if hit:
            ctx.event('distro_hit')
        if m:
            ctx.event('machine_hit')

    def of_Variable(self, ctx, x, what):
        ctx.event('variables')
        d = x.OverrideDelimiter
        subs = x.SubItems
        self.overrides(ctx, x, what, x.VarName, x.VarNameComplete)
        same('name without operations of ' + what, x.VarNameCompleteNoModifiers, d.join([x.VarName] + [c for c in subs if c not in MODS]))
        same('raw name', x.RawVarName, x.VarName)
        same('name taken apart again', x.extract_sub(x.VarNameComplete), (x.VarName, x.SubItem))
        op = x.VarOp.strip()
        need('=' in op and within(op, x), 'operator', op, what)
        same('known operators', sorted(y.strip() for y in x.VAR_VALID_OPERATOR), sorted(VALIDOPS))
        same('append of ' + what, bool(x.IsAppend()), op in APPENDOPS or 'append' in subs or 'prepend' in subs)
        same('operations of ' + what, [y.strip() for y in x.AppendOperation()], ([op] if op in APPENDOPS else []) + [m for m in MODS if m in subs])
        same('immediate of ' + what, x.IsImmediateModify(), not [m for m in MODS if m in subs])
        c = [y for y in subs if y in CLASSES]
        same('class override of ' + what, x.GetClassOverride(), c[0] if c else '')
        if c:
            ctx.event('class_hit')
        val = unquoted(x.VarValue)
        same('stripped value of ' + what, x.VarValueStripped, val)
        self.words(what, x.get_items(), val)
        self.words(what, x.get_items(override='"a b\tc"'), 'a b\tc')
        same('words of a replacement', x.get_items(override='"a b\tc"'), ['a', 'b', 'c'])
        same('words of a versioned replacement', x.get_items(override='a (>= 1 ) b(x)  (y)', versioned=True), ['a', 'b'])
        if '(' in val:
            ctx.event('versioned')
        self.words(what, x.get_items(versioned=True), re.sub(r'[^\S\x1c-\x1f]*\(.*?\)', '', val))
        if '\\\n' in x.Raw or '\\\n' in x.RealRaw:
            ctx.event('multi_line')
            same('multi line ' + what, x.IsMultiLine(), True)
        elif '\\x1b' not in x.Raw:
            same('multi line ' + what, x.IsMultiLine(), False)
        return 17

    def of_Function(self, ctx, x, what):
        ctx.event('functions')
        self.overrides(ctx, x, what, x.FuncName, x.FuncNameComplete)
        same('append of ' + what, bool(x.IsAppend()), 'append' in x.SubItems or 'prepend' in x.SubItems)
        same('lines of ' + what, x.get_items(), x.FuncBodyRaw.split('\n'))
        same('stripped body of ' + what, x.FuncBodyStripped, x.FuncBody.replace('{', '').replace('}', '').replace('\n', '').strip())
        for k in (x.IsPython, x.IsFakeroot):
            need(k is True or k is False, 'no truth value', what)
        if x.IsPython:
            need('python' in x.RealRaw, 'python', what)
        if x.IsFakeroot:
            need('fakeroot' in x.RealRaw, 'fakeroot', what)
        return 9

    def of_Comment(self, ctx, x, what):
        same('lines', '\n'.join(x.get_items()), x.Raw)
        need('#' in x.Raw, 'comment without mark', what)
        return 2

    def of_PythonBlock(self, ctx, x, what):
        same('lines', '\n'.join(x.get_items()), x.Raw)
        need(within(x.FuncName, x), 'name is not in', what)
        return 2

    def of_FlagAssignment(self, ctx, x, what):
        same('parts of ' + what, x.get_items(), [x.VarName, x.Flag, x.VarOp, x.ValueStripped])
        same('stripped value of ' + what, x.ValueStripped, unquoted(x.Value))
        need('=' in x.VarOp and within(x.VarOp, x), 'operator', x.VarOp)
        return 3

    def of_FunctionExports(self, ctx, x, what):
        self.words(what, x.get_items(), x.FuncNames)
        stem = os.path.splitext(os.path.basename(x.Origin))[0]
        same('names in scope of the class', x.get_items_unaliased(), [stem + '-' + y for y in x.get_items()])
        return 2

    def of_TaskAdd(self, ctx, x, what):
        same('parts of ' + what, x.get_items(), [x.FuncName] + list(x.Before) + list(x.After))
        for y in list(x.Before) + list(x.After):
            need(y and not re.search('[ \t\n]', y) and within(y, x), 'task', y, what)
        need(isinstance(x.Comment, str), 'comment', x.Comment)
        return 3

    def of_TaskDel(self, ctx, x, what):
        same('parts of ' + what, x.get_items(), [x.FuncName])
        need(isinstance(x.Comment, str), 'comment', x.Comment)
        return 2

    def of_Include(self, ctx, x, what):
        same('parts of ' + what, x.get_items(), [x.IncName, x.Statement])
        need(x.Statement in ('include', 'require'), 'statement', x.Statement)
        need(not x.FileIncluded or os.path.isabs(x.FileIncluded), 'included file', x.FileIncluded)
        return 3

    def of_Export(self, ctx, x, what):
        same('parts of ' + what, x.get_items(), [x.Name, x.Value])
        return 1

    def of_AddPylib(self, ctx, x, what):
        same('parts of ' + what, x.get_items(), [x.Path, x.Namespace])
        return 1

    def of_AddFragements(self, ctx, x, what):
        same('parts of ' + what, x.get_items(), [x.Path, x.Variable, x.Flagged])
        return 1

    def of_IncludeAll(self, ctx, x, what):
        same('parts of ' + what, x.get_items(), [x.File])
        return 1

    def of_Unset(self, ctx, x, what):
        same('parts of ' + what, x.get_items(), [x.VarName, x.Flag])
        need(x.VarName and within(x.VarName, x), 'name is not in', what)
        need(not x.Flag or within(x.Flag, x), 'flag is not in', what)
        return 3

    def of_Inherit(self, ctx, x, what):
        self.words(what, x.get_items(), x.Class)
        need(x.Statement.startswith(('inherit', 'INHERIT')) and within(x.Statement, x), 'statement', x.Statement)
        return 2

    def after_set(self, rng, ctx, x, path):
        """the other views follow a changed value"""
        ctx.event('set')
        keep = {k: v for k, v in x.GetAttributes().items()}
        x.Line = keep['Line'] + 7
        keep['Line'] += 7
        if rng.random() < .3:
            x.Raw, x.RealRaw = x.RealRaw, x.Raw
            keep['Raw'], keep['RealRaw'] = keep['RealRaw'], keep['Raw']
        if type(x).__name__ == 'Variable':
            x.VarValue = rng.choice(['"new value"', '  "x (1) y" ', 'z', '""', '" a\tb "'])
            keep['VarValueStripped'] = unquoted(x.VarValue)
            keep['VarValue'] = x.VarValue
        elif type(x).__name__ == 'Function':
            x.FuncBody = rng.choice(['{ a }\nb', '', 'x {y}'])
            keep['FuncBody'] = x.FuncBody
            keep['FuncBodyStripped'] = x.FuncBody.replace('{', '').replace('}', '').replace('\n', '').strip()
        had = set(x.IncludedFrom)
        x.IncludedFrom = {'/q/a.bb'}
        keep['IncludedFrom'] = had | {'/q/a.bb'}
        same('other attributes after setting', x.GetAttributes(), keep)
        self.relations(ctx, x, path)


CHECK = Check()
