"""C23 parsing is passive"""
import os
import re
import sys

from mon import gen, lab, world
from mon.core import REPO, need, same

# events that are an effect on something outside of the interpreter, or code being run
EFFECTS = ('exec', 'compile', 'code.__new__', 'function.__new__', 'cpython.run_', 'builtins.input', 'builtins.breakpoint', 'marshal.load', 'pickle.', 'subprocess.', 'socket.', 'shutil.', 'tempfile.', 'ctypes.',
           'urllib.', 'http.', 'ftplib.', 'smtplib.', 'imaplib.', 'poplib.', 'nntplib.', 'telnetlib.', 'sqlite3.', 'mmap.', 'fcntl.', 'signal.', 'webbrowser.', 'pty.', 'syslog.', 'resource.set', 'msvcrt.', 'winreg.',
           'os.system', 'os.exec', 'os.fork', 'os.posix_spawn', 'os.spawn', 'os.startfile', 'os.remove', 'os.unlink', 'os.rename', 'os.replace', 'os.rmdir', 'os.mkdir', 'os.chmod', 'os.lchmod', 'os.chown', 'os.lchown', 'os.link',
           'os.symlink', 'os.truncate', 'os.utime', 'os.putenv', 'os.unsetenv', 'os.kill', 'os.chdir', 'os.fchdir', 'os.setxattr', 'os.removexattr', 'os.chflags', 'os.lockf', 'os.add_dll_directory')
OWN = tuple({sys.prefix + os.sep, sys.base_prefix + '/lib', os.path.dirname(os.__file__) + os.sep, REPO + '/oelint_parser/'})
CALLS = [('bb.utils.contains', ["'A'", "'b'", "'c'", "'d'", 'd']), ('bb.utils.contains_any', ["'A'", "'b'", "'c'", "'d'", 'd']), ('bb.utils.filter', ["'A'", "'b'", 'd']),
         ('oe.utils.all_distro_features', ['d', "'b'", "'c'", "'e'"]), ('oe.utils.any_distro_features', ['d', "'b'", "'c'", "'e'"]), ('oe.utils.all_distro_features', ['d', "'b'"]), ('oe.utils.any_distro_features', ['d', "'b'", "'c'"]),
         ('oe.utils.both_contain', ["'A'", "'B'", "'c'", 'd']), ('oe.utils.conditional', ["'A'", "'b'", "'c'", "'d'", 'd']), ('oe.utils.ifelse', ['True', "'a'", "'b'"]), ('oe.utils.less_or_equal', ["'A'", "'1'", "'c'", "'d'", 'd']),
         ('oe.utils.version_less_or_equal', ["'A'", "'1'", "'c'", "'d'", 'd']), ('oe.utils.vartrue', ["'A'", "'c'", "'d'", 'd']), ('oe.utils.read_file', ["'x'"]), ('d.getVar', ["'A'"]), ('d.getVar', ["'A'", 'True'])]
STATE = {'on': False, 'log': []}


def hook(event, args):
    if STATE['on']:
        try:
            STATE['log'].append((event, tuple(os.fspath(a) if isinstance(a, os.PathLike) else a if isinstance(a, (str, int, bytes, type(None))) else type(a).__name__ for a in args)))
        except Exception:
            pass


def payloads(c):
    """metadata that would leave a trace at c if anything of it was run"""
    py = ['open("{0}", "w").write("x")', 'os.system("touch {0}")', '__import__("os").mkdir("{0}")', 'subprocess.check_call(["touch", "{0}"])', 'exec("open(\'{0}\', \'w\')")', 'bb.process.run("touch {0}")',
          '[x for x in [open("{0}", "w")]]', 'd.setVar("A", open("{0}", "w"))', 'eval("open(\'{0}\', \'w\')")', 'oe.utils.write("{0}")', 'socket.create_connection(("127.0.0.1", 9))', 'd.getVar("A") or open("{0}", "w")']
    py = [x.format(c) for x in py]
    sq = [x.replace('"', "'") if "'" not in x else x.replace('"', '') for x in py]
    out = ['A = "${@' + x + '}"\n' for x in sq]
    out += ['B += "${@bb.utils.contains(\'X\', \'y\', ' + x + ', \'\', d)}"\n' for x in sq]
    out += ['C = "${@oe.utils.ifelse(' + x + ', \'a\', \'b\')}"\n' for x in sq[:4]]
    # ... as every single argument of everything that is looked into
    for head, args in CALLS:
        for n in range(len(args)):
            x = sq[(n + len(head) + len(out)) % len(sq)]
            out.append('C%d_%d%s "${@%s(%s)}"\n' % (len(out), n, [' =', ':append =', ' :='][n % 3], head, ', '.join(x if k == n else a for k, a in enumerate(args))))
        out.append('D%d = "${@%s(%s)} tail"\n' % (len(out), head, ', '.join([sq[len(out) % len(sq)]] * len(args))))
    out += ['python () {\n    ' + x + '\n}\n' for x in py]
    out += ['python do_x() {\n    import os, subprocess\n    ' + x + '\n}\n' for x in py[:4]]
    out += ['def f(d):\n    ' + x + '\n' for x in py]
    out += ['E := "${@f(d)}"\n', 'do_install() {\n    touch ' + c + '\n    rm -rf ${D}\n}\n', 'F = "`touch ' + c + '` $(touch ' + c + ')"\n', 'export G="$(touch ' + c + ')"\n',
            'include ${@open(\'' + c + '\',\'w\')}.inc\n', 'inherit ${@open(\'' + c + '\',\'w\')}\n', 'do_x[prefuncs] = "${@open(\'' + c + '\', \'w\')}"\n', 'H = "| touch ' + c + '"\n', 'SRC_URI = "file://' + c + ' git://127.0.0.1:9/x.git"\n',
            'PN = "${@os.system(\'touch ' + c + '\')}"\n', 'addtask x after ${@os.system(\'touch ' + c + '\')}\n', 'unset ${@open(\'' + c + '\',\'w\')}\n', '__import__("os").mkdir("' + c + '")\n', 'import os; os.mkdir("' + c + '")\n']
    return out


def tree(root):
    res = {}
    for d, _, fs in os.walk(root):
        res[d] = None
        for f in fs:
            p = os.path.join(d, f)
            st = os.lstat(p)
            res[p] = (st.st_size, st.st_mtime_ns, st.st_mode)
    return res


class Check:
    quick, thorough = 2100, 60000
    rule = ('Random layers whose statements are mixed with code that would leave a trace (python, inline python, shell, in values, names, conditions, include names), parsed and asked every question with an interpreter '
            'audit hook armed. Oracle: every audit event is a read of an added, included, inherited or asked-for file or a directory listing inside the layer; the scratch tree is unchanged afterwards. Non-trivial: at least 3 payloads.')
    min_events = {'audit_open': 3000, 'payloads': 4000, 'questions': 20000, 'read_file': 200, 'no_layer': 300}

    def setup(self, ctx):
        sys.addaudithook(hook)
        # warm up lazy imports of the interpreter
        lab.poke(lab.parse_text(ctx, 'A = "${@foo()} ${@bb.utils.contains(\'a\', \'b\', \'c\', \'d\', d)}"\nSRC_URI = "git://x;a=b"\n')[0], [], __import__('random').Random(1))
        u = lab.stash()
        u.GetScrComponents('git://x/y;a=b')
        u.GetFiles('/nonexistent', 'x')

    def case(self, rng, ctx, i):
        canary = None

        def stmt(r):
            if r.random() < .6:
                ctx.event('payloads')
                return gen.S(r.choice(pay), '?', {}, tag='Payload')
            return gen.statement(r, 'new', {'variable': 5, 'function': 2, 'comment': 1, 'directive': 3, 'pydef': 1})
        base = os.path.realpath(ctx.newdir())
        canary = os.path.join(base, 'CANARY')
        pay = payloads(canary)
        # names another program would look up elsewhere
        home = os.path.join(base, 'home')
        ctx.write(home, {'bait.inc': 'BAIT = "1"\n', 'classes/bait.bbclass': 'BAIT = "1"\n', 'bait': 'BAIT = "1"\n', 'conf/layer.conf': '', 'conf/bblayers.conf': 'A = "1"\n', 'recipes-x/bait.inc': ''})
        for k in ('HOME', 'BAIT', 'BBPATH', 'TOPDIR', 'OEROOT', 'COREBASE', 'BBLAYERS', 'PYTHONPATH'):
            os.environ[k] = home
        pay += [a + ' ' + b + x + '\n' for a in ('require', 'include') for b in ('~/', '$HOME/', '${BAIT}/', '$BAIT/', '', '*/', '%(HOME)s/', 'file://' + home + '/') for x in ('bait.inc', 'recipes-x/*.inc')]
        pay += ['inherit bait\n', 'inherit ~/classes/bait $HOME/classes/bait\n', 'INHERIT += "bait ~/classes/bait"\n', 'R = "${@oe.utils.read_file(\'~/bait\')}"\n', 'R = "${@oe.utils.read_file(\'$HOME/bait\')}"\n', 'R = "${@oe.utils.read_file(\'${HOME}/bait\')}"\n']
        w = world.build(rng, recipes=(1, 2), appends=(0, 2), incs=(0, 2), classes=(0, 2), size=(2, 8), stmt=stmt)
        extra = ''
        data = os.path.join(base, 'data.txt')
        with open(data, 'w') as out:
            out.write('content of data')
        other = os.path.join(base, 'other.txt')
        with open(other, 'w') as out:
            out.write('secret')
        r0 = w.recipes[0]
        if rng.random() < .5:
            extra = 'RF = "${@oe.utils.read_file(\'' + data + '\')}"\n'
            w.texts[r0] += ('' if w.texts[r0].endswith('\n') or not w.texts[r0] else '\n') + extra
        if rng.random() < .25:
            # no layer around
            w.texts.pop('conf/layer.conf')
            ctx.event('no_layer')
        w.write(ctx)
        ctx.write(w.root, {'conf/distro/dd.conf': 'DISTRO = "dd"\n', 'conf/machine/mm.conf': 'M = "mm"\n', 'recipes-a/x/files/p.patch': 'x', 'files/x.patch': 'x'})
        adds = world.order(rng, w)
        ctx.describe({'added': adds, 'files': dict(w.texts)})
        allowed = set()
        for a in adds:
            for x in w.reach(a):
                if x in w.appends and x not in adds:
                    continue
                allowed.add(w.paths[x])
        before = tree(base), tree(w.root)
        hidden = os.environ.copy()
        cwd = os.getcwd()
        state = rng.getstate()
        for attempt in range(2):
            rng.setstate(state)
            STATE['log'] = []
            STATE['on'] = True
            try:
                s = lab.stash(new_style_override_syntax=rng.random() < .7, negative_inline=rng.random() < .5)
                for a in adds:
                    s.AddFile(w.paths[a])
                s.Finalize()
                n = lab.poke(s, [w.paths[x] for x in w.recipes + w.appends], rng)
                got = s.ExpandVar(filename=w.paths[r0], attribute='VarName', attributeValue='RF') if extra else {}
            finally:
                STATE['on'] = False
            if not any(e == 'import' for e, _ in STATE['log']):
                break
            # a module of the interpreter was loaded on first use: look at a run without that
        ctx.event('questions', n)
        asked = {os.path.join(os.path.dirname(p), 'x.inc') for p in w.paths.values()} | {data}
        # what stands in read_file() is taken for the name of a file
        for text in w.texts.values():
            for m in re.finditer(r'oe\.utils\.read_file\((.*)\)\}', text):
                asked.add(os.path.abspath(m.group(1)))
                asked.add(os.path.abspath(m.group(1).strip('\'"')))
        for event, args in STATE['log']:
            if event == 'open':
                path, mode, flags = (args + (None, None, None))[:3]
                need(not (flags or 0) & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND) and not any(c in (mode or 'r') for c in 'wax+'), 'file opened for writing:', path, mode, flags)
                path = os.path.abspath(path) if isinstance(path, str) else path
                need(path in allowed or path in asked or str(path).startswith(OWN), 'file opened that the metadata does not pull in:', path)
                ctx.event('audit_open')
                if path == data:
                    ctx.event('read_file')
            else:
                need(event not in EFFECTS and not event.startswith(tuple(x for x in EFFECTS if len(x) > 4)), 'effect:', event, args)
                need(event != 'import', 'a module is loaded over and over:', args)
                if event in ('os.listdir', 'os.scandir'):
                    need(str(args[0]).startswith((w.root, base)) or args[0] in ('.', None), 'directory listed outside of the layer:', args)
                ctx.event('audit_looking')
        same('scratch directory after parsing', (tree(base), tree(w.root)), before)
        same('environment', os.environ.copy() == hidden, True)
        same('working directory', os.getcwd(), cwd)
        need(not os.path.exists(canary), 'code of the metadata was run')
        if extra and 'PN = ' not in w.texts[r0]:
            need('RF' in got, 'RF unknown')
        if sum(x.count('CANARY') for x in w.texts.values()) >= 3:
            ctx.shape(w.texts)
            ctx.sample({'text': w.texts[r0][:300], 'audit_events': len(STATE['log'])})


CHECK = Check()
