#!/opt/venv/bin/python
"""Run the check of every planted bug against a scratch copy of /repo with that
bug applied: planted.py [--jobs N] [ids]. Prints one line each and writes
planted.json (used by design.py). Not part of any check."""
import concurrent.futures
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, 'seeded')
OUT = os.path.join(VERIF, 'planted.json')


def one(name):
    meta = json.load(open(os.path.join(SEEDED, name, 'meta.json')))
    prop = meta['property']
    base = tempfile.mkdtemp(prefix='planted-')
    try:
        tree = os.path.join(base, 'repo')
        subprocess.run(['cp', '-a', '/repo', tree], check=True)
        r = subprocess.run(['git', 'apply', os.path.join(SEEDED, name, 'patch.diff')], cwd=tree, capture_output=True, text=True)
        if r.returncode:
            return name, prop, 'does not apply', r.stderr.strip()[:120]
        env = dict(os.environ, VERIF_REPO=tree, PYTHONDONTWRITEBYTECODE='1', VERIF_EVIDENCE=os.path.join(base, 'evidence'))
        r = subprocess.run([os.path.join(VERIF, 'run.py'), prop], env=env, capture_output=True, text=True, cwd=VERIF)
        lines = [x for x in r.stdout.split('\n') if x]
        if r.returncode == 1 and any(x.startswith('VIOLATION property=' + prop) for x in lines):
            return name, prop, 'caught', lines[1][:160] if len(lines) > 1 else ''
        return name, prop, 'missed' if r.returncode == 0 else 'no answer', (lines or [r.stderr])[-1][:160]
    finally:
        shutil.rmtree(base, ignore_errors=True)


def main():
    args = sys.argv[1:]
    jobs = 1
    if '--jobs' in args:
        k = args.index('--jobs')
        jobs = int(args[k + 1])
        del args[k:k + 2]
    names = args or sorted(os.listdir(SEEDED))
    res = {}
    if args and os.path.exists(OUT):
        res = json.load(open(OUT))
    with concurrent.futures.ThreadPoolExecutor(jobs) as pool:
        for name, prop, verdict, detail in pool.map(one, names):
            print(name, prop, verdict, detail, flush=True)
            res[name] = verdict
    res = {k: v for k, v in sorted(res.items()) if os.path.isdir(os.path.join(SEEDED, k))}
    with open(OUT, 'w') as out:
        json.dump(res, out, indent=1)
        out.write('\n')


if __name__ == '__main__':
    main()
