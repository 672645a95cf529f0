"""Run a list of sessions and print everything observed (child process of C20)"""
import json
import os
import sys


def main():
    sys.dont_write_bytecode = True
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    from mon import history, lab
    with open(sys.argv[1]) as i:
        spec = json.load(i)
    order = list(range(len(spec)))
    if sys.argv[2] == 'reverse':
        order.reverse()
    res = [None] * len(spec)
    for k in order:
        x = spec[k]
        s = lab.stash(**x['kw'])
        out = []
        for a in x['added']:
            for item in s.AddFile(x['paths'][a]):
                out.append(['item', repr(item), lab.snap(item)])
            out.append(['fingerprint', s.FingerPrint])
        if x['finalize']:
            s.Finalize()
        for q in x['queries']:
            q = (q[0], None if q[1] is None else [tuple(y) if isinstance(y, list) else y for y in q[1]], {n: tuple(y) if isinstance(y, list) else y for n, y in q[2].items()})
            out.append([q[0], repr(q), history.norm(history.call(s, q, x['paths']))])
        for item in s.GetItemsFor():
            out.append(['final', repr(item)])
        res[k] = out
    json.dump(res, sys.stdout)


if __name__ == '__main__':
    main()
