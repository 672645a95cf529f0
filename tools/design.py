#!/opt/venv/bin/python
"""Writes DESIGN.md out of design_head.md, properties.jsonl, the rules of the
checks, known_findings.txt and the planted bugs (run after editing)."""
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
from mon.core import load  # noqa: E402


def lines(path):
    with open(os.path.join(VERIF, path), encoding='utf-8') as i:
        return [x.rstrip('\n') for x in i if x.strip()]


def main():
    props = [json.loads(x) for x in lines('properties.jsonl')]
    manifest = {x['property']: x for x in json.load(open(os.path.join(VERIF, 'MANIFEST.json')))['checks']}
    planted, verdicts = {}, {}
    if os.path.exists(os.path.join(VERIF, 'planted.json')):
        verdicts = json.load(open(os.path.join(VERIF, 'planted.json')))
    seeded = os.path.join(VERIF, 'seeded')
    for name in sorted(os.listdir(seeded)):
        meta = json.load(open(os.path.join(seeded, name, 'meta.json')))
        planted.setdefault(meta['property'], []).append((name, meta))
    known = lines('known_findings.txt')
    out = [open(os.path.join(VERIF, 'design_head.md'), encoding='utf-8').read().rstrip(), '', '## The properties one by one', '']
    for p in props:
        k = p['id']
        check, m = load(k), manifest[k]
        out += ['### {}: {}'.format(k, p['title']), '',
                '*Specified:* {}'.format(p['statement']), '',
                '*Over:* {}. *Why tests cannot settle it:* {}'.format(p['quantifier']['text'].rstrip('.'), p['why_tests_cant']), '',
                '*Decided by* {}. {}'.format(m['technique'], m['level_note']), '',
                '*Workload and oracle:* {}'.format(check.rule), '',
                '*Bounds and cost:* {} cases on quick, {} on thorough; a run that sees fewer than {} is inconclusive (exit 3), not held.'.format(
                    check.quick, check.thorough, ', '.join('{} {}'.format(v, a) for a, v in check.min_events.items())), '']
        for x in known:
            if 'property={} '.format(k) in x and x.startswith('known:'):
                out += ['*Known finding:* {}'.format(x.split(' ', 2)[2]), '']
        if k in planted:
            out += ['*Planted bugs:*', '']
            for name, meta in planted[k]:
                out.append('- `{}` ({}): {} Needs: {}'.format(name, verdicts.get(name, 'not run'), meta['what_it_breaks'].rstrip('.') + '.', meta['needs'].rstrip('.') + '.'))
            out.append('')
    out += ['## Defects repaired', '', 'Each is one `fix:` commit in /repo; its check reports it again if it comes back.', '']
    for x in known:
        if x.startswith('fixed:'):
            _, prop, commit, text = x.split(' ', 3)
            out.append('- {} `{}`: {}'.format(prop.split('=')[1], commit, text))
    with open(os.path.join(VERIF, 'DESIGN.md'), 'w', encoding='utf-8') as f:
        f.write('\n'.join(out) + '\n')


if __name__ == '__main__':
    main()
