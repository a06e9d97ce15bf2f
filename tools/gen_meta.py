#!/usr/bin/env python3
"""Single source of truth for properties.jsonl and MANIFEST.json.

Run `python3 tools/gen_meta.py` in /verif after editing; both files are
committed, this script is never run by a check.
"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, claimed=True,
         observe=None, state=None, technique=None, note=None, reason=None,
         level='exploration'):
    P.append(dict(id=id, title=title, statement=statement, over=over,
                  text=text, why=why, files=files, mech=mech,
                  claimed=claimed, observe=observe or [], state=state or [],
                  technique=technique, note=note, reason=reason,
                  level=level))


exec(open(os.path.join(HERE, 'tools', 'props_def.py')).read())

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as fh:
    for p in P:
        fh.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['text']},
            'why_tests_cant': p['why'],
            'anchors': {
                'files': p['files'],
                'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                'state': [{'name': a, 'meaning': b, 'where': c}
                          for a, b, c in p['state']],
                'observe_at': p['observe'],
                'hook_needed': None,
            }}) + '\n')

NOTE = ('Seeded, bounded exploration of the real code: nothing is proved '
        'beyond the cases observed, which the evidence file counts. Trusts '
        'the interpreter, the crypto primitives of PyCrypto and the '
        'independent reference model in vlib/ref.py.')
checks = []
na = []
for p in P:
    built = os.path.exists(os.path.join(HERE, 'checks',
                                        p['id'].lower() + '.py'))
    if not p['claimed'] or not built:
        na.append({'property': p['id'],
                   'reason': p['reason'] or 'the check is not built yet'})
        continue
    checks.append({
        'property': p['id'],
        'quick_cmd': 'sh run.sh %s' % p['id'],
        'thorough_cmd': 'VERIF_TIER=thorough sh run.sh %s' % p['id'],
        'technique': p['technique'],
        'level': p['level'],
        'level_note': p['note'] or NOTE,
    })
man = {
    'version': 1,
    'setup_cmd': 'sh setup.sh',
    'checks': checks,
    'hooks': {
        'guard': 'none',
        'enable': 'No guarded hook is committed in /repo: every monitor is '
                  'installed from /verif at run time, around the public '
                  'functions and the injected collaborators (sockets, HTTP '
                  'transport, clocks, files, hash objects).',
        'source_commits': [],
    },
    'not_applicable': na,
}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fh:
    json.dump(man, fh, indent=1)
    fh.write('\n')
