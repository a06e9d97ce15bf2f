"""Rewrites the table of planted changes at the end of DESIGN.md."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = '| planted change |'


def main():
    path = os.path.join(ROOT, 'DESIGN.md')
    text = open(path).read()
    if MARK in text:
        text = text[:text.index(MARK)]
    text = text.rstrip('\n') + '\n\n'
    rows = [MARK + ' caught by | needs |', '|---|---|---|']
    base = os.path.join(ROOT, 'seeded')
    for name in sorted(os.listdir(base)):
        m = json.load(open(os.path.join(base, name, 'meta.json')))
        by = m['property'] + (' (missed)' if m.get('missed') else '')
        rows.append('| %s | %s | %s |' % (
            name, by, ' '.join(m['needs'].split()).replace('|', '/')))
    open(path, 'w').write(text + '\n'.join(rows) + '\n')


main()
