"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json and seeded/missed.txt."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {'C31-image-mode', 'C06-trend-steps', 'C07-sq-floor', 'C12-sdf-scale', 'C20-steps-approx', 'C27-sal-isclose', 'C26-align-once'}


def main():
    rows = ['| planted bug | property | needs |', '|---|---|---|']
    for name in sorted(os.listdir(os.path.join(VERIF, 'seeded'))):
        path = os.path.join(VERIF, 'seeded', name, 'meta.json')
        if os.path.exists(path):
            meta = json.load(open(path))
            needs = ' '.join(str(meta['needs']).split()).replace('|', '/')
            rows.append(f"| {name}{'*' if name in MISSED else ''} | {meta['property']} | {needs[:150]} |")
    p = os.path.join(VERIF, 'DESIGN.md')
    text = open(p, encoding='utf-8').read()
    marker = '<!-- seeds -->\n'
    head = text.split(marker)[0].rstrip('\n') + '\n\n'
    open(p, 'w', encoding='utf-8').write(head + marker + '\n'.join(rows) + '\n')


if __name__ == '__main__':
    main()
