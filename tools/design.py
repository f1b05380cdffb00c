"""Puts the per-property part of DESIGN.md together from the rule modules:  python3 tools/design.py

Everything between the markers '<!-- rules -->' and '<!-- end of rules -->' is rewritten.
"""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)


def main():
    out = []
    man = json.load(open(os.path.join(HERE, 'MANIFEST.json')))
    na = {d['property']: d['reason'] for d in man['not_applicable']}
    for line in open(os.path.join(HERE, 'properties.jsonl')):
        d = json.loads(line)
        out.append('### %s %s\n' % (d['id'], d['title']))
        out.append(d['statement'] + '\n')
        if not os.path.exists(os.path.join(HERE, 'sa', 'rules', d['id'].lower() + '.py')):
            out.append('*Not claimed:* %s\n' % na.get(d['id'], ''))
            continue
        m = importlib.import_module('sa.rules.' + d['id'].lower())
        out.append('*Analysed:* %s.\n' % m.EXPLANATION.rstrip('.'))
        out.append('*Rules:*\n')
        out += ['- **%s**%s' % (r.split(':', 1)[0], ':' + r.split(':', 1)[1] if ':' in r else '') for r in m.RULES]
        out.append('')
        a = getattr(m, 'ASSUMPTIONS', [])
        if a:
            out.append('*Assumed:* ' + '; '.join(a) + '.\n')
        out.append('*Anchors (below these the run counts as broken, not as passed):* ' + ', '.join('%s >= %s' % x for x in sorted(m.MIN.items())) + '.\n')
        w = d.get('why_tests_cant') or ''
        if w:
            out.append('*Beyond tests:* %s.\n' % w.rstrip('.'))
    p = os.path.join(HERE, 'DESIGN.md')
    s = open(p).read()
    a, b = s.index('<!-- rules -->'), s.index('<!-- end of rules -->')
    s = s[:a] + '<!-- rules -->\n\n' + '\n'.join(out) + '\n' + s[b:]
    sd = os.path.join(HERE, 'seeded')
    rows = ['| change | property | what it breaks | needs | caught by |', '|---|---|---|---|---|']
    for n in sorted(os.listdir(sd), key=lambda n: (json.load(open(os.path.join(sd, n, 'meta.json')))['property'], n)):
        m = json.load(open(os.path.join(sd, n, 'meta.json')))
        rows.append('| %s | %s | %s | %s | %s |' % (n, m['property'], m['what_it_breaks'], m['needs'], m.get('caught_by', m['property'])))
    a, b = s.index('<!-- seeded -->'), s.index('<!-- end of seeded -->')
    open(p, 'w').write(s[:a] + '<!-- seeded -->\n\n' + '\n'.join(rows) + '\n\n' + s[b:])


main()
