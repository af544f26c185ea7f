"""Fills the generated parts of DESIGN.md: python3 vf/design.py"""
import json, os, re, sys
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import PROPS
import spec
ORACLE = json.load(open(os.path.join(HERE, 'oracles.json')))


def put(text, mark, new):
    a, b = '<!-- %s -->' % mark, '<!-- /%s -->' % mark
    return text[:text.index(a) + len(a)] + '\n' + new + text[text.index(b):]


def main():
    t = open(ROOT + '/DESIGN.md').read()
    out = ''
    for s in spec.S:
        p = s['id']
        if p not in PROPS:
            continue
        out += '**%s %s.** %s\n' % (p, s['title'], ORACLE.get(p, ''))
        for c in PROPS[p]['configs']:
            td = ', '.join('%s=%s' % kv for kv in sorted(c.get('tdefs', {}).items()))
            out += '- `%s` (%s%s): %s%s\n' % (c['name'], c['h'], ', CBMC' if c.get('engine') == 'cbmc' else '', c['bound'], ' — thorough only' if c.get('thorough') else ' [%s]' % td if td else '')
        out += '\n'
    for k, v in sorted(spec.NA.items()):
        out += '**%s** not applicable: %s\n' % (k, v)
    t = put(t, 'props', out)
    f = ''.join('- %s (%s, %s)\n' % (m.group(3), m.group(1), m.group(2)) for m in re.finditer(r'^fixed: property=(\S+) (\S+) (.*)$', open(ROOT + '/KNOWN_FINDINGS').read(), re.M))
    t = put(t, 'fixed', f)
    missed = json.load(open(os.path.join(HERE, 'missed.json')))
    b = '| bug | property, and check that catches it | what it breaks | needs | missed at first |\n|---|---|---|---|---|\n'
    for d in sorted(os.listdir(ROOT + '/seeded')):
        m = json.load(open('%s/seeded/%s/meta.json' % (ROOT, d)))
        b += '| %s | %s | %s | %s | %s |\n' % (d, m['property'], m['what_it_breaks'], m['needs'], missed.get(d, ''))
    t = put(t, 'bugs', b)
    open(ROOT + '/DESIGN.md', 'w').write(t)


if __name__ == '__main__':
    main()
