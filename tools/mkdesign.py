#!/usr/bin/env python3
"""writes DESIGN.md from notes/design_head.md, the contract registry, notes/catches.txt and notes/design_tail.md"""
import importlib, json, os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.path.insert(0, ROOT)
sys.path.insert(0, '/repo')
ns = {}
exec(open(ROOT + '/notes/props_text.py').read(), ns)
props = [json.loads(l) for l in open(ROOT + '/properties.jsonl')]


def regs():
    for p in props:
        yield p, importlib.import_module('contracts.' + p['id'].lower()).reg


def one(s):
    return ' '.join(s.split())


def size(h):
    s = [{k: x for k, x in p.items() if k != '_t'} for p in h.sizes]
    if s == [{}]:
        return ''
    t = '; '.join(','.join('%s=%s' % kv for kv in p.items()) for p in s)
    return t if len(t) < 150 else '%d parameter sets, last: %s' % (len(s), ','.join('%s=%s' % kv for kv in s[-1].items()))


def main():
    out = [open(ROOT + '/notes/design_head.md').read()]
    for p, reg in regs():
        out.append('### %s — %s\n' % (p['id'], p['title']))
        out.append(ns['T'][p['id']] + '\n')
        for h in reg.harnesses:
            fn = h.fn.replace('qiskit.ignis.', '').replace('|', '/')
            out.append('- **%s** `%s` (%s): %s%s' % (h.mode, h.name, fn, one(h.doc) or 'rejected inputs', ' [%s]' % size(h) if h.mode == 'S' and size(h) else ''))
        out.append('\nAssumed: ' + '; '.join(reg.assumptions) + '.\n')
    out.append('## 4. Planted bugs (`seeded/`)\n\nEach passes the stable tests, has a demonstration, and was written from the property text.  Result of the quick check of its property:\n')
    out.append('| bug | needs | property | result |\n|---|---|---|---|')
    res = {}
    if os.path.exists(ROOT + '/notes/catches.txt'):
        for l in open(ROOT + '/notes/catches.txt'):
            f = l.split()
            if len(f) > 3:
                res[f[0]] = ' '.join(f[3:5]) if 'CAUGHT' in l else 'missed'
    for s in sorted(os.listdir(ROOT + '/seeded')):
        m = json.load(open(ROOT + '/seeded/%s/meta.json' % s))
        out.append('| %s | %s | %s | %s |' % (s, one(m['needs']).replace('|', '/'), m['property'], res.get(s, '?')))
    out.append('')
    out.append(open(ROOT + '/notes/design_tail.md').read())
    open(ROOT + '/DESIGN.md', 'w').write('\n'.join(out))


if __name__ == '__main__':
    main()
