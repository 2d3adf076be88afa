#!/usr/bin/env python3
"""Rewrites the part of DESIGN.md between the markers from tools/props.py, evidence/*.json, seeded/*/meta.json and known_findings.txt."""
import glob, json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = []
w = out.append
w("## Properties")
w("")
w("No property is not applicable: every property listed is decided by this method. Costs are those of the last run (8 cores).")
w("`unbounded` and `bounded` are the numbers of contracts; a bounded contract states its bound (`gv.Bounded`), which the evidence repeats.")
w("")
seeds = {}
for f in sorted(glob.glob(root + '/seeded/*/meta.json')):
    d = json.load(open(f))
    seeds.setdefault(d['property'], []).append((os.path.basename(os.path.dirname(f)), d))
nofail = set(open(root + '/tools/nofail.txt').read().split())
for p in sorted(PROPS, key=lambda p: p['id']):
    w("### %s %s" % (p['id'], p['title']))
    w("")
    w(p['statement'])
    w("")
    w("* **Specified:** for %s. Observed: %s." % (p['qtext'], ", ".join(p['observe'])))
    w("* **Code under contract:** " + "; ".join("%s (`%s`)" % (n, x) for n, x in p['mech']) + ".")
    w("* **Bounds and assumptions:** " + p['note'])
    w("* **Why tests cannot:** " + p['why'])
    try:
        d = json.load(open(root + '/evidence/%s.json' % p['id']))
        c = d['coverage']
        b = len({x.split(':')[0] for x in c.get('bounded_stand_ins') or []})
        w("* **Cost:** %d contracts (%d unbounded, %d bounded), %d functions under contract, about %d s." % (
            len(c['contracts']), len(c['contracts']) - b, b, len(c['functions_under_contract']), round(d['wall_s'])))
    except FileNotFoundError:
        pass
    w("* **Planted bugs caught:** " + "; ".join("%s (%s)%s" % (i, d['what_it_breaks'], ' [no-failing-input-found]' if i in nofail else '') for i, d in seeds.get(p['id'], [])) + ".")
    w("")
w("## Genuine defects found")
w("")
w("Found by the checks on the original tree, each repaired by a `fix:` commit (also in `known_findings.txt`). None is left unrepaired.")
w("")
for l in open(root + '/known_findings.txt'):
    if l.startswith('fixed: '):
        q = l.strip().split(' ', 3)
        w("* %s, commit %s: %s" % (q[1].split('=')[1], q[2], q[3]))
s = open(root + '/DESIGN.md').read()
a, b = "<!-- generated by tools/design.py -->\n", "<!-- end -->\n"
i, j = s.index(a) + len(a), s.index(b)
open(root + '/DESIGN.md', 'w').write(s[:i] + "\n".join(out) + "\n" + s[j:])
