#!/usr/bin/env python3
"""Writes known-findings.json from the fix: commits of /repo (run by hand)"""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# words of the subject -> property which its failure broke
OF = [
    ('deleting a field in the pure', 'P01'), ('deleting an OList', 'P03'), ('OList in-place', 'P03'),
    ('NULL compares', 'P13'), ('getField returns', 'P05'), ('arrays that differ', 'P10'),
    ('each lineariser', 'P11'), ('invalidating a path', 'P15'), ('scale-only', 'P07'),
    ('a failed matrix', 'P07'), ('the centre of a transform', 'P07'), ('copies of prototype namespaces', 'P13'), ('named colours are', 'P01'), ('paths are extended, sliced', 'P21'),
    ('a carriage return ends', 'P23'), ('integers of a text', 'P23'), ('values of another kind', 'P23'), ('prototypes of a text stay', 'P22'), ('names in a copied scene', 'P22'), ('a child-list change', 'P04'), ('changes to a child list', 'P04'),
    ("ShaderGeometry", 'P10'), ('attribute access to node', 'P16'), ('joining a scene', 'P12'),
    ('routes through events', 'P05'), ('watching a field through addRoute', 'P10'), ('MFVec2d', 'P01'),
    ('WeakList', 'P08'), ('WeakTuple', 'P08'), ('copying a node', 'P13'), ('each PROTO instance', 'P09'),
    ("a prototype's URL", 'P10'), ('edited Script', 'P10'), ('lists of strings', 'P10'),
    ('a saved prototype refers', 'P10'), ('fields at their default', 'P10'), ('a prototype without', 'P10'),
    ('arrays are saved whole', 'P10'), ('clearing a weak', 'P16'), ('a wrong number of colour', 'P01'),
    ('perspectiveMatrix has the same', 'P14'), ('a rotation without an axis', 'P14'),
    ('two iterations over', 'P15'), ('the URL of an external', 'P17'), ('a name given to a routed node', 'P10'),
    ('a comment may end', 'P10'), ('names of node types and', 'P10'),
    ('read a text without', 'P10'), ('errors in texts', 'P11'), ('the fields of a class are', 'P11'), ('save only routes', 'P10'), ('the values of a text', 'P10'),
    ('array fields accept', 'P01'), ('a number sets every', 'P01'), ('matrix fields accept', 'P01'), ('adding to, repeating', 'P08'), ('adding weak tuples', 'P08'), ("the defaults passed", 'P09'), ('an instance does not join', 'P12'), ('nodes given to an instance', 'P16'), ('a weak list is not disturbed', 'P08'), ('a cache holder which was replaced', 'P06'),
    ('the definition of a field', 'P24'), ('attributes of prototypes can be', 'P24'), ('standard nodes have', 'P23'), ('items collected as they are put', 'P08'), ('restricted node fields take NULL', 'P01'),
]  # fmt: skip
EXTRA = {}


def main():
    log = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s', 'f15d50a..HEAD'], text=True)
    fixed = []
    for line in log.splitlines():
        commit, _, subject = line.partition(' ')
        subject = subject.replace('fix: ', '', 1)
        for words, prop in OF:
            if subject.startswith(words):
                break
        else:
            raise SystemExit('no property for: ' + subject)
        body = subprocess.check_output(['git', '-C', '/repo', 'log', '-1', '--format=%b', commit], text=True).strip().replace('\n', ' ')
        fixed.append('fixed: property=%s %s %s%s' % (prop, commit, subject, (' -- ' + body) if body else ''))
    path = os.path.join(HERE, 'known-findings.json')
    findings = []
    if os.path.exists(path):
        findings = json.load(open(path))['findings']
    with open(path, 'w') as f:
        json.dump({'findings': findings, 'fixed': fixed}, f, indent=1)
        f.write('\n')


main()
