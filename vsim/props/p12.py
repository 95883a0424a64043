"""P12: names in a scene find the node which carries them (see rooted.py)"""

from vsim import rooted


def gen(rng, config, tier):
    return rooted.gen(rng, ['reg', 'reg', 'reg', 'rename', 'route', 'parse', 'copy_scene'])


reduce = rooted.reduce


def run(case, ctx):
    rooted.run(case, ctx, 'names')
