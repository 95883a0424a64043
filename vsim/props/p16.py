"""P16: nodes know their scene, and do not keep it alive (see rooted.py)"""

from vsim import rooted


def gen(rng, config, tier):
    return rooted.gen(rng, ['assign', 'assign', 'drop_scene', 'scene', 'gc'])


reduce = rooted.reduce


def run(case, ctx):
    rooted.run(case, ctx, 'roots')
