"""V06: content of groups, against the reference model."""
from mc import worlds

HARNESSES = worlds.WORLDS
setup = worlds.prepare


def run(ctx):
    worlds.run(ctx, [("Content", 2, 4), ("ContentSmall", 2, 2), ("Structure", 1, 2), ("Many", 0, 1)])
