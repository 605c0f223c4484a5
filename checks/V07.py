"""V07: default plot, against the reference model."""
from mc import worlds

HARNESSES = worlds.WORLDS
setup = worlds.prepare


def run(ctx):
    worlds.run(ctx, [("Plot", 2, 3), ("Structure", 1, 1), ("Many", 0, 1)])
