"""V09: application definitions, against the reference model."""
from mc import worlds

HARNESSES = worlds.WORLDS
setup = worlds.prepare


def run(ctx):
    worlds.run(ctx, [("Applications", 1, 2), ("Structure", 1, 1), ("Many", 0, 1)])
