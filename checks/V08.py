"""V08: references, against the reference model."""
from mc import worlds

HARNESSES = worlds.WORLDS
setup = worlds.prepare


def run(ctx):
    worlds.run(ctx, [("References", 2, 3), ("Structure", 1, 1), ("Plot", 1, 2), ("Many", 0, 1)])
