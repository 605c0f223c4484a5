"""V05: NX_class, against the reference model."""
from mc import worlds

HARNESSES = worlds.WORLDS
setup = worlds.prepare


def run(ctx):
    worlds.run(ctx, [("Classes", 2, 6), ("Structure", 1, 2), ("Content", 1, 1), ("Many", 0, 1)])
