"""V02: catalogue and class paths, against the reference model."""
from mc import worlds
from mc.deep import Deep

HARNESSES = dict(worlds.WORLDS, Deep=Deep)
setup = worlds.prepare


def run(ctx):
    worlds.run(ctx, [("Structure", 2, 2), ("NamesSmall", 1, 3), ("Classes", 1, 3), ("Content", 1, 1), ("Plot", 1, 1), ("Many", 0, 1)])
    ctx.explore(Deep("V02", [20, 600, 1100] if not ctx.thorough else [20, 300, 500, 900, 960, 970, 980, 985, 990, 995, 1000, 1005, 1100, 1500, 3000]), 1 if not ctx.thorough else 2)
