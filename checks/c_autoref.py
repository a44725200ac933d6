"""P37: autoref."""


def run(ctx):
    ctx.warm_macros()
    ctx.tlc("Autoref", consts=dict(MaxLen=ctx.pick(4, 5), MaxDepth=2), invariants=["Innermost"], properties=["NoStore"], note="all short behaviours: the rule itself")
    cases = []
    for depth, length, n in ((2, 10, 500), (3, 18, 500)):
        r = ctx.tlc("Autoref", consts=dict(MaxLen=length, MaxDepth=depth), invariants=["Emit", "Innermost"], simulate=ctx.pick(n * 2, n * 20), depth=length + 1, note="programs")
        cases += ctx.sample(r.emitted, ctx.pick(n, n * 10))
    ctx.replay("d_autoref", cases, label="programs", timeout=1200)
