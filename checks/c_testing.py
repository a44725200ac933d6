"""P33: the test framework."""


def run(ctx):
    ctx.warm_macros()
    r = ctx.tlc("TestingBoth", init="BInit", next="BNext", consts=dict(Leaky=False, MaxDepth=3, MaxLines=3), invariants=["Balanced", "SameBefore", "BEmit"], note="all modules of up to three lines")
    ctx.replay("d_testing", ctx.sample(r.emitted, ctx.pick(600, 6000)), label="short test modules")
    r = ctx.tlc("TestingBoth", init="BInit", next="BNext", consts=dict(Leaky=False, MaxDepth=5, MaxLines=14), invariants=["Balanced", "SameBefore", "BEmit"], simulate=ctx.pick(6000, 60000), depth=30, note="random test modules")
    ctx.replay("d_testing", ctx.sample([c for c in r.emitted if len(c["prog"]) > 5], ctx.pick(800, 12000)), label="random test modules")
