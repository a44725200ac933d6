"""P31: generators in tail position."""


def run(ctx):
    r = ctx.tlc("Gtco", consts=dict(N=1, MaxOps=ctx.pick(5, 6)), invariants=["Ended", "EmitCase"], note="one node, all operation sequences")
    ctx.replay("d_gtco", ctx.sample(r.emitted, ctx.pick(4000, 10 ** 6)), label="one node")
    r = ctx.tlc("Gtco", consts=dict(N=3, MaxOps=10), invariants=["Ended", "EmitCase"], simulate=ctx.pick(20000, 300000), depth=14, note="random programs")
    ctx.replay("d_gtco", ctx.sample(r.emitted, ctx.pick(10000, 200000)), label="random programs")
