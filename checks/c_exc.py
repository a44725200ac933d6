"""P30: exceptions from expressions."""


def run(ctx):
    r = ctx.tlc("Exc", consts=dict(MaxOps=3, MaxStack=3), invariants=["Sound", "EmitCase"], note="all programs of up to three operations")
    ctx.replay("d_exc", ctx.sample(r.emitted, ctx.pick(4000, 10 ** 6)), label="small programs")
    r = ctx.tlc("Exc", consts=dict(MaxOps=10, MaxStack=4), invariants=["Sound", "EmitCase"], simulate=ctx.pick(6000, 300000), depth=12, note="random programs")
    ctx.replay("d_exc", ctx.sample(r.emitted, ctx.pick(6000, 150000)), label="random programs")
