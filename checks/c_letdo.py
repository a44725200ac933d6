"""P15: binding and sequencing forms."""


def run(ctx):
    r = ctx.tlc("LetDo", consts=dict(Names={"a", "b"}, MaxBind=2, MaxBody=2, MaxItems=ctx.pick(3, 4), MaxPipe=ctx.pick(4, 5)), invariants=["Emit"], note="all programs")
    ctx.replay("d_letdo", ctx.sample(r.emitted, ctx.pick(5000, 40000)), label="programs")
