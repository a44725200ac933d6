"""P05: escape continuations."""


def run(ctx):
    c = dict(Tags={"x"}, MaxLen=ctx.pick(4, 5), MaxDepth=6)
    props = ["OneToOne", "DeadEc", "NoStrayCatch"]
    r = ctx.tlc("Ec", consts=c, invariants=["Emit"], properties=props, note="all behaviours up to the bound")
    ctx.replay("d_ec", ctx.sample(r.emitted, ctx.pick(20000, 500000)), label="BFS", timeout=2400)
    c = dict(Tags={"x", "y"}, MaxLen=14, MaxDepth=9)
    r = ctx.tlc("Ec", consts=c, invariants=["Emit"], simulate=ctx.pick(1500, 30000), depth=15, note="long random behaviours")
    ctx.replay("d_ec", ctx.sample(r.emitted, ctx.pick(12000, 300000)), label="simulation", timeout=2400)
