"""P29: breaking recursion cycles."""


def run(ctx):
    inv = ["Repeatable", "AcyclicSame", "EmitCase"]
    r = ctx.tlc("Fix", consts=dict(N=2, MaxCalls=1, MaxTop=2), invariants=inv, note="all programs of two nodes")
    ctx.replay("d_fix", ctx.sample(r.emitted, ctx.pick(3000, 10 ** 6)), label="programs of two nodes")
    r = ctx.tlc("Fix", consts=dict(N=4, MaxCalls=2, MaxTop=4), invariants=inv, simulate=ctx.pick(7000, 200000), depth=10, note="random programs of four nodes")
    ctx.replay("d_fix", ctx.sample([c for c in r.emitted if all(x["n"] < 300 for x in c["r"])], ctx.pick(5000, 80000)), label="programs of four nodes")
    r = ctx.tlc("Fix", consts=dict(N=6, MaxCalls=1, MaxTop=6), invariants=inv, simulate=ctx.pick(3000, 100000), depth=14, note="random programs of six nodes")
    ctx.replay("d_fix", ctx.sample([c for c in r.emitted if all(x["n"] < 300 for x in c["r"])], ctx.pick(3000, 40000)), label="programs of six nodes")
