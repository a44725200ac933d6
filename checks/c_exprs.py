"""P34: prefix calls and conditional expressions."""


def run(ctx):
    ctx.warm_macros()
    inv = ["WellFormed", "EmitCase"]
    r = ctx.tlc("Exprs", consts=dict(MaxOps=3, MaxStack=3, Forms={"tup", "sub"}), invariants=inv, note="all small prefix terms")
    ctx.replay("d_exprs", ctx.sample(r.emitted, ctx.pick(600, 10000)), label="small prefix terms")
    r = ctx.tlc("Exprs", consts=dict(MaxOps=14, MaxStack=5, Forms={"tup", "cond", "aif", "sub"}), invariants=inv, simulate=ctx.pick(6000, 60000), depth=16, note="random terms")
    ctx.replay("d_exprs", ctx.sample([c for c in r.emitted if len(str(c["x"])) < 6000], ctx.pick(800, 10000)), label="random terms")
    r = ctx.tlc("Exprs", consts=dict(MaxOps=16, MaxStack=5, Forms={"tup", "cond", "aif", "sub", "few"}), invariants=inv, simulate=ctx.pick(15000, 150000), depth=18, note="random conditionals")
    cases = [c for c in r.emitted if len(str(c["x"])) < 6000 and ("cond" in str(c["x"]) or "aif" in str(c["x"]))]
    ctx.replay("d_exprs", ctx.sample(cases, ctx.pick(1200, 15000)), label="conditionals")
