"""P38: local substitutions."""


def run(ctx):
    ctx.warm_macros()
    for mode, kinds, n in (("expr", {"b", "t1", "t2"}, 700), ("block", {"b", "t1", "t2", "s0", "s1"}, 700)):
        r = ctx.tlc("LetSyntax", consts=dict(Mode=mode, Kinds=kinds, MaxDefs=2, MaxOps=ctx.pick(6, 7)), invariants=["Emit", "Replaced"], note=f"{mode}: all small programs")
        cases = ctx.sample(r.emitted, ctx.pick(n, n * 10))
        r = ctx.tlc("LetSyntax", consts=dict(Mode=mode, Kinds=kinds, MaxDefs=3, MaxOps=24), invariants=["Emit", "Replaced"], simulate=ctx.pick(n * 4, n * 40), depth=25, note=f"{mode}: random programs")
        cases += ctx.sample([c for c in r.emitted if len(c["log"]) < 400], ctx.pick(n, n * 10))
        ctx.replay("d_letsyntax", [dict(c, mode=mode) for c in cases], label=f"{mode}", timeout=1200)
