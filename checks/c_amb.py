"""P28: nondeterministic evaluation."""

ALL = {"const", "list", "ref", "range", "div", "insist", "deny", "typeerr", "pair", "less", "tup", "gen"}


def run(ctx):
    ctx.warm_macros()
    r = ctx.tlc("Amb", consts=dict(Names={"x"}, MaxLen=3, Kinds={"list", "range", "ref", "div", "insist", "typeerr"}), invariants=["Sound", "EmitCase"], note="all programs of up to 3 lines, one name")
    ctx.replay("d_amb", ctx.sample(r.emitted, ctx.pick(500, 8000)), label="all short programs")
    r = ctx.tlc("Amb", consts=dict(Names={"x", "y"}, MaxLen=6, Kinds=ALL), invariants=["Sound", "EmitCase"], simulate=ctx.pick(6000, 60000), depth=9, note="long programs")
    ctx.replay("d_amb", ctx.sample([c for c in r.emitted if len(c["p"]) > 1 and len(c["r"]["log"]) < 400], ctx.pick(1000, 15000)), label="random programs")
