"""P13: run-time type checks."""


def run(ctx):
    r = ctx.tlc("TypeOf", consts=dict(Level2=True), invariants=["Emit"], note="all values against all type specifications")
    n = sum(len(e["yes"]) + len(e["no"]) for e in r.emitted)
    ctx.parts.append({"value_type_pairs": n})
    ctx.replay("d_typeof", r.emitted, label="values x types")
