"""P19: lazy iterables."""


def run(ctx):
    cases = []
    for g in ("slice", "inn", "one", "two"):
        r = ctx.tlc("It", consts=dict(Vals={0, 1, 2} if g != "inn" else {0, 1, 2, 3}, MaxLen=ctx.pick(4, 5), MaxN=ctx.pick(4, 5), Group=g), invariants=["Emit"], note=g)
        cases += ctx.sample(r.emitted, ctx.pick({"slice": 3000, "inn": 1000, "one": 8000, "two": 4000}[g], 100000))
    ctx.replay("d_it", cases, label="functions of iterables")
    cases = []
    for kinds, top in (({"t", "l"}, ctx.pick(1, 2)), ({"t"}, 2)):
        cases += ctx.tlc("Flat", consts=dict(W=2, Kinds=kinds, Top=top), invariants=["Inv", "Emit"], note="nested structure").emitted
    ctx.replay("d_flat", ctx.sample(cases, 100000), label="flattening")
