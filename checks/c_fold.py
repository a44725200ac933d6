"""P20: folds, scans, unfolds."""


def run(ctx):
    cases = []
    for g in ("multi", "one", "unfold"):
        r = ctx.tlc("Fold", consts=dict(Vals={0, 1, 2}, MaxLen=ctx.pick(4, 6), MaxStates=ctx.pick(2, 3), MaxOut=ctx.pick(5, 7), Group=g), invariants=["Inv", "Emit"], note=g)
        cases += ctx.sample(r.emitted, ctx.pick(5000, 100000))
    ctx.replay("d_fold", cases, label="folds")
