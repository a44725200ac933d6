"""P21: mathematical sequences."""


def braces(xs):
    return "{" + ", ".join(map(str, sorted(xs))) + "}"


def run(ctx):
    cases = []
    nums = {-10, -4, -3, -2, -1, 0, 1, 2, 3, 4, 8, 9, 10, 16, 100}
    lasts = {-1000, -243, -16, -8, 0, 1, 3, 8, 16, 64, 81}
    for g in ("spec", "spec4", "op", "diag", "cyc", "nums"):
        r = ctx.tlc("MathSeq", consts=dict(NSpec={1, 2, 3}, MaxN=ctx.pick(5, 7), Group=g),
                    raw_consts=dict(Nums=braces(ctx.pick(nums, nums | {-3, 5, 6, 12})), Lasts=braces(ctx.pick(lasts, lasts | {-64, 2, 4, 9, 27, 32}))),
                    invariants=["Inv", "Emit"], note=g)
        cases += ctx.sample(r.emitted, ctx.pick({"op": 3500}.get(g, 7000), 60000))
    ctx.replay("d_mathseq", cases, label="sequences")
