"""P39: automatic currying."""
NS = '{{}, {"a"}, {"b"}, {"k"}, {"z"}, {"a","k"}, {"b","k"}, {"k","z"}, {"b","z"}}'


def run(ctx):
    ctx.warm_macros()
    c = dict(Roots="1..16", NameSets=NS, ChainLen="0", ChainFns="{}")
    cases = []
    for depth, maxpos, n in ((1, 3, 500), (2, 2, 600)):
        r = ctx.tlc("Curry", raw_consts=dict(c, Depth=str(depth), MaxPos=str(maxpos)), invariants=["Emit", "Stepwise"], note=f"{depth} steps")
        cases += ctx.sample(r.emitted, ctx.pick(n, n * 10))
    r = ctx.tlc("Curry", raw_consts=dict(c, Depth="5", MaxPos="2"), invariants=["Emit"], simulate=ctx.pick(300, 3000), depth=6, note="longer")
    cases += ctx.sample(r.emitted, ctx.pick(500, 5000))
    ctx.replay("d_autocurry", cases, label="programs", timeout=1200)
