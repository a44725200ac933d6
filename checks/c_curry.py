"""P10: currying; P11: composition and pipes."""
NS = '{{}, {"a"}, {"b"}, {"k"}, {"z"}, {"a","k"}, {"b","k"}, {"k","z"}, {"b","z"}}'


def run(ctx):
    if ctx.pid == "P10":
        c = dict(Roots="1..16", MaxPos="3", NameSets=NS, ChainLen="0", ChainFns="{}")
        r = ctx.tlc("Curry", raw_consts=dict(c, Depth="1"), invariants=["Emit"], note="all single steps")
        ctx.replay("d_curry", r.emitted, label="BFS 1")
        r = ctx.tlc("Curry", raw_consts=dict(c, Depth="2", MaxPos="2" if ctx.quick else "3"), invariants=["Emit", "Stepwise"], note="all pairs of steps")
        ctx.replay("d_curry", ctx.sample(r.emitted, ctx.pick(9000, 60000)), label="BFS 2")
        r = ctx.tlc("Curry", raw_consts=dict(c, Depth="5", MaxPos="2"), invariants=["Emit"], simulate=ctx.pick(600, 8000), depth=6, note="longer")
        ctx.replay("d_curry", ctx.sample(r.emitted, ctx.pick(4000, 50000)), label="simulation")
        r = ctx.tlc("GCurry", consts=dict(MaxMethods=2, Depth=2), invariants=["Emit", "Stepwise"], note="generic functions: all pairs of multimethods, up to two steps")
        ctx.replay("d_gcurry", ctx.sample(r.emitted, ctx.pick(4000, 60000)), label="generic functions")
        r = ctx.tlc("GCurry", consts=dict(MaxMethods=3, Depth=3), invariants=["Emit", "Stepwise"], simulate=ctx.pick(1500, 20000), depth=4, note="generic functions: three multimethods")
        ctx.replay("d_gcurry", ctx.sample(r.emitted, ctx.pick(4000, 60000)), label="generic functions, longer")
        return
    c = dict(Roots="{}", MaxPos="0", NameSets="{}", Depth="0")
    r = ctx.tlc("Curry", raw_consts=dict(c, ChainLen="2", ChainFns="1..16"), init="CInit", next="CNext", invariants=["CEmit"], note="all chains of up to two functions")
    ctx.replay("d_curry", ctx.sample(r.emitted, ctx.pick(6000, 60000)), label="chains of 1-2")
    r = ctx.tlc("Curry", raw_consts=dict(c, ChainLen=str(ctx.pick(3, 4)), ChainFns="{1,3,6,8,12,13,14,2,15,16}" if ctx.quick else "{1,3,6,8,12,13,14,15,16}"),
                init="CInit", next="CNext", invariants=["CEmit"], note="longer chains")
    # many chains fail at once: keep those that get somewhere
    good = [e for e in r.emitted if len(e["fs"]) >= 3 and (e["r"]["k"] != "err" or len(e["calls"]) >= 2)]
    ctx.replay("d_curry", ctx.sample(good, ctx.pick(8000, 80000)), label="longer chains")
    r = ctx.tlc("ArgOps", consts=dict(MaxN=ctx.pick(3, 5), MaxSpecs=ctx.pick(2, 3), MaxTerms=ctx.pick(4, 6)), invariants=["Emit"], note="argument combinators")
    ctx.replay("d_argops", r.emitted, label="argument combinators")
