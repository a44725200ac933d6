"""P41: Popper, CountingIterator, slurp, getattrrec, setattrrec, Values."""


def run(ctx):
    c = dict(Poppers="{1, 2}", Counters="{1, 2}")
    r = ctx.tlc("Util", raw_consts=dict(c, MaxHist="2"), invariants=["Counted", "Emit"], properties=["Grows"], note="all histories of two steps")
    ctx.replay("d_util", ctx.sample(r.emitted, ctx.pick(6000, 100000)), label="short histories")
    for n in (8, 20):
        r = ctx.tlc("Util", raw_consts=dict(c, MaxHist=str(n)), invariants=["Counted", "Emit"], simulate=ctx.pick(1500, 20000), depth=n + 1, note="histories")
        ctx.replay("d_util", ctx.sample(r.emitted, ctx.pick(6000, 100000)), label=f"histories of {n} steps")
    r = ctx.tlc("ValuesObj", raw_consts=dict(MaxRets=ctx.pick("2", "3")), invariants=["Extensional", "Emit"], note="all pairs of small Values")
    ctx.replay("d_util", ctx.sample(r.emitted, ctx.pick(4000, 100000)), label="Values")
