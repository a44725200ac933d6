"""P01: dynamic assignment, one thread. P02: threads."""
from .common import schedules

PROPS = ["Isolation", "Extent", "Shadow", "Inherit", "AllOrNothing"]


def run(ctx):
    if ctx.pid == "P01":
        th, names = {"m"}, {"a", "b"}
        exh = ctx.pick(4, 5)
        sims = ctx.pick(1500, 20000)
        simdepth = 16
    else:
        th, names = {"m", "t", "u"}, {"a"}
        exh = ctx.pick(4, 5)
        sims = ctx.pick(1200, 15000)
        simdepth = 14
    c = dict(Names=names, Threads=th, Main="m", MaxLen=exh, MaxDepth=3)
    r = ctx.tlc("Dyn", consts=c, invariants=["TypeOK", "Emit"], properties=PROPS, note=f"all behaviours of length {exh}")
    cases = r.emitted
    cap = ctx.pick(9000, 200000)
    cases = ctx.sample(cases, cap)
    ctx.replay("d_dyn", cases, label=f"BFS length {exh}", timeout=ctx.pick(240, 2400))
    c.update(MaxLen=simdepth, MaxDepth=4, Names={"a", "b", "c"} if ctx.pid == "P01" else {"a", "b"})
    r = ctx.tlc("Dyn", consts=c, invariants=["TypeOK", "Emit"], simulate=sims, depth=simdepth + 1,
                note="random long behaviours")
    ctx.replay("d_dyn", r.emitted, label=f"simulation length {simdepth}", timeout=ctx.pick(240, 2400))
    if ctx.pid == "P02":
        def op(o, **b):
            return {"op": o, "b": b} if b else {"op": o}
        L = op("look")
        mains = [[op("update", a=1, b=2), op("update", b=4, a=3)], [op("let", a=1), op("update", a=3, b=4), op("exit"), op("update", a=5, b=6)],
                 [op("let", a=1, b=2), op("set", a=3), op("exit"), op("set", b=7)]]
        others = [{"t": [L, L], "u": [L]}, {"t": [op("set", a=8), L, op("update", a=9, b=9), L], "u": [L, op("let", b=5), L, op("exit"), L]}]
        base = [dict(plan=dict(o, m=m), preempt=[]) for m in mains for o in others]
        schedules(ctx, "d_dynrace", base, ctx.pick(150, 2000), ctx.pick(60, 2000), validate="DynRace", raw_consts={})
