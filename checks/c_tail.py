"""P06: tail calls. P07: functional loops (with tail calls and escapes mixed in)."""


def run(ctx):
    props = ["TailConstant", "CallerUntouched", "BreakReaches"]
    if ctx.pid == "P06":
        c = dict(Funcs={"f", "g", "p"}, Tramp={"f", "g"}, Loops=set(), Chains={1500}, Sizes={0}, MaxLen=ctx.pick(4, 5), MaxDepth=4)
        s = dict(c, MaxLen=24, MaxDepth=6, Funcs={"f", "g", "p", "m"}, Tramp={"f", "g", "m"})
    else:
        c = dict(Funcs={"f"}, Tramp=set(), Loops={"l", "lo", "b", "bo"}, Chains=set(), Sizes={0, 2}, MaxLen=ctx.pick(4, 5), MaxDepth=3)
        s = dict(c, Funcs={"f", "p"}, Tramp={"f"}, Sizes={0, 1, 2, 3}, MaxLen=18, MaxDepth=5)
    cc = dict(c)
    if ctx.pid == "P06":
        cc["Chains"] = set()
        cc["MaxLen"] = ctx.pick(5, 6)
    r = ctx.tlc("Tail", consts=cc, invariants=["Emit"], properties=props, note="all behaviours up to the bound")
    ctx.replay("d_tail", ctx.sample(r.emitted, ctx.pick(15000, 400000)), label="BFS", timeout=2400)
    r = ctx.tlc("Tail", consts=s, invariants=["Emit"], simulate=ctx.pick(1500, 20000), depth=s["MaxLen"] + 1,
                note="long random behaviours")
    ctx.replay("d_tail", ctx.sample(r.emitted, ctx.pick(2500 if ctx.pid == "P06" else 10000, 60000)), label="simulation", timeout=2400)
