"""P42: nb and dbg."""


def run(ctx):
    ctx.warm_macros()
    modes = '{"nb", "nbpr", "dbg", "dbgpr", "plain"}'
    r = ctx.tlc("Notebook", raw_consts=dict(MaxStmts="1", Modes=modes, Sample="0"), invariants=["Emit"], properties=["Transparent"], note="all programs of one statement")
    ctx.replay("d_notebook", ctx.sample(r.emitted, ctx.pick(1000, 10 ** 6)), label="one statement", timeout=1200)
    for n in (3, 7):
        r = ctx.tlc("Notebook", raw_consts=dict(MaxStmts=str(n), Modes=modes, Sample="4"), invariants=["Emit"], simulate=ctx.pick(300, 5000), depth=n + 1, note=f"programs of {n} statements")
        ctx.replay("d_notebook", ctx.sample(r.emitted, ctx.pick(700, 15000)), label=f"{n} statements", timeout=1200)
