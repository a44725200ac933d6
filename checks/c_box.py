"""P32: boxes, shims and mogrify."""


def run(ctx):
    cases = []
    for local in (False, True):
        for fb in (False, True):
            c = dict(Threads={"t1", "t2"} if local else {"t1"}, Local=local, Fallback=fb)
            r = ctx.tlc("Box", consts=dict(c, MaxHist=ctx.pick(3, 4)), invariants=["EmitTable"], view="View", workers=1, note="every state, every operation")
            cases += ctx.sample(r.emitted, ctx.pick(150, 4000))
            r = ctx.tlc("Box", consts=dict(c, Threads={"t1", "t2", "t3"}, MaxHist=20), invariants=["EmitHist"], properties=["Isolated"], simulate=ctx.pick(300, 6000), depth=21, note="long histories")
            cases += ctx.sample(r.emitted, ctx.pick(200, 10000))
    ctx.replay("d_box", cases, label="histories")
    r = ctx.tlc("Mogrify", consts=dict(MaxOps=3, MaxStack=2), invariants=["InPlace", "EmitCase"], note="all small containers")
    ctx.replay("d_mogrify", ctx.sample(r.emitted, ctx.pick(3000, 10 ** 6)), label="small containers")
    r = ctx.tlc("Mogrify", consts=dict(MaxOps=14, MaxStack=4), invariants=["InPlace", "EmitCase"], simulate=ctx.pick(10000, 200000), depth=16, note="random nested containers")
    ctx.replay("d_mogrify", ctx.sample(r.emitted, ctx.pick(8000, 150000)), label="nested containers")
