"""P22: the message protocol."""


def run(ctx):
    r = ctx.tlc("Msg", consts=dict(MaxMsgs=1, AllChunks=False, Cuts=ctx.pick({0, 2}, {0, 1, 2, 4})), invariants=["Inv", "Emit"], note="one message, junk around it, fixed chunk patterns")
    cases = ctx.sample(r.emitted, ctx.pick(4000, 40000))
    r = ctx.tlc("Msg", consts=dict(MaxMsgs=3, AllChunks=False, Cuts={0, 1, 3}), invariants=["Inv", "Emit"], simulate=ctx.pick(4000, 60000), depth=100, note="several messages")
    cases += ctx.sample(r.emitted, ctx.pick(3000, 50000))
    r = ctx.tlc("Msg", consts=dict(MaxMsgs=2, AllChunks=True, Cuts={0, 2}), invariants=["Inv", "Emit"], simulate=ctx.pick(3000, 60000), depth=120, note="any chunk sizes")
    cases += ctx.sample(r.emitted, ctx.pick(3000, 50000))
    ctx.replay("d_msg", cases, label="streams in chunks")
