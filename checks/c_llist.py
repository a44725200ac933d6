"""P18: linked lists."""


def run(ctx):
    r = ctx.tlc("LList", consts=dict(Depth=2, MaxLists=ctx.pick(2, 3), MaxLen=ctx.pick(3, 3)), invariants=["Emit"], note="all trees of depth 2, all lists")
    ctx.replay("d_llist", ctx.sample(r.emitted, ctx.pick(3000, 40000)), label="trees and lists")
    r = ctx.tlc("LList", consts=dict(Depth=3, MaxLists=1, MaxLen=0), invariants=["Emit"], simulate=ctx.pick(2400, 24000), depth=1, note="deeper trees")
    ctx.replay("d_llist", ctx.sample(r.emitted, ctx.pick(2000, 20000)), label="deeper trees")
