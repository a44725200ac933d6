"""P40: partitions of integers, fixed points."""


def run(ctx):
    inv = ["Sound", "Complete", "Emit"]
    r = ctx.tlc("Partition", raw_consts=dict(Ns="-1..6", Kinds='{"int", "tri", "custom"}', MaxSum="7"), invariants=inv, note="all limits and component sets")
    ctx.replay("d_numutil", r.emitted, label="small numbers")
    r = ctx.tlc("Partition", raw_consts=dict(Ns=ctx.pick("8..10", "7..13"), Kinds='{"int", "tri"}', MaxSum=ctx.pick("9", "11")), invariants=inv, note="larger numbers")
    ctx.replay("d_numutil", r.emitted, label="larger numbers")
    r = ctx.tlc("Fixpoint", raw_consts=dict(M=ctx.pick("3", "4"), Tols="{0, 1, 2}"), invariants=["Fixed", "Emit"], note="all functions")
    ctx.replay("d_numutil", ctx.sample(r.emitted, ctx.pick(4000, 100000)), label="fixed points")
