"""P09: memoized functions."""
from .common import schedules


def run(ctx):
    r = ctx.tlc("Memo", raw_consts=dict(Fns="{1,2}", Keys="1..6", Styles="{0}", MaxLen=str(ctx.pick(3, 4))),
                invariants=["Emit", "AtMostOnce"], note="all call sequences, two functions, one style")
    ctx.replay("d_memo", ctx.sample(r.emitted, ctx.pick(1800, 25000)), label="BFS")
    r = ctx.tlc("Memo", raw_consts=dict(Fns="{1}", Keys="1..6", Styles="0..5", MaxLen="2"),
                invariants=["Emit", "AtMostOnce"], note="all pairs of calls in all styles")
    ctx.replay("d_memo", r.emitted, label="BFS styles")
    r = ctx.tlc("Memo", raw_consts=dict(Fns="{1,2}", Keys="1..6", Styles="0..5", MaxLen="14"),
                invariants=["Emit", "AtMostOnce"], simulate=ctx.pick(400, 8000), depth=15, note="long random call sequences")
    ctx.replay("d_memo", ctx.sample(r.emitted, ctx.pick(400, 8000)), label="simulation")
    base = []
    plans = [{"a": [[1, 0], [1, 0]], "b": [[1, 1]]}, {"a": [[2, 0], [4, 0]], "b": [[2, 1], [2, 0]]},
             {"a": [[3, 0]], "b": [[1, 0], [3, 0]]}, {"a": [[6, 0]], "b": [[5, 0]], "c": [[6, 0], [3, 0]]},
             {"a": [[4, 0], [1, 0]], "b": [[4, 0]], "c": [[2, 0]]}]
    for i, p in enumerate(plans):
        base.append(dict(shape=["ab", "star", "default3", "kw", "ab"][i], falsy=i, plan=p, preempt=[]))
        base.append(dict(shape=["method", "ab", "kwval", "ab", "star"][i], falsy=0, plan=p, preempt=[]))
    schedules(ctx, "d_memo", base, ctx.pick(250, 3000), ctx.pick(80, 2500), validate="Memo",
              raw_consts=dict(Fns="{}", Keys="{}", Styles="{}", MaxLen="0"))
