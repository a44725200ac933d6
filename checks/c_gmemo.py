"""P08: memoized generators."""
from .common import schedules


def plans(ctx):
    return [
        ("g", False, {"a": [[2, "stop", 4]], "b": [[2, "stop", 4]]}),
        ("g", False, {"a": [[2, "raise", 4]], "b": [[2, "raise", 4]]}),
        ("gdef", False, {"a": [[3, "stop", 2], [1, "stop", 2]], "b": [[3, "stop", 5]], "c": [[1, "stop", 2]]}),
        ("fi", False, {"a": [[2, "stop", 3]], "b": [[2, "stop", 3], [2, "raise", 1]]}),
        ("g", True, {"a": [[3, "stop", 4]], "b": [[3, "stop", 4]]}),
        ("i", False, {"a": [[2, "stop", 3]], "b": [[2, "stop", 3]]}) if False else
        ("g", False, {"a": [[0, "stop", 2]], "b": [[0, "stop", 2]], "c": [[1, "raise", 3]]}),
    ]


def run(ctx):
    keys = '{<<0,"stop">>, <<2,"stop">>, <<1,"raise">>}'
    r = ctx.tlc("GMemo", raw_consts=dict(Keys=keys, Consumers="1..3", MaxLen=str(ctx.pick(6, 8))),
                invariants=["Emit", "Covered"], properties=["OnlyForward"], note="all sequential behaviours up to the bound")
    ctx.replay("d_gmemo", ctx.sample(r.emitted, ctx.pick(6000, 60000)), label="BFS", timeout=2400)
    r = ctx.tlc("GMemo", raw_consts=dict(Keys='{<<0,"stop">>, <<3,"stop">>, <<4,"stop">>, <<2,"raise">>}', Consumers="1..4", MaxLen="24"),
                invariants=["Emit", "Covered"], simulate=ctx.pick(800, 10000), depth=25, note="long random behaviours")
    ctx.replay("d_gmemo", ctx.sample(r.emitted, ctx.pick(2000, 30000)), label="simulation", timeout=2400)
    # concurrent runs: every single pre-emption point (step, thread), and random combinations
    base = [dict(kind=k, selfref=s, plan=p, preempt=[]) for k, s, p in plans(ctx)]
    schedules(ctx, "d_gmemo", base, ctx.pick(700, 5000), ctx.pick(250, 6000), validate="GMemo",
              raw_consts=dict(Keys="{}", Consumers="{}", MaxLen="0"))
