"""P27: symbols and singletons."""
from .common import schedules


def run(ctx):
    c = dict(Syms={"a"}, Singles={"S1"}, Blobs=1)
    r = ctx.tlc("Intern", consts=dict(c, MaxHist=ctx.pick(4, 5)), raw_consts=dict(Slots="1..2"), invariants=["OneLive", "Identity", "EmitTable"], view="View", workers=1, note="every state, every operation")
    ctx.replay("d_intern", ctx.sample(r.emitted, ctx.pick(2500, 20000)), label="state tables")
    r = ctx.tlc("Intern", consts=dict(Syms={"a", "b", "c"}, Singles={"S1", "S2", "S3"}, Blobs=2, MaxHist=16), raw_consts=dict(Slots="1..3"), invariants=["OneLive", "Identity", "EmitHist"],
                simulate=ctx.pick(300, 5000), depth=17, note="long histories")
    ctx.replay("d_intern", ctx.sample(r.emitted, ctx.pick(3000, 40000)), label="random histories")
    plans = [{"x": [["new", k], ["drop", k], ["new", k]], "y": [["new", k], ["drop", k]], "z": [["load", k], ["drop", k], ["load", k]]} for k in ("a", "S1")]
    plans += [{"x": [["load", k]], "y": [["load", k]], "z": [["new", k]]} for k in ("a", "S1")]
    plans += [{"x": [["new", "a"], ["new", "b"], ["new", "a"]], "y": [["new", "b"], ["load", "a"]]}]
    plans += [{"x": [["load", "G"], ["drop", "G"], ["load", "G"]], "y": [["load", "G"], ["drop", "G"]], "z": [["load", "G"]]}]
    base = [dict(plan=p, preempt=[]) for p in plans]
    # at the granularity of lines: all combinations of three switches between two threads
    extra = [dict(plan={"x": x, "y": y}, lines=True, preempt=[[i, "y"], [j, "x"], [k, "y"]])
             for key in ("a", "S1", "G") for x, y in (([["load", key], ["drop", key]], [["load", key]]), ([["load", key]], [["new", key], ["drop", key]]), ([["new", key], ["drop", key], ["new", key]], [["new", key], ["drop", key]]))
             if key != "G" or "new" not in str((x, y))
             for i in range(1, 18) for j in range(i + 1, 24) for k in range(j + 1, 28)]
    schedules(ctx, "d_intern", base, ctx.pick(600, 5000), ctx.pick(300, 6000), validate="Intern", extra=extra,
              raw_consts=dict(Syms="{}", Singles="{}", Slots="{}", Blobs="0", MaxHist="0"))
