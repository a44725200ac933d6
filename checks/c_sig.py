"""P35: signatures, arities, bindings and type-checked partial application."""


def run(ctx):
    names = {"a", "b", "k", "j", "z", "p"}
    r = ctx.tlc("Sig", consts=dict(Mode="insp", MaxN=0, CallNames=set()), invariants=["Emit"], note="all signatures and kinds of callables")
    ctx.replay("d_sig", [e for e in r.emitted if len(e["sigs"]) == 1], label="inspection")
    ctx.replay("d_sig", ctx.sample([e for e in r.emitted if len(e["sigs"]) > 1], ctx.pick(3000, 40000)), label="inspection of generic functions")
    r = ctx.tlc("Sig", consts=dict(Mode="bind", MaxN=4, CallNames=names), invariants=["Emit", "Consistent"], note="all calls of all signatures")
    ctx.replay("d_sig", ctx.sample(r.emitted, ctx.pick(8000, 80000)), label="binding")
    r = ctx.tlc("Sig", consts=dict(Mode="part", MaxN=4, CallNames={"a", "b", "k", "z"}), invariants=["Emit"], simulate=ctx.pick(400, 6000), depth=6, note="type-checked partial application")
    good = [e for e in r.emitted if e["out"][0] == "ok"]
    ctx.replay("d_sig", ctx.sample(good, ctx.pick(6000, 60000)) + ctx.sample(r.emitted, ctx.pick(4000, 40000)), label="partial")
