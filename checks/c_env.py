"""P14: environments."""


def run(ctx):
    for cls in ("env", "assignonce"):
        c = dict(Ids={"a", "b"}, Vals={"v0", "v1", "v2"}, Class=cls)
        inv = ["OnlyIdentifiers", "NoDuplicates", "ErrorsChangeNothing", "AssignOnce"]
        r = ctx.tlc("Env", consts=dict(c, MaxHist=6), invariants=inv + ["EmitTable"], view="View", properties=["FrozenNames"], workers=1,
                    note=f"{cls}: every state, every operation")
        ctx.replay("d_env", r.emitted, label=f"{cls}: state tables")
        r = ctx.tlc("Env", consts=dict(c, MaxHist=12), invariants=["EmitHist"], simulate=ctx.pick(40, 800), depth=13, note=f"{cls}: long histories")
        ctx.replay("d_env", ctx.sample(r.emitted, ctx.pick(1500, 20000)), label=f"{cls}: random histories")
