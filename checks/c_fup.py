"""P17: functional update."""


def run(ctx):
    r = ctx.tlc("Fup", consts=dict(MaxN=ctx.pick(3, 5), Pairs=True, MaxMaps=3), raw_consts=dict(Steps="{NN, 1, 2, -1, -2, 3, -3}"), invariants=["Emit"], note="all updates")
    a = [e for e in r.emitted if e["c"]["f"] != "up"]
    b = [e for e in r.emitted if e["c"]["f"] == "up"]
    ctx.replay("d_fup", a, label="in_slice, frozendict")
    ctx.replay("d_fup", ctx.sample(b, ctx.pick(8000, 200000)), label="functional updates")
