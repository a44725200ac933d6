"""P24: multi-shot continuations."""


def run(ctx):
    ctx.warm_macros()
    cases = []
    for feats, n in (({"none"}, 500), ({"k"}, 700)):
        r = ctx.tlc("Conts", consts=dict(MaxLen=3, Fuel=4, MaxScript=3, Features=feats), invariants=["Emit", "MultiShot"], simulate=ctx.pick(n * 4, n * 60), depth=20, note="programs with call_cc")
        cases += ctx.sample([dict(c, fuel=4) for c in r.emitted], ctx.pick(n, n * 20))
    ctx.replay("d_conts", cases, label="programs with call_cc", timeout=800)
