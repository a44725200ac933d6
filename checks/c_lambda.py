"""P36: parameters as assignable variables; named, multi-expression and quick lambdas."""
ALL = {"set", "thunk", "thunk2", "call", "comp", "lam", "lamdef", "pair", "quick", "dict"}


def run(ctx):
    ctx.warm_macros()
    cases = []
    for forms, n in ((ALL, 700), ({"set", "lam", "lamdef", "comp"}, 500), ({"set", "thunk", "thunk2", "call"}, 400), ({"set", "thunk", "lam", "dict"}, 500)):
        r = ctx.tlc("Envify", consts=dict(MaxSize=ctx.pick(12, 15), MaxBody=3, Forms=forms), invariants=["Emit"], simulate=ctx.pick(n * 10, n * 80), depth=30, note="programs")
        cases += ctx.sample(r.emitted, ctx.pick(n, n * 10))
    ctx.replay("d_envify", cases, label="programs", timeout=800)
