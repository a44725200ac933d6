"""P25: lexical scope of let and do."""
LETS = {"let", "letrec", "let2", "letseq2", "letrec2"}


def run(ctx):
    ctx.warm_macros()
    cases = []
    for forms, n in ((LETS | {"set", "pair", "thunk", "call"}, 500), (LETS | {"set", "lam", "comp", "pair", "thunk", "call"}, 400),
                     ({"let", "let2", "letrec", "set", "local", "do2", "do3", "do02", "delete", "pair", "thunk", "call"}, 900)):
        r = ctx.tlc("Scope", consts=dict(MaxSize=ctx.pick(11, 14), Forms=forms), invariants=["Emit"], simulate=ctx.pick(n * 12, n * 100), depth=30, note="expressions")
        cases += ctx.sample(r.emitted, ctx.pick(n, n * 12))
    ctx.replay("d_scope", cases, label="expressions with let and do", timeout=800)
    r = ctx.tlc("ScopeStmt", consts=dict(MaxLen=ctx.pick(5, 7), MaxInner=3), invariants=["Emit"], simulate=ctx.pick(5000, 60000), depth=24, note="decorated functions")
    ctx.replay("d_scopestmt", ctx.sample([c for c in r.emitted if any(c["r"])], ctx.pick(1000, 12000)), label="decorated functions", timeout=800)
