"""P23: tail positions under the macros."""


def run(ctx):
    ctx.warm_macros()
    cases = []
    for forms, leaves, n in (({"if", "and", "or"}, set(), 300), ({"if", "and", "or", "and3", "or3", "let", "do", "dol", "cond", "cond2"}, set(), 600), ({"if", "and", "or", "aif", "let", "do", "cond"}, {"it"}, 400)):
        r = ctx.tlc("TailMac", consts=dict(MaxSize=ctx.pick(9, 12), MaxN=4, Forms=forms, Leaves=leaves or {"none"}), invariants=["Emit"], simulate=ctx.pick(n * 6, n * 60), depth=40, note="programs")
        cases += ctx.sample(r.emitted, ctx.pick(n, n * 15))
    ctx.replay("d_tailmac", cases, label="programs with macros", timeout=800)
