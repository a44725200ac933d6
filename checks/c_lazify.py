"""P26: call by need."""
BASE = {"if", "add", "op", "k", "s", "myif", "dup", "catch", "lam", "let"}


def run(ctx):
    ctx.warm_macros()
    cases = []
    for forms, n in ((BASE | {"sw", "app", "and", "or", "not", "va", "kwf", "do"}, 250), (BASE | {"let2", "letseq", "letrec", "app", "sw"}, 200),
                     ({"pair", "pr", "tot", "fst", "snd", "lamt", "lett", "ift", "kt", "catcht", "catch", "k", "add", "dup", "let"}, 300)):
        r = ctx.tlc("Lazify", consts=dict(MaxSize=ctx.pick(9, 12), Forms=forms), invariants=["Emit", "AllSettled"], simulate=ctx.pick(n * 15, n * 150), depth=24, note="programs")
        cases += ctx.sample(r.emitted, ctx.pick(n, n * 12))
    ctx.replay("d_lazify", cases, label="programs under lazify", timeout=800)
