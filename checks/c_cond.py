"""P03: conditions, handlers and restarts. P04: the error protocols and conversion."""

PROPS = ["NoUnwindBeforeDecision", "RestartUnwindsExactly", "ErrorNeverReturns", "UnhandledSignalReturns", "ThreadLocal"]


def run(ctx):
    one = '{<<{"A"}>>, <<{"B"}>>, <<{"A","C"}>>}'
    two = '{<<{"A"}>>, <<{"B"}, {"A"}>>, <<{"A"}, {"B"}>>, <<{"A","C"}>>, <<{"C"}, {"D"}>>, <<{"E"}>>, <<{"D"}>>}'
    if ctx.pid == "P03":
        bfs = dict(Threads='{"m"}', Types='{"A","B"}', Protos='{"signal","error"}', HSpecs='{<<{"A"}>>, <<{"B"}, {"A"}>>}',
                   RNames='{"p"}', Maps="{}", MaxLen=str(ctx.pick(4, 5)), MaxDepth="7")
        sim = [dict(Threads='{"m"}', Types='{"A","B","C","D","E"}', Protos='{"signal","error"}', HSpecs=two,
                    RNames='{"p","q"}', Maps="{}", MaxLen="22", MaxDepth="14"),
               dict(Threads='{"m","t"}', Types='{"A","B","C"}', Protos='{"signal","error"}', HSpecs=one,
                    RNames='{"p","q"}', Maps="{}", MaxLen="24", MaxDepth="10")]
    else:
        maps = '{<<<<"A","C">>>>, <<<<"B","D">>, <<"A","C">>>>, <<<<"A","D">>, <<"B","C">>>>}'
        bfs = dict(Threads='{"m"}', Types='{"A"}', Protos='{"signal","cerror","warn","error"}', HSpecs='{<<{"A"}>>, <<{"C"}>>}',
                   RNames='{"p"}', Maps='{<<<<"A","C">>>>}', MaxLen=str(ctx.pick(4, 5)), MaxDepth="7")
        sim = [dict(Threads='{"m"}', Types='{"A","B","C","D"}', Protos='{"signal","cerror","warn","error"}', HSpecs=two,
                    RNames='{"p"}', Maps=maps, MaxLen="20", MaxDepth="14"),
               dict(Threads='{"m"}', Types='{"A","B"}', Protos='{"cerror","warn"}', HSpecs='{<<{"A"}>>, <<{"C"}, {"D"}>>}',
                    RNames='{"p"}', Maps=maps, MaxLen="14", MaxDepth="14")]
    r = ctx.tlc("Cond", raw_consts=bfs, invariants=["Emit"], properties=PROPS, note="all behaviours up to the bound")
    cases = r.emitted
    cap = ctx.pick(12000, 400000)
    cases = ctx.sample(cases, cap)
    ctx.replay("d_cond", cases, label="BFS", timeout=ctx.pick(240, 2400))
    for s in sim:
        r = ctx.tlc("Cond", raw_consts=s, invariants=["Emit"], simulate=ctx.pick(600, 20000), depth=int(s["MaxLen"]) + 1, note="long random behaviours")
        ctx.replay("d_cond", ctx.sample(r.emitted, ctx.pick(5000, 150000)), label="simulation", timeout=ctx.pick(240, 2400))
