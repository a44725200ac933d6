"""P12: multiple dispatch."""
SIGS = ('{S(<<"A">>,FALSE,""), S(<<"B">>,FALSE,""), S(<<"int">>,FALSE,""), S(<<>>,FALSE,""), S(<<"Any","B">>,FALSE,""), S(<<"A","C">>,FALSE,""), S(<<"C","A">>,FALSE,""),'
        ' S(<<"BI","int">>,TRUE,""), S(<<"OB">>,FALSE,""), S(<<"A">>,FALSE,"int"), S(<<>>,FALSE,"B"), S(<<"Any">>,FALSE,""), S(<<"A","Any">>,TRUE,"")}')
CSIGS = '{S(<<"B">>,FALSE,""), S(<<"int","B">>,FALSE,""), S(<<"A","C">>,FALSE,""), S(<<"Any","Any">>,FALSE,""), S(<<"C","A","int">>,FALSE,""), S(<<"BI","int">>,TRUE,""), S(<<"OB">>,FALSE,"")}'
OSIGS = '{S(<<"A">>,FALSE,""), S(<<"int">>,FALSE,""), S(<<>>,FALSE,""), S(<<"B","int">>,FALSE,""), S(<<"Any">>,FALSE,""), S(<<"BI","D">>,TRUE,"")}'.replace('"D"', '"C"')

OSIGS2 = '{S(<<"A">>,FALSE,""), S(<<"int">>,FALSE,""), S(<<>>,FALSE,""), S(<<"Any">>,FALSE,"")}'


def run(ctx):
    r = ctx.tlc("Dispatch", raw_consts=dict(Sigs=SIGS, MaxReg=str(ctx.pick(2, 3)), Mode='"fn"', OSigs="{}", MaxP="0", Hier='"chain"'), invariants=["Emit"], properties=["Override"],
                note="all registration sequences; all calls with up to three arguments")
    ctx.replay("d_dispatch", ctx.sample(r.emitted, ctx.pick(200, 2400)), label="functions")
    r = ctx.tlc("Dispatch", raw_consts=dict(Sigs=SIGS, MaxReg="5", Mode='"fn"', OSigs="{}", MaxP="0", Hier='"chain"'), invariants=["Emit"], simulate=ctx.pick(40, 600), depth=6,
                note="longer registration sequences")
    ctx.replay("d_dispatch", ctx.sample([e for e in r.emitted if len(e["reg"]) >= 3], ctx.pick(160, 2000)), label="functions, long")
    for hier in ("chain", "diamond", "vee"):
        osigs, p = (OSIGS, ctx.pick(2, 3)) if hier == "chain" else (OSIGS2, 1)
        r = ctx.tlc("Dispatch", raw_consts=dict(Sigs="{}", MaxReg="0", Mode='"oop"', OSigs=osigs, MaxP=str(p), Hier=f'"{hier}"'), next="ONext", invariants=["OEmit"], note=f"methods and MRO: {hier}")
        ctx.replay("d_dispatch", ctx.sample(r.emitted, ctx.pick(400 if hier == "chain" else 250, 6000)), label=f"methods, {hier}")
    r = ctx.tlc("Dispatch", raw_consts=dict(Sigs=CSIGS, MaxReg=str(ctx.pick(3, 4)), Mode='"curry"', OSigs="{}", MaxP="0", Hier='"chain"'), invariants=["CEmit"], note="currying generics")
    ctx.replay("d_dispatch", ctx.sample(r.emitted, ctx.pick(250, 2500)), label="currying")
