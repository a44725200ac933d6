"""P16: views."""
SL = "{<<0,99,99>>, <<99,99,-1>>, <<-3,99,99>>, <<1,-1,99>>, <<99,99,2>>, <<4,0,-2>>, <<99,-2,99>>, <<10,99,-3>>, <<2,2,1>>}"


def run(ctx):
    raw = dict(S1s=SL, S2s=SL, Assigns="{<<99,99,99>>, <<1,99,99>>, <<99,99,-2>>, <<0,1,99>>}")
    c = dict(BaseLen=4, MaxLen=6)
    few = "{<<-3,99,99>>, <<99,99,-2>>, <<1,-1,99>>}"
    r = ctx.tlc("Views", consts=dict(c, MaxHist=2), raw_consts=ctx.pick(dict(raw, S1s=few, S2s=few), raw), invariants=["EmitAll", "Nested"], properties=["Frame"], note="all pairs of operations")
    ctx.replay("d_views", ctx.sample(r.emitted, ctx.pick(2500, 60000)), label="two operations")
    for n in ctx.pick((0, 4), (0, 1, 2, 3, 4, 5)):
        r = ctx.tlc("Views", consts=dict(c, MaxHist=10, BaseLen=n), raw_consts=raw, invariants=["EmitAll"], simulate=ctx.pick(120, 4000), depth=11, note="long histories")
        ctx.replay("d_views", ctx.sample(r.emitted, ctx.pick(1200, 20000)), label="long histories")
