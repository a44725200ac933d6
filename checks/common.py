def schedules(ctx, driver, base, single_cap, multi, *, validate, raw_consts, label="scheduled runs", extra=()):
    """Run every base case under single pre-emptions at every step (sampled above the cap) and under random
    combinations, and validate the recorded traces against the specification."""
    res, _ = ctx.drive(driver, base, mode="record", procs=8)
    cases = list(base)
    for b, r0 in zip(base, res):
        steps = (r0 or {}).get("steps", 300)
        names = sorted(b["plan"])
        single = [[[s, t]] for s in range(1, steps + 1) for t in names[1:]]
        if len(single) > single_cap:
            single = ctx.rng.sample(single, single_cap)
        many = [sorted([ctx.rng.randint(1, steps), ctx.rng.choice(names)] for _ in range(ctx.rng.randint(2, 5)))
                for _ in range(multi)]
        cases += [dict(b, preempt=p) for p in single + many]
    cases += extra
    traces = ctx.record(driver, cases, label=label, timeout=2400)
    uniq = list({str(t): t for t in traces}.values())
    ctx.parts.append({"scheduled_runs": len(traces), "distinct_traces": len(uniq)})
    ctx.validate(validate, uniq, raw_consts=raw_consts, driver=driver, label="recorded traces", per_batch=2000)
