"""Replays Gtco.tla into gtco and gtrampolined."""
from unpythonic import gtco, gtrampolined


class Boom(Exception):
    pass


def build(g, log, variant):
    def body(i):
        nd = g[i - 1]
        for k in range(1, nd["ys"] + 1):
            try:
                got = yield [i, k]
            except Boom:
                if nd["catch"]:
                    log.append([i, k, "caught"])
                    continue
                log.append([i, k, "exit"])
                raise
            except GeneratorExit:
                log.append([i, k, "exit"])
                raise
            log.append([i, k, "None" if got is None else "sent"])
        e, to = nd["end"]["e"], nd["end"]["to"]
        if e == "val":
            return Val([i, 42])
        if e == "raise":
            raise Boom(i)
        if e == "list0":
            return [[], (), "", range(0)][variant]
        if e == "list2":
            items = [[i, 101], [i, 102]]
            return [items, tuple(items), iter(items), map(list, items)][variant]
        if e == "badlist":
            return map(lambda x: x if x is not None else 0 + None, [[i, 101], None])
        if e == "chain":
            return body(to)
        if e == "part":
            it = body(to)
            if g[to - 1]["ys"] == 2:
                next(it)
            return it
        if e == "tramp":
            return tramp(to)
    tramp = gtrampolined(body)
    return body, tramp


class Val:
    def __init__(self, v):
        self.v = v

    def __bool__(self):
        return False


def apply(it, op):
    try:
        if op == "next":
            r = next(it)
        elif op == "send":
            r = it.send(0)
        elif op == "throw":
            r = it.throw(Boom(99))
        else:
            it.close()
            return "closed", []
        return "yield", r
    except StopIteration as e:
        v = e.value
        return "stop", v.v if isinstance(v, Val) else ([0] if v is None else repr(v))
    except Boom as e:
        return "Boom", [e.args[0]]
    except TypeError:
        return "TypeError", []


def replay(case):
    for variant in range(4):
        log = []
        body, tramp = build(case["g"], log, variant)
        if variant % 2:
            t = tramp(1)
            it = iter(t)
        else:
            it = gtco(body(1))
        for n, e in enumerate(case["h"]):
            log.clear()
            kind, v = apply(it, e["o"])
            if [kind, v, log] != [e["kind"], e["v"], e["log"]]:
                return f"operation {n + 1} ({e['o']}): {[kind, v, log]}, specification {[e['kind'], e['v'], e['log']]}"
    if case["g"][0]["end"]["e"] in ("chain", "tramp") and not DONE:
        DONE.append(1)

        @gtrampolined
        def march(n):
            yield n
            return march(n - 1) if n else None
        if list(march(5000)) != list(range(5000, -1, -1)):
            return "a long chain"
    return None


DONE = []
