"""Replays behaviours of Ec.tla with real nested catch points / call_ec calls."""
from unpythonic import catch, throw, call_ec


class Mismatch(BaseException):
    pass


class End(BaseException):
    pass


class Boom(Exception):
    pass


class V:
    """Values used in a behaviour: step number -> Python object, falsy ones included."""
    def __getitem__(self, n):
        return {0: None, 2: 0, 3: (), 5: False}.get(n % 7, n)


VAL = V()


def replay(case):
    pos = 0
    pending = None
    ecs = {}
    trail = []      # ids of blocks whose finally clause ran for the pending step

    def arrive(at, k, id_, v):
        nonlocal pending
        n, st = pending
        pending = None
        got = {"k": k, "id": id_, "v": repr(v)}
        r = st["ret"]
        if got != dict(r, v=repr(VAL[r["v"]] if r["k"] == "value" else r["v"])) or at != st["at"]:
            raise Mismatch(f"step {n} {st['op']}({st['arg']}): control reached block {at} with {got}; specification: block {st['at']} with {st['ret']}")
        if len(stack) != st["depth"] or (stack[-1] if stack else 0) != at:
            raise Mismatch(f"step {n} {st['op']}: finally clauses left stack {stack}, specification depth {st['depth']}")

    stack = []

    def step():
        nonlocal pos, pending
        if pos >= len(case):
            raise End
        pos += 1
        pending = (pos, case[pos - 1])
        return pending

    def inside(n):
        stack.append(n)
        try:
            arrive(n, "in", n, 0)
            return body(n)
        finally:
            stack.pop()

    def body(me):
        while True:
            n, st = step()
            op, arg = st["op"], st["arg"]
            if op == "catch":
                tags = None if arg["all"] else (tuple(arg["tags"]) if len(arg["tags"]) > 1 or n % 2 else arg["tags"][0])
                if n % 2 and arg["cu"] and arg["all"]:
                    f = catch()
                else:
                    f = catch(tags, catch_untagged=arg["cu"])

                @f
                def blk():
                    return inside(n)
                v = blk()
                arrive(me, "value", n, v)
            elif op == "call_ec":
                @call_ec
                def v(ec):
                    ecs[n] = ec
                    return inside(n)
                arrive(me, "value", n, v)
            elif op == "try":
                try:
                    v = inside(n)
                except Exception as e:
                    if type(e) is not Boom:
                        raise Mismatch(f"step {pending}: a try block caught {type(e).__name__}: {e}")
                    arrive(me, "exc", n, e.args[0])
                else:
                    arrive(me, "value", n, v)
            elif op == "return":
                return VAL[n]
            elif op == "raise":
                raise Boom(n)
            elif op == "throw":
                tag = arg["tag"] or None
                if tag is None and arg["allow"] and n % 2:
                    throw(VAL[n])
                else:
                    throw(VAL[n], tag, allow_catchall=arg["allow"])
                raise Mismatch(f"step {n}: throw returned")
            elif op == "invoke":
                try:
                    ecs[arg](VAL[n])
                except RuntimeError:
                    arrive(me, "dead", arg, 0)
                else:
                    raise Mismatch(f"step {n}: ec returned")

    try:
        while True:
            try:
                body(0)
            except Boom as e:
                arrive(0, "exc", 0, e.args[0])
            except (Mismatch, End):
                raise
            except Exception as e:
                return f"step {pending}: unexpected {type(e).__name__} {e}"
            except BaseException as e:
                if type(e).__name__ == "CaseTimeout":
                    raise
                arrive(0, "escaped", 0, pending[0])
    except Mismatch as e:
        return str(e)
    except End:
        return None
