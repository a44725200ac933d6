from seeds_b import MAC
SEEDS = []


def S(id, property, edits, demo, needs, breaks, files=None):
    SEEDS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks, files=files or {}))


def SM(id, property, edits, body, needs, breaks):
    d, f = MAC(body)
    S(id, property, edits, d, needs, breaks, f)


S("butlast-ahead", "P19",
  [("unpythonic/it.py", """    while True:
        yield q.popleft()
        try:
            q.append(next(it))
        except StopIteration:
            return
""", """    while True:
        x = q.popleft()
        try:
            q.append(next(it))
        except StopIteration:
            yield x
            return
        yield x
""")], """
from unpythonic import butlastn
n = []
def g():
    for x in range(10): n.append(x); yield x
it = butlastn(2, g())
assert next(it) == 0 and n == [0, 1, 2], n
""", "an input whose next item is not available yet", "butlast reads an item more than the delivered one requires")

S("do0-late", "P15",
  [("unpythonic/seq.py", """        do0items = [first,
                    assign(_do0_result=lambda e: e[k])]
""", """        do0items = [first]
        result = lambda e: e[k]
"""), ("unpythonic/seq.py", """        do0items = [assign(_do0_result=first)]
""", """        do0items = [assign(_do0_result=first)]
        result = lambda e: e._do0_result
"""), ("unpythonic/seq.py", """    do0items.append(lambda e: e._do0_result)  # return value
""", """    do0items.append(result)  # return value
""")], """
from unpythonic import do0, assign
assert do0(assign(x=1), lambda e: e.set("x", 5)) == 1
""", "a do0 whose first item is an assignment to a name that a later item changes", "do0 gives the later value of the name")

S("tryf-else-inside", "P30",
  [("unpythonic/excutil.py", """        ret = body()
    except BaseException as exception:""", """        ret = body()
        if elsef is not None:
            ret = elsef()
    except BaseException as exception:"""), ("unpythonic/excutil.py", """    else:
        if elsef is not None:
            return elsef()
        return ret
    finally:""", """    else:
        return ret
    finally:""")], """
from unpythonic import tryf, raisef
try:
    r = tryf(lambda: 1, (ValueError, lambda: "handled"), elsef=lambda: raisef(ValueError("in else")))
except ValueError:
    pass
else:
    assert False, r
""", "an else-function that raises an exception for which there is a handler", "the handlers also handle exceptions of the else-function")

SM("autoref-none", "P37",
   [("unpythonic/syntax/autoref.py", """        if hasattr(o, attrname):
            return True, force1(getattr(o, attrname))
""", """        value = getattr(o, attrname, None)
        if value is not None:
            return True, force1(value)
""")], """
from unpythonic.syntax import macros, autoref
from unpythonic.env import env
e = env(a=None)
a = 42
with autoref[e]:
    assert a is None, a
""", "an attribute whose value is None", "the name falls through to the variable, or to an outer object")

SM("letsyntax-order", "P38",
   [("unpythonic/syntax/letsyntax.py", """    body = _substitute_templates(templates, body)
    body = _substitute_barenames(barenames, body)
    return body
""", """    body = _substitute_barenames(barenames, body)
    body = _substitute_templates(templates, body)
    return body
""")], """
from unpythonic.syntax import macros, let_syntax
g = lambda x: 1000
f = lambda x: ("function", x)
y = 5
r = let_syntax((f(x), (x + 1)), (b, f(y)))[b]
assert r == ("function", 5), r
""", "a bare name whose definition contains a use of a template", "the template is expanded in the definition of the bare name")

SM("autocurry-kwonly", "P39",
   [("unpythonic/syntax/autocurry.py", """                if not any(isx(item, _iscurry) for item in tree.decorator_list):  # no manual curry already""",
     """                hasparams = tree.args.args or tree.args.vararg
                if hasparams and not any(isx(item, _iscurry) for item in tree.decorator_list):  # no manual curry already""")], """
from unpythonic.syntax import macros, autocurry
with autocurry:
    def f(*, a, b):
        return (a, b)
g = f(a=1)
assert g(b=2) == (1, 2)
""", "a function with keyword-only parameters only, called outside the block in two steps", "a function without positional parameters is not curried")
