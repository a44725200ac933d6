"""The list of properties. `python tools/gen.py` writes properties.jsonl and MANIFEST.json from it."""
PROPS = []


def P(id, title, statement, over, text, why, files, mech, *, state=(), observe=(), note="", bounds="", spec="", na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                      state=state, observe=observe, note=note, bounds=bounds, spec=spec, na=na))


P("P01", "Dynamic variables: a binding is visible exactly during its block",
  "A dynamic variable introduced by a let block is visible, with the innermost binding winning, exactly from entering to leaving that block, "
  "however it is left (normally or by an exception through any number of blocks); defaults show through where nothing is bound. "
  "Assignment changes only the nearest enclosing binding, a mass update is all-or-nothing, and rebinding an unbound variable fails without effect. "
  "All ways of looking (attribute, subscript, membership, iteration, length, get, live view taken earlier) agree.",
  ["histories", "inputs"], "every sequence of entering/leaving let blocks, exceptions, assignments, mass updates and default definitions",
  "the tests run a few fixed nestings; the guarantee is about every interleaving of scope entry, unwinding and mutation",
  ["unpythonic/dynassign.py"],
  [("scope stack push/pop", "unpythonic/dynassign.py:_EnvBlock"), ("resolution", "unpythonic/dynassign.py:_Dyn._resolve"),
   ("live view refresh", "unpythonic/dynassign.py:_DynLiveView")],
  state=[("scope stack", "innermost binding last", "unpythonic/dynassign.py:_mainthread_stack"), ("defaults", "make_dynvar", "unpythonic/dynassign.py:_global_dynvars")],
  observe=["dyn.<name>", "dyn.asdict()", "dyn.update", "make_dynvar"], spec="Dyn")

P("P02", "Dynamic variables: threads start from a copy and stay isolated",
  "A new thread starts with a copy of the main thread's dynamic bindings as they are at one instant when it first uses them (never half of a mass update); after that, bindings made, "
  "changed or removed in one thread are never seen by another, while defaults are shared by all threads.",
  ["histories", "schedules"], "every interleaving of scope operations by several threads",
  "thread isolation depends on the interleaving; the tests start one thread and compare one value",
  ["unpythonic/dynassign.py"], [("thread-local stacks", "unpythonic/dynassign.py:_getstack")],
  state=[("per-thread stack", "thread-local list of scopes", "unpythonic/dynassign.py:_L")], observe=["dyn.<name> in each thread"], spec="Dyn")

P("P03", "Conditions: signalling never unwinds, a restart resumes exactly at its block",
  "Signalling a condition runs the handlers in scope whose type matches, innermost block first and in the order written within a block, with the signalled "
  "instance, while the signalling code is still in progress; if all decline, signal returns that instance and error raises, chained to it. "
  "Invoking a restart resumes right after the innermost block that offers that name (or the very block of a restart object looked up earlier), with the value "
  "of the restart called with the given arguments, leaving everything outside untouched; scopes of handlers and restarts follow block nesting per thread.",
  ["histories", "programs", "schedules"], "every nesting and interleaving of handler, restart and try blocks, signals (also from inside handlers), declines, invocations and exceptions, in one or two threads",
  "the tests exercise about a dozen fixed shapes; nesting of blocks inside handlers, signals inside handlers and unwinding through all of them is combinatorial",
  ["unpythonic/conditions.py"], [("handler search", "unpythonic/conditions.py:_find_handlers"), ("restart unwinding", "unpythonic/conditions.py:restarts"),
                                 ("scope stacks", "unpythonic/conditions.py:_Stacked")],
  observe=["signal", "error", "handlers", "restarts", "with_restarts", "invoke", "find_restart", "available_restarts", "available_handlers"], spec="Cond")

P("P04", "Conditions: error protocols (error, cerror, warn) and type conversion",
  "error never returns normally; cerror returns only when told to proceed, warn emits exactly one warning unless muffled or handled; an unhandled error or cerror raises ControlError "
  "chained to the condition. Inside a resignal block, a signal of a mapped type is replaced by the first matching target type, sent with the same protocol and chained to the "
  "original; proceed or muffle given to the converted signal take effect for the original.",
  ["histories", "programs"], "every combination of protocol, handler scopes, conversions and restarts, including signals from inside handlers",
  "the tests check one or two cases per protocol; interactions (proceed through a conversion, muffle in nested warns, declines) are not sampled",
  ["unpythonic/conditions.py"], [("protocols", "unpythonic/conditions.py:error, cerror, warn"), ("conversion", "unpythonic/conditions.py:_resignal_handler")],
  observe=["error", "cerror", "warn", "resignal", "resignal_in", "proceed", "muffle"], spec="Cond")

P("P05", "Escape continuations reach exactly their own catch point",
  "A throw ends the innermost active catch point that accepts it according to the documented table of tags and catch-alls, making the thrown value its result, and passes "
  "through all others; an escape continuation ends exactly its own call_ec, whatever catch points lie between, and fails with RuntimeError, transferring no control, once that "
  "call has ended in any way. Escapes pass through ordinary exception handlers and run the finally clauses of exactly the blocks they leave.",
  ["histories", "programs"], "every nesting of catch points, call_ec calls and try blocks, with throws and first-class escapes from anywhere, before and after they are valid",
  "the tests cover the table cell by cell with one catch point; nesting and the life time of escapes are not",
  ["unpythonic/ec.py"], [("catch condition", "unpythonic/ec.py:catch"), ("validity and unique tag", "unpythonic/ec.py:call_ec")],
  observe=["catch", "throw", "call_ec"], spec="Ec")

P("P06", "Tail calls run in constant stack and deliver the plain call's result",
  "A chain of jumps of any length, among decorated and undecorated functions, runs each target with exactly the arguments given, uses Python stack independent of the "
  "length of the chain, and delivers the final value (or exception) to whoever started the chain; ordinary calls made on the way nest and return as usual.",
  ["histories", "programs", "inputs"], "every interleaving of jumps, ordinary calls, returns and exceptions, and chains beyond the recursion limit",
  "the tests run a handful of fixed recursive functions",
  ["unpythonic/tco.py"], [("trampoline", "unpythonic/tco.py:trampolined"), ("stripping of trampolines", "unpythonic/tco.py:_jump")],
  observe=["trampolined", "jump"], spec="Tail")

P("P07", "Functional loops: iteration, accumulator, continue and break",
  "A functional loop calls its body once per iteration with exactly the values given to the loop function (defaults where none are given), over an iterable with each element in "
  "order and the accumulator last given; it ends with the body's value, or with the accumulator when the iterable is exhausted (immediately if empty), in constant stack; an exception raised by the iterable or the body propagates. "
  "Continue keeps the accumulator, break ends exactly its own loop with the given value from anywhere inside, including nested loops and calls.",
  ["histories", "programs"], "every interleaving of loop, continue, break, return, exceptions, nested loops and tail calls",
  "the tests run a few fixed loops; nested breaks, extra arguments with defaults and falsy accumulators are combinatorial",
  ["unpythonic/fploop.py"], [("loop function", "unpythonic/fploop.py:looped_over, breakably_looped_over")],
  observe=["looped", "breakably_looped", "looped_over", "breakably_looped_over"], spec="Tail")

P("P08", "Memoized generators: one source, every consumer sees it from the start",
  "For each set of argument values, a memoized generator function (gmemoize, fimemoize, imemoize) starts its underlying source at most once and computes each of its items exactly once, "
  "on first demand, whatever the number of consumers, how the arguments were passed, and however threads interleave. Every consumer receives the items from the first one, in order, "
  "then the end, or the same exception instance, that the source ended with; length, subscripts and slices show exactly what was computed so far, raising that exception where they reach it.",
  ["histories", "schedules"], "every interleaving of creating and advancing consumers, in one or more threads, over finite sources that end or raise",
  "the tests advance one or two consumers sequentially; interleavings and thread schedules are unbounded",
  ["unpythonic/gmemo.py"], [("shared memo and lock", "unpythonic/gmemo.py:_MemoizedGenerator.__next__"), ("one source per arguments", "unpythonic/gmemo.py:gmemoize")],
  state=[("memo", "items computed so far", "unpythonic/gmemo.py:_MemoizedGenerator.memo")], observe=["next()", "len()", "subscript"], spec="GMemo",
  bounds="sequential behaviours replayed in the real code; runs of 2-3 real threads under a deterministic scheduler (pre-emption at bytecode level) recorded and validated against the specification")

P("P09", "Memoized functions: one computation per argument binding, same result for all",
  "A memoized function computes the result for each set of parameter bindings at most once, whether the arguments were passed by position, by name or by default, and "
  "whichever thread asks first (also when it calls itself recursively); every call, including concurrent ones, delivers that same object, or raises that same exception instance. "
  "Different bindings, and different memoized functions, never share results.",
  ["histories", "schedules", "inputs"], "every sequence of calls in every passing style, recursion, exceptions, and every thread interleaving of concurrent calls",
  "the tests make a few calls and run one stress loop; schedules and passing styles are not enumerated",
  ["unpythonic/fun.py", "unpythonic/arity.py"], [("memo and lock", "unpythonic/fun.py:memoize"), ("canonical bindings", "unpythonic/arity.py:tuplify_bindings")],
  observe=["memoize"], spec="Memo",
  bounds="sequential behaviours replayed in the real code; runs of 2-3 real threads under a deterministic scheduler (pre-emption at bytecode level) recorded and validated against the specification")

P("P10", "Currying collects arguments over any steps and calls once all are bound",
  "A curried function collects arguments over any number of steps, by position or by name, binding them as Python does, and calls the function exactly once, at the first step at "
  "which every parameter without a default is bound; partially applied functions can be reused and branched without affecting each other. "
  "Arguments the function cannot take are passed on: to the function it returns, if it returns one, else (after its return values) to the surrounding curry context, else TypeError. "
  "A conflicting binding is a TypeError without a call; currying a generic function or method waits while some multimethod can still match, calls the newest one that the collected arguments fit (one without arguments left over first), and is a TypeError as soon as none can.",
  ["inputs", "histories"], "every split of positional and named arguments into steps, over functions with any kinds of parameters, structured return values and returned functions",
  "the tests check a few splits; the number of splits, parameter kinds and passthrough combinations is combinatorial",
  ["unpythonic/fun.py", "unpythonic/arity.py"], [("action decision", "unpythonic/fun.py:_decide_curry_action"), ("binding", "unpythonic/arity.py:_bind"), ("passthrough", "unpythonic/fun.py:curry")],
  observe=["curry", "partial"], spec="Curry, GCurry")

P("P11", "Composition and pipes apply functions one after another over Values",
  "A composed function, in either direction and in all variants, and the corresponding pipe (pipe, pipec, piped, lazy_piped), apply their functions one after another, each exactly once, "
  "unpacking a Values into positional and named arguments and passing anything else as one argument. Curried chains pass extra arguments on to the next function, and only the last "
  "may not leave any over; lazy pipes run nothing until exited, and pipes are not changed by extending them. Argument combinators (flip, rotate, tokth, to, apply, identity, const, andf, orf, notf) "
  "deliver exactly the documented rearrangement, application or short-circuit.",
  ["inputs", "programs"], "every chain of functions with any parameter kinds and return values, and any initial arguments",
  "the tests check a few chains of two or three one-argument functions",
  ["unpythonic/fun.py", "unpythonic/seq.py", "unpythonic/funutil.py"], [("composition", "unpythonic/fun.py:_make_compose"), ("pipes", "unpythonic/seq.py:pipe, piped, lazy_piped")],
  observe=["composel", "composer", "composelc", "composerc", "pipe", "pipec", "piped", "lazy_piped", "Values"], spec="Curry")

P("P12", "Multiple dispatch calls the newest multimethod that accepts the arguments",
  "A call to a generic function runs exactly the most recently registered multimethod whose signature accepts the arguments: in number, in names, and in the run-time types of all of them, "
  "subclasses, unions and varargs included; if there is none it is a TypeError and nothing runs. For methods, the classes of the method resolution order are tried in order, whatever the instance's truth value. "
  "A single-signature typed function is the special case of one multimethod, and currying a generic function prefers an exact match, then a match with arguments left over, then a partial one.",
  ["histories", "inputs"], "every order of registering multimethods on functions and class hierarchies, and every tuple of arguments",
  "the tests register a few multimethods and call them with a few values; which one is chosen depends on the whole registry and the whole argument tuple",
  ["unpythonic/dispatch.py", "unpythonic/typecheck.py", "unpythonic/fun.py"],
  [("multimethod choice", "unpythonic/dispatch.py:_resolve_multimethod"), ("listing by MRO", "unpythonic/dispatch.py:_list_multimethods"), ("registration", "unpythonic/dispatch.py:_register_generic")],
  state=[("method registry", "multimethods in order of registration", "unpythonic/dispatch.py:_method_registry")],
  observe=["@generic", "@augment", "@typed", "curry of a generic"], spec="Dispatch")

P("P13", "Run-time type checks decide structurally, for every element",
  "isoftype(value, T) is True exactly when the value matches the type specification structurally: every element of a collection against the element type, tuples also in length, mappings and views in keys and values, "
  "unions if any alternative matches, concrete classes exactly as isinstance. An empty collection matches no parametric collection type, because it has no element type, but it is an instance of its own class.",
  ["inputs"], "every value against every supported type specification, nested",
  "the tests sample a few values per constructor; the guarantee is the agreement of two recursive structures of any shape",
  ["unpythonic/typecheck.py"], [("structural match", "unpythonic/typecheck.py:isoftype")], observe=["isoftype"], spec="TypeOf")

P("P14", "Environments keep their names: frozen once finalized, assigned once if so",
  "An environment maps identifiers to values, in order of definition, and attribute access, subscripting, the mapping methods, equality, copying and pickling all agree on its contents. "
  "Once finalized, no operation adds or removes a name (rebinding works), until leaving a with block forgets all; in an assign-once environment only set and << rebind a name. "
  "Whatever way is used to bind, names that are not identifiers or that the environment reserves are refused, and a refused operation changes nothing.",
  ["histories"], "every sequence of binding, rebinding, deleting, updating, finalizing and reading, on both classes",
  "there are some twenty operations that can each violate the invariant; the tests try some of them in one state each",
  ["unpythonic/env.py", "unpythonic/assignonce.py"], [("guards", "unpythonic/env.py:env.__setattr__"), ("mapping methods", "unpythonic/env.py:env.update, setdefault, pop"), ("assign-once", "unpythonic/assignonce.py:assignonce")],
  state=[("bindings", "ordered name to value map", "unpythonic/env.py:env._env"), ("finalized flag", "no names may be added or removed", "unpythonic/env.py:env._finalized")],
  observe=["env", "assignonce"], spec="Env")

P("P15", "let, letrec, do and begin evaluate in order, in their own environment",
  "let binds values as given; letrec and do evaluate each callable initializer or item once, in order, with exactly the earlier names visible, and the body sees and can rebind, but not extend, the names; "
  "a decorated (d) form binds once and keeps its environment between calls, a block (b) form runs once and leaves its result. do gives the value of its last item, do0 of its first, and begin and the lazy variants likewise, "
  "each evaluating everything once in order. A name read before it is bound, or bound twice, is an AttributeError.",
  ["programs"], "every small program of bindings, items, reads and rebinds, in both the keyword and the ordered flavour",
  "the tests run fixed examples; evaluation order and visibility are claims about every program",
  ["unpythonic/let.py", "unpythonic/lispylet.py", "unpythonic/seq.py"], [("binding", "unpythonic/let.py:_let, unpythonic/lispylet.py:_let"), ("do items", "unpythonic/seq.py:do, do0")],
  observe=["let", "letrec", "dlet", "dletrec", "blet", "bletrec", "do", "do0", "begin", "begin0", "lazy_begin", "pipe"], spec="LetDo")

P("P16", "Views stay live: reading and writing through them is reading the sequence",
  "A view (view, roview), of any slice and nested to any depth, always shows what slicing the underlying sequence at this moment would give, in its items, length, iteration, reversal, membership, search and comparison, "
  "also after the underlying sequence has been changed or resized. Writing through a writable view writes exactly the elements the slice selects; a read-only view, and a length mismatch, refuse without effect.",
  ["histories", "inputs"], "every interleaving of making views of views with any slices, writes through any of them, and mutation and resizing of the underlying sequence",
  "the tests take a few views of a few lists; index arithmetic through nested slices has errors only at particular combinations of bounds, steps and lengths",
  ["unpythonic/collections.py"], [("index translation", "unpythonic/collections.py:_StrReprEqMixin, roview, view"), ("slice to range", "unpythonic/collections.py:_canonize_slice, _make_negidx_converter")],
  state=[("underlying sequence", "shared by all views", "unpythonic/collections.py:roview.seq"), ("slice", "kept symbolic", "unpythonic/collections.py:roview.slice")],
  observe=["view", "roview"], spec="Views")

P("P17", "Functional update returns a new sequence and leaves the original as it was",
  "fupdate, fup, ShadowedSequence and frozendict give a result that equals copying the original and assigning the given indices, slices or keys in order, of the same type, and never change the original; later "
  "specifications win over earlier ones, infinite replacement inputs are read only as needed, and an index or key that is out of range, or too few replacement items, is an error. Equal frozendicts have equal hashes, whatever the order of their keys.",
  ["inputs"], "every sequence or mapping, every combination of index and slice specifications (any sign of bounds and step), and replacement values",
  "the tests update a few indices; correctness at every combination of bounds and steps is combinatorial",
  ["unpythonic/fup.py", "unpythonic/collections.py", "unpythonic/slicing.py"], [("update", "unpythonic/fup.py:fupdate"), ("shadowing", "unpythonic/collections.py:ShadowedSequence"), ("membership", "unpythonic/collections.py:in_slice, index_in_slice")],
  observe=["fupdate", "fup(...)[...] << ...", "ShadowedSequence", "frozendict"], spec="Fup")

P("P18", "Linked lists: construction, iteration, access and conversion agree",
  "Cons cells are immutable and compare and hash by structure; llist/ll build the list of exactly the given items, and iteration as a linked list or binary tree, reversal, append, map, zip, member, lookups by "
  "index and car/cdr compositions all agree with the same operation on the plain sequence or tree. Improper structures are refused by linked-list iteration, and nil is a singleton that is its own end.",
  ["inputs"], "every cons structure of bounded size (proper, improper, trees) and every operation",
  "the tests use a few small lists and trees; iteration strategies disagree only on particular shapes",
  ["unpythonic/llist.py"], [("iteration strategies", "unpythonic/llist.py:LinkedListIterator, BinaryTreeIterator, TailIterator, JackOfAllTradesIterator"), ("construction", "unpythonic/llist.py:ll, llist"), ("compositions", "unpythonic/llist.py:_build_accessor")],
  observe=["cons", "ll", "llist", "car", "cdr", "lreverse", "lappend", "lmap", "lzip", "member"], spec="LList")

P("P19", "Lazy iterables deliver the documented items and read no more than needed",
  "Each function of iterables (take, drop, split_at, window, chunked, pad, uniqify, partition, interleave, unpack, flatten and the rest, and islice with slice syntax, negative indices included) delivers exactly the documented "
  "items in the documented order, whether the input is a sequence or an iterator, and whatever its values are (None and other false values included). When it delivers its k-th item, it has read no more of the input than that item requires, "
  "so that infinite inputs work.",
  ["inputs"], "every function, parameter and input sequence up to the bound, with the consumption of the input observed at every output",
  "the tests compare the whole output on one or two inputs; how much has been read when an item is delivered, and inputs shorter than the parameter, are not observed",
  ["unpythonic/it.py", "unpythonic/slicing.py"], [("functions of iterables", "unpythonic/it.py"), ("negative slices", "unpythonic/slicing.py:islice")],
  observe=["unpythonic.it", "islice"], spec="It")

P("P20", "Folds, scans and unfolds call the procedure once per step, in order",
  "A scan gives the initial value and then, for each tuple of corresponding items, the result of calling the procedure exactly once with those items and the previous result, reading no more input than the step requires; "
  "a fold is its last value. Right and reversed variants, the shortest/longest rule with fill value, and the variants that start from the first item differ exactly as documented, for any number of inputs, empty ones and false values included. "
  "An unfold calls the procedure once per output with the previous state, until it returns None.",
  ["inputs"], "every tuple of inputs up to the bound, every variant, and every small state machine to unfold",
  "the tests use commutative operations on equal-length inputs; order of arguments, length mismatches and laziness need a symbolic procedure over all shapes",
  ["unpythonic/fold.py"], [("scans", "unpythonic/fold.py:scanl, scanr"), ("unfold", "unpythonic/fold.py:unfold, unfold1")],
  observe=["scanl", "scanr", "foldl", "foldr", "reducel", "reducer", "rscanl", "rfoldl", "unfold", "prod", "minmax"], spec="Fold")

P("P21", "Mathematical sequences are the ones their specification denotes",
  "s(...) gives exactly the constant, arithmetic, geometric, power or cyclic sequence that the given terms determine, ending with the final element if one is given, and raises SyntaxError when the terms fit no formula or the final element is not in the sequence. "
  "Infix and function forms of termwise operations apply the operation between corresponding items, operands in order, through nested sequences and scalars on either side, lazily; diagonal_reduce and cauchyprod combine exactly the pairs of each diagonal that exist. "
  "primes, fibonacci and triangular follow their definitions.",
  ["inputs"], "every tuple of small integers as specification and final element, every shape of operands, every length of finite inputs",
  "the tests try some well-formed specifications; which formula is found, and what is refused, is a decision over all tuples of numbers",
  ["unpythonic/mathseq.py"], [("analysis", "unpythonic/mathseq.py:s"), ("termwise operations", "unpythonic/mathseq.py:_make_termwise_stream_binop"), ("diagonals", "unpythonic/mathseq.py:diagonal_reduce")],
  observe=["s", "imathify", "cauchyprod", "diagonal_reduce", "primes", "fibonacci", "triangular"], spec="MathSeq")

P("P22", "Messages survive any chunking of the stream, and junk between them",
  "However the bytes of a stream of encoded messages are divided into chunks, the decoder delivers every message exactly once, in order and intact (empty messages and messages that contain protocol bytes included), reads no more chunks than the message requires, "
  "and gives None at end of stream. Bytes that are not a message are skipped and the decoder re-synchronizes at the next header; the sources for byte strings, streams and sockets give chunks of at most the requested size that add up to the data; "
  "recvall and netstrings return exactly the requested bytes.",
  ["inputs", "chunkings"], "every division into chunks of streams of up to the bound of messages, with junk and truncation",
  "the tests feed one or two hand-made chunkings; framing errors depend on where exactly a chunk ends",
  ["unpythonic/net/msg.py", "unpythonic/net/util.py"], [("decoding", "unpythonic/net/msg.py:decodemsg"), ("buffered receive", "unpythonic/net/util.py:ReceiveBuffer, recvall"), ("sources", "unpythonic/net/msg.py:bytessource, streamsource, socketsource")],
  observe=["encodemsg", "decodemsg", "MessageDecoder", "ReceiveBuffer", "bytessource", "streamsource", "socketsource", "recvall", "netstringify"], spec="Msg")

P("P23", "Tail-call and autoreturn macros keep the meaning of the program",
  "Inside with tco, with autoreturn and with continuations, a function or lambda gives the same value as the plain code, evaluates the same expressions in the same order, and keeps its names, whatever combination of if-expressions, and, or, let, do, cond, aif and statements its result is made of "
  "(only: in tail position, an and-expression that ends in a call or compound gives False when an earlier item is false, as tested). Under tco and continuations, calls in tail position do not grow the stack.",
  ["programs"], "random programs of two mutually recursive functions built from all recognized tail forms, in six renderings each",
  "the tests have one hand-written function per form; nestings of forms are not enumerated",
  ["unpythonic/syntax/tailtools.py", "unpythonic/syntax/letdo.py"], [("tail positions", "unpythonic/syntax/tailtools.py:_transform_retexpr"), ("tail statements", "unpythonic/syntax/tailtools.py:_TailStatementTransformer")],
  observe=["tco", "autoreturn", "continuations", "let", "do", "cond", "aif"], spec="TailMac")

P("P24", "A captured continuation is the rest of the computation, as often as it is called",
  "In a with continuations block, calling a stored continuation runs the rest of the body after its call_cc, with the captured local variables and the values passed to it bound to the targets (single, several, starred, ignored, Values), and then everything its function was to return to; it may be called any number of times, in any order, "
  "later than the function that captured it has returned, with independent local variables each time. This holds for several call_cc in one function, nested ones, conditional ones (call_cc[f() if p else g()], with None skipping the call), get_cc, functions tail-called from a continuation, and a cc given explicitly.",
  ["programs", "call orders"], "random programs of several functions with captures and tail calls, and random orders of resuming the captured continuations",
  "the tests resume a few hand-written captures; the number of captures, their nesting and the order in which they are resumed are a space of programs and histories",
  ["unpythonic/syntax/tailtools.py"], [("transformation", "unpythonic/syntax/tailtools.py:_continuations"), ("chaining", "unpythonic/syntax/tailtools.py:chain_conts"), ("get_cc", "unpythonic/syntax/tailtools.py:get_cc")],
  observe=["continuations", "call_cc", "get_cc", "chain_conts", "iscontinuation"], spec="Conts")

P("P25", "Names in let and do forms are lexically scoped",
  "In let, letseq, letrec, do, do0 and their decorator and block variants, every reference reads, and every assignment with << or := writes, the innermost lexically visible binding of that name: lambda parameters, comprehension targets, inner lets, do-locals (from their definition up to a delete) and, in decorated functions, local variables (from the statement after the binding up to del) and parameters "
  "shadow outer ones, parameter defaults and the outermost iterable of a comprehension belong to the surrounding scope, closures see later assignments, and the environment of a decorated function lives across calls.",
  ["programs"], "random expressions and function bodies over two names with all binding forms nested in each other, in all binding syntaxes",
  "scope errors appear only for particular nestings of forms that bind and use the same name; the tests use distinct names nearly everywhere",
  ["unpythonic/syntax/letdo.py", "unpythonic/syntax/scopeanalyzer.py", "unpythonic/lispylet.py"], [("let", "unpythonic/syntax/letdo.py:_let_expr_impl, _let_decorator_impl"), ("do", "unpythonic/syntax/letdo.py:_do"), ("scopes", "unpythonic/syntax/scopeanalyzer.py:scoped_transform")],
  observe=["let", "letseq", "letrec", "dlet", "dletseq", "dletrec", "blet", "bletseq", "bletrec", "do", "do0", "local", "delete"], spec="Scope")

P("P26", "Call by need: lazify evaluates an argument when first used, at most once",
  "In a with lazify block, each argument of a call, each item of a container literal in an argument (also through starred and keyword arguments) and each let binding is evaluated only if and when its value is first used, and at most once: later uses give the same value, or raise the same exception, without evaluating again, however the promise was passed on (by name, as an item of a tuple, through lambdas, let, closures, other lazy functions, variadic functions). "
  "Calls of strict functions evaluate all their arguments in order, and functions return values, not promises. This also holds with tco, autocurry, namedlambda or continuations in the same with.",
  ["programs"], "random programs over lazy and strict functions, lambdas, lets, conditionals, containers and failing expressions, each under plain lazify and in a combination",
  "the tests have a handful of fixed programs; double or premature evaluation depends on how a promise travels",
  ["unpythonic/syntax/lazify.py", "unpythonic/lazyutil.py"], [("transformation", "unpythonic/syntax/lazify.py:_lazify"), ("containers", "unpythonic/syntax/lazify.py:_lazyrec"), ("promises", "unpythonic/lazyutil.py:Lazy"), ("lazy/strict calls", "unpythonic/lazyutil.py:maybe_force_args")],
  observe=["lazify", "lazy", "lazyrec", "force", "force1", "Lazy"], spec="Lazify")

P("P27", "Symbols and singletons: one live object per name or class",
  "At any time there is at most one object for an interned symbol name, for a generated symbol, and for a singleton class (each subclass having its own): calling sym again, unpickling and copying give that very object while it is alive, and the singleton constructor then raises TypeError and changes nothing; unpickling restores the pickled attributes into it. "
  "gensym gives a symbol distinct from all others, also after pickling, and once the last reference to an object is gone, a new one can be made. This holds for any number of threads creating, unpickling and dropping concurrently.",
  ["histories", "schedules"], "every history of creating, dropping, copying, pickling and unpickling, and interleavings of threads at every line",
  "the tests create and unpickle a few objects; identity is a global invariant over histories, and creation races need particular interleavings",
  ["unpythonic/symbol.py", "unpythonic/singleton.py"], [("interning", "unpythonic/symbol.py:sym.__new__"), ("generated symbols", "unpythonic/symbol.py:gsym, gensym"), ("singletons", "unpythonic/singleton.py:Singleton.__new__, ThereCanBeOnlyOne.__call__")],
  observe=["sym", "gensym", "Singleton", "pickle", "copy"], spec="Intern")
P("P28", "Nondeterministic evaluation enumerates all choices, depth first",
  "forall (both as a function and as a macro) evaluates its lines in order, once for every combination of items of the preceding lines, depth first, and gives the tuple of the values of the last line; a line that gives no item (a failed insist or deny, an empty iterable) ends that branch, and nothing after it is evaluated there. "
  "Each line sees exactly the choices bound above it, with inner choices shadowing outer ones of the same name only inside their own branch, whatever the names are. An exception of any type raised by a line or by an iterable propagates.",
  ["inputs"], "every program of lines, any nesting depth and number of items",
  "the tests run a few fixed programs; evaluation order, scoping and the extent of a failed branch matter for every combination of lines",
  ["unpythonic/amb.py", "unpythonic/syntax/forall.py"], [("function form", "unpythonic/amb.py:forall"), ("macro form", "unpythonic/syntax/forall.py:_forall"), ("list monad", "unpythonic/amb.py:MonadicList, monadify")],
  observe=["forall", "choice", "insist", "deny", "MonadicList"], spec="Amb")
P("P29", "Recursion cycles are broken exactly where they close",
  "A call of a fix or fixtco function with the arguments of a call that the same thread is still computing (also when either of them is a tail call) gives bottom, applied to that function's name and those arguments, and every other call computes its body: so any recursion over finitely many argument tuples ends, functions that do not recurse into themselves are unaffected, and without memo each call from the outside gives the same result whatever was called before. "
  "With memo, a finished call (its result or its exception) is not computed again. Exceptions, caught at any level, and computations of other threads change nothing of this, and tail call chains of any length take no stack.",
  ["inputs", "histories", "schedules"], "every call graph of mutually recursive functions with tail calls and exceptions, and every history of calls",
  "the tests call a few fixed recursive functions; the bookkeeping must be right for every call graph, after every exception and in every thread",
  ["unpythonic/fix.py"], [("fix and fixtco", "unpythonic/fix.py:_fix"), ("tail calls", "unpythonic/fix.py:spy")], observe=["fix", "fixtco"], spec="Fix")
P("P30", "tryf, raisef and reraise behave as the statements they stand for",
  "tryf runs its body, then the first handler whose exception types match (giving it the exception if it takes an argument), or else the else-function, and always the finally-function last; the result is that of the handler, of the else-function or of the body, an exception that nothing matches propagates unchanged, and an exception raised by a later part replaces the earlier outcome. "
  "reraise and reraise_in replace an exception by the first entry of the mapping that matches it, with the original as its cause, and let all others through unchanged; raisef raises the given exception with the given cause.",
  ["inputs"], "every nesting of tryf, raisef and reraise over a class hierarchy that includes non-Exception exceptions",
  "the tests try each form once; matching, ordering and the fate of unmatched exceptions must hold for every combination",
  ["unpythonic/excutil.py"], [("try as an expression", "unpythonic/excutil.py:tryf"), ("raise as an expression", "unpythonic/excutil.py:raisef"), ("mapping", "unpythonic/excutil.py:_reraise_handler")], observe=["tryf", "raisef", "reraise", "reraise_in"], spec="Exc")
P("P31", "A generator that returns a generator continues as that generator",
  "Iterating over gtco(g), or over a gtrampolined generator, yields the items of g; when it returns another generator (plain or gtrampolined), that generator's items follow, in a chain of any length without growing the stack; a final iterable's items follow as the last batch, and any other return value becomes the return value. "
  "next, send, throw and close reach the generator that is currently running, and any exception, TypeError included, that it or the final iterable raises reaches the consumer.",
  ["inputs", "histories"], "every chain of generators and every sequence of consumer operations",
  "the tests iterate over a few chains; send, throw, close and errors at each point of a chain are not sampled",
  ["unpythonic/gtco.py"], [("chaining", "unpythonic/gtco.py:gtco"), ("decorator", "unpythonic/gtco.py:gtrampolined")], observe=["gtco", "gtrampolined"], spec="Gtco")
P("P32", "Boxes hold one value per thread or for all; Shim forwards; mogrify maps",
  "A box holds the last value put in by any thread, and a ThreadLocalBox the last one put in by the reading thread, or else the default; get, unbox, iteration, length, membership and equality agree, and falsy values are values. "
  "Reading an attribute of a Shim reads it from the object now in its box, or, if that has no such attribute, from the fallback (any object, boxed or not, falsy or not, or another Shim), and writing goes to the object in the box only. "
  "mogrify calls its function once on every atom of a nest of containers, updates mutable containers in place, replaces immutable ones by copies of the same type, and leaves the originals of those unchanged.",
  ["histories", "inputs"], "every history of operations from several threads; every nesting of the supported containers",
  "the tests do a few operations per class; visibility between threads, redirection and nesting must hold for every history and shape",
  ["unpythonic/collections.py"], [("boxes", "unpythonic/collections.py:box, ThreadLocalBox, Some, unbox"), ("attribute proxy", "unpythonic/collections.py:Shim"), ("in-place map", "unpythonic/collections.py:mogrify")], observe=["box", "ThreadLocalBox", "unbox", "Shim", "mogrify"], spec="Box, Mogrify")
P("P33", "The test framework counts and reports every test exactly once",
  "Each test, test_raises and test_signals (as an expression or a block) passes, fails or errors according to how the tested code ends (value, exception or signal, with the expected type or another), fail and error are counted as such, warn adds a warning and no test; the summary of a testset counts exactly what happened in it, including nested testsets, and the global counters the total. "
  "A signal or exception outside a test is counted as an error of the testset; an exception ends that testset only, a signal sent by cerror or warn does not end it, and catch_signals(False) makes signals pass unseen. "
  "terminate, called directly or as the post-processing of a testset, ends the whole session at once from any depth, with the summaries of all open testsets still reported.",
  ["inputs", "histories"], "every test module: any sequence and nesting of tests, testsets, signals, exceptions and terminations",
  "the framework tests itself with modules whose tests mostly pass; a miscounted or lost failure would go unnoticed there",
  ["unpythonic/test/fixtures.py", "unpythonic/syntax/testingtools.py"], [("testsets and sessions", "unpythonic/test/fixtures.py:testset, session, terminate, catch_signals"), ("verdicts", "unpythonic/syntax/testingtools.py:unpythonic_assert, unpythonic_assert_raises, unpythonic_assert_signals, _observe"), ("macros", "unpythonic/syntax/testingtools.py:_test_expr, _test_block, _test_expr_signals_or_raises, _test_block_signals_or_raises")], observe=["report", "counters"], spec="Testing")



P("P34", "Prefix calls, cond and aif evaluate as the expressions they stand for",
  "In a prefix block, a tuple is a call of its first item with the rest as arguments, unless q made this level (and the tuples inside it) data again, which u undoes one level at a time; kw(...) items, wherever they stand, give the named arguments, of which the rightmost wins, and an empty tuple is left alone. "
  "cond evaluates its tests in order up to the first truthy one and then only the branch belonging to it (the otherwise-branch if there is none); aif evaluates its test once, makes the value available as it in both branches, and evaluates exactly one of them; a bracketed part is a sequence of expressions whose last value counts.",
  ["inputs"], "every nesting of calls, quotes, named arguments, conditionals and bracketed parts",
  "the tests try one nesting of each form; quote levels, evaluation order and untaken branches must come out right in every nesting",
  ["unpythonic/syntax/prefix.py", "unpythonic/syntax/ifexprs.py"], [("prefix", "unpythonic/syntax/prefix.py:_prefix"), ("conditionals", "unpythonic/syntax/ifexprs.py:_cond, _aif")], observe=["prefix", "q", "u", "kw", "cond", "aif"], spec="Exprs")
P("P35", "Arities and bindings say exactly how a callable can be called",
  "arities and arity_includes accept exactly the numbers of positional arguments that a call of the function, method (self not counted if bound), class, callable object, partial or generic function (any of its multimethods, inherited ones included) accepts; required_kwargs and optional_kwargs give its keyword-only parameters without and with defaults. "
  "resolve_bindings gives, without calling, the bindings that the call would establish, defaults included, and is a TypeError if and only if the call would be one; resolve_bindings_partial does so with parameters left unbound, and tuplify_bindings gives equal hashable keys for equal bindings. "
  "partial(f, ...) is a TypeError at once if an argument given so far (in this or an earlier partial) has a type other than its parameter's annotation, and otherwise calls as functools.partial does.",
  ["inputs"], "every signature (positional-only, defaults, *args, keyword-only, **kwargs), kind of callable and call",
  "the tests inspect a dozen signatures; the combinations of parameter kinds, callables and ways of passing arguments are what users pass in",
  ["unpythonic/arity.py", "unpythonic/fun.py"], [("arities", "unpythonic/arity.py:arities, _kwargs"), ("bindings", "unpythonic/arity.py:_resolve_bindings, tuplify_bindings"), ("type-checked partial", "unpythonic/fun.py:partial")], observe=["arities", "arity_includes", "required_kwargs", "optional_kwargs", "resolve_bindings", "tuplify_bindings", "partial"], spec="Sig")
P("P36", "Parameters are assignable in envify; lambda macros keep Python's scoping",
  "In an envify block, n << e and n := e, in any expression, assign to the parameter n of the nearest enclosing function or lambda that has it, unless a scope in between binds n itself (parameter, assignment, for, comprehension, class body, global); every other occurrence means what it means in Python: default values belong to the scope outside, each call has its own variables, and closures keep them. "
  "multilambda makes a bracketed lambda body a sequence of expressions whose last value counts, and fn and quicklambda make _ the parameters of a new lambda, alone and combined with envify. "
  "namedlambda names a lambda (also a decorated one) after the variable, named argument or string key it is the value of, wherever that stands in the block, and otherwise changes nothing.",
  ["inputs"], "every program of nested functions, lambdas, classes, comprehensions and assignments",
  "the tests have a few lambdas per macro; which variable an occurrence means must come out right in every nesting of scopes",
  ["unpythonic/syntax/lambdatools.py"], [("envify", "unpythonic/syntax/lambdatools.py:_envify"), ("names", "unpythonic/syntax/lambdatools.py:_namedlambda"), ("multilambda", "unpythonic/syntax/lambdatools.py:_multilambda"), ("fn", "unpythonic/syntax/lambdatools.py:_fn, _quicklambda")], observe=["envify", "namedlambda", "multilambda", "fn", "quicklambda"], spec="Envify")
P("P37", "In an autoref block, names read the innermost object that has them",
  "Reading a name in a with autoref[obj] block gives the attribute of that name of the innermost autoref'd object that has one at that moment (whatever its value), and otherwise the variable of that name; this holds in any expression, in nested blocks, and in functions and lambdas made in a block whenever they are called. "
  "Assigning, incrementing and deleting names in the block acts on variables only, never on the objects. "
  "The object of a block is evaluated once, on entry, by the same rule in the blocks around it, and its as-name is an ordinary variable that names it.",
  ["histories"], "every sequence of block entries, reads, assignments, deletions and attribute changes",
  "the tests read a few attributes of fixed objects; which object a name means depends on the history of attribute changes and on the nesting",
  ["unpythonic/syntax/autoref.py"], [("transformation", "unpythonic/syntax/autoref.py:_autoref"), ("lookup", "unpythonic/syntax/autoref.py:_autoref_resolve")], observe=["autoref"], spec="Autoref")

P("P38", "let_syntax and abbrev replace each use by its definition, once and in order",
  "Each use of a name defined by let_syntax or abbrev is replaced by a fresh copy of its definition, with the parameters of a template (or block) replaced by the arguments of the use, so an argument is evaluated as often as its parameter occurs and a name that is not used is never evaluated. "
  "In the expression forms all templates are expanded first and then all bare names, each in the order they were given; in the block forms a definition applies to the definitions and statements below it. "
  "This holds equally in let_syntax and abbrev and in every notation (brackets, let-in, let-where, block), and all other names stay ordinary variables.",
  ["inputs"], "every set of definitions and every body, at every nesting of uses in the arguments of uses",
  "the tests expand a few fixed templates; order, nesting, repetition and notation combine freely",
  ["unpythonic/syntax/letsyntax.py"], [("expression", "unpythonic/syntax/letsyntax.py:_let_syntax_expr"), ("block", "unpythonic/syntax/letsyntax.py:_let_syntax_block"), ("notation", "unpythonic/syntax/letdo.py:let_syntax")], observe=["let_syntax", "abbrev"], spec="LetSyntax")

P("P39", "In an autocurry block every call and definition is curried",
  "In a with autocurry block each call, wherever in an expression or a definition it is written, gives what currying the called function gives: a function waiting for more while parameters are missing, the result when all are present, and surplus arguments passed on to the result. "
  "So splitting the arguments of a call between several calls in any way gives the same result, for functions and lambdas defined in the block, functions from outside it, methods and builtins. "
  "Functions defined in the block stay curried when used outside it, and their defaults, keyword-only parameters and effects are those of the plain definitions.",
  ["inputs"], "every function signature and every way to split and nest the arguments of calls",
  "the tests curry a few fixed functions; the arguments can be split, named and passed through in unboundedly many ways",
  ["unpythonic/syntax/autocurry.py", "unpythonic/fun.py"], [("transformation", "unpythonic/syntax/autocurry.py:_autocurry"), ("currying", "unpythonic/fun.py:curry")], observe=["autocurry"], spec="Curry")

P("P40", "Integer partitions and fixed points: exactly the solutions, by iteration",
  "partition_int, partition_int_triangular and partition_int_custom give every ordered sequence of allowed components that sums to n exactly once, and nothing else, for every n, every pair of limits and every set of distinct components in any order. "
  "Arguments outside the documented limits are a ValueError, and others than integers a TypeError, already at the call. "
  "fixpoint calls the function on its own previous result, starting from the given value, and returns the first result within the tolerance of the one before, making no further calls.",
  ["inputs"], "every number, limits, set of components; every function, starting value and tolerance for which the iteration settles",
  "the tests sample a few numbers and functions",
  ["unpythonic/numutil.py", "unpythonic/it.py"], [("partitions", "unpythonic/numutil.py:partition_int_custom"), ("fixed points", "unpythonic/numutil.py:fixpoint"), ("convergence", "unpythonic/it.py:within")], observe=["partition_int", "fixpoint"], spec="Partition, Fixpoint")

P("P41", "Popper, CountingIterator, slurp and Values reflect exactly what is there",
  "A Popper delivers the leftmost item its container has at that moment, removes just that item, and ends when it finds the container empty, however the container is changed in between and however many Poppers share it; a CountingIterator's count is the number of items it has delivered, also after errors; slurp gives what is on the queue in order and leaves it empty; getattrrec and setattrrec act on the innermost wrapper. "
  "A Values gives its positional part by index, slice and iteration (the latter a ValueError if there is a named part) and its named part by name, in and get, whatever the values (None included), and equals exactly the Values with the same two parts; valuify converts exactly tuples.",
  ["histories"], "every history of changes and reads; every positional and named part",
  "the tests use one container and one history each",
  ["unpythonic/misc.py", "unpythonic/funutil.py"], [("popping", "unpythonic/misc.py:Popper"), ("counting", "unpythonic/misc.py:CountingIterator"), ("wrappers", "unpythonic/misc.py:setattrrec"), ("values", "unpythonic/funutil.py:Values")], observe=["Popper", "CountingIterator", "slurp", "Values", "getattrrec"], spec="Util, ValuesObj")

P("P42", "nb and dbg show each value once and change nothing else",
  "In a with nb block each expression statement at the top level is evaluated once, its value becomes _, and it is printed (by the given function, if any) exactly if it is not None; all other statements are unaffected and leave _ alone. "
  "In a with dbg block each call of print (or of the named function) shows the source text and the value of each of its arguments, in order, with file and line, evaluating each once; dbg[expr] shows its expression likewise, through the dynamic variable dbgprint_expr, and passes the value through. "
  "Apart from what is shown, the program computes what it computes without them, in the same order.",
  ["inputs"], "every program text in a block, every nesting of shown expressions",
  "the tests show a few fixed expressions",
  ["unpythonic/syntax/nb.py", "unpythonic/syntax/dbg.py"], [("notebook", "unpythonic/syntax/nb.py:_nb"), ("debug printing", "unpythonic/syntax/dbg.py:_dbg_block"), ("debug expression", "unpythonic/syntax/dbg.py:_dbg_expr")], observe=["nb", "dbg"], spec="Notebook")
