------------------------------- MODULE TypeOf -------------------------------
(* Run-time type checks (unpythonic.typecheck.isoftype): a value matches a   *)
(* type specification iff it does so structurally, recursing into elements.  *)
(* A value is [k, e]: its kind and its elements; a dict has key and value    *)
(* alternating. A type is [c, a]: constructor and arguments.                 *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Level2
VARIABLES v, t

V(k, e) == [k |-> k, e |-> e]
T(c, a) == [c |-> c, a |-> a]

Atoms == {V(k, <<>>) : k \in {"int", "bool", "str", "none", "A", "B", "func", "bytes", "float"}}
Elems == {V("int", <<>>), V("str", <<>>), V("B", <<>>), V("none", <<>>)}
Coll(k) == {V(k, <<>>)} \union {V(k, <<x>>) : x \in Elems} \union {V(k, <<x, y>>) : x \in Elems, y \in Elems}
Flat == Coll("list") \union Coll("tuple") \union {V(k, <<x>>) : k \in {"set", "frozenset", "deque", "mylist", "mytuple"}, x \in Elems}
        \union {V(k, <<>>) : k \in {"set", "frozenset", "deque", "mylist", "mytuple", "dict", "mydict"}}
        \union {V("set", <<V("int", <<>>), V("str", <<>>)>>), V("mydict", <<V("str", <<>>), V("int", <<>>)>>)}
        \union {V("dict", <<x, y>>) : x \in {V("int", <<>>), V("str", <<>>)}, y \in Elems}
        \union {V("dict", <<V("str", <<>>), V("int", <<>>), V("int", <<>>), V("str", <<>>)>>)}
Deep == {V(k, <<x, y>>) : k \in {"list", "tuple"}, x \in {V("list", <<V("int", <<>>)>>), V("tuple", <<V("int", <<>>), V("str", <<>>)>>), V("int", <<>>)},
                          y \in {V("list", <<V("int", <<>>), V("str", <<>>)>>), V("list", <<>>), V("dict", <<V("str", <<>>), V("int", <<>>)>>), V("none", <<>>)}}
        \union {V("dict", <<V("str", <<>>), y>>) : y \in {V("list", <<V("int", <<>>)>>), V("list", <<V("str", <<>>)>>), V("list", <<>>), V("tuple", <<V("int", <<>>), V("B", <<>>)>>)}}
I == V("int", <<>>)
ST == V("str", <<>>)
Three == {V(k, e) : k \in {"list", "tuple", "mytuple", "deque"}, e \in {<<I, I, I>>, <<ST, I, I>>, <<I, ST, I>>, <<I, I, ST>>, <<I, ST, ST>>, <<I, I, V("none", <<>>)>>}}
         \union {V(k, e) : k \in {"dict", "mydict", "keys", "values", "items"}, e \in {<<>>, <<I, ST>>, <<I, I, I, I, I, I>>, <<I, I, I, I, I, ST>>, <<I, I, I, ST, I, I>>, <<I, I, ST, I, I, I>>, <<ST, I, ST, I, I, I>>}}
Views == {"keys", "values", "items"}
Values == Atoms \union Flat \union Deep \union Three

T0 == {T(c, <<>>) : c \in {"Any", "int", "str", "None", "A", "B", "TV", "TVc", "NewInt", "Callable", "list", "tuple", "dict", "set", "frozenset", "MyList", "MyTuple", "MyDict",
                           "MyStr", "Sized", "Hashable", "Iterable", "Container", "Collection", "Iterator", "Reversible", "Text", "BareTuple", "bytes", "float", "object", "SupportsInt"}}
E0 == {T(c, <<>>) : c \in {"int", "str", "A", "None", "Any", "TVc"}}
C1 == {"KeysView", "ValuesView", "List", "Set", "FrozenSet", "TupleE", "Sequence", "MutableSequence", "AbstractSet", "MutableSet", "Deque"}
T1 == {T(c, <<x>>) : c \in C1, x \in E0}
      \union {T(c, <<x, y>>) : c \in {"Union", "Tuple"}, x \in E0, y \in E0}
      \union {T("Tuple", <<x>>) : x \in E0}
      \union {T("Tuple", <<T("int", <<>>), T("int", <<>>), x>>) : x \in E0}
      \union {T("ItemsView", <<x, y>>) : x \in {T("int", <<>>), T("str", <<>>), T("Any", <<>>)}, y \in E0}
      \union {T(c, <<x, y>>) : c \in {"Dict", "Mapping", "MutableMapping"}, x \in {T("int", <<>>), T("str", <<>>), T("Any", <<>>)}, y \in E0}
F1 == {T("List", <<T("int", <<>>)>>), T("List", <<T("str", <<>>)>>), T("Union", <<T("int", <<>>), T("None", <<>>)>>), T("TupleE", <<T("int", <<>>)>>),
       T("Tuple", <<T("int", <<>>), T("str", <<>>)>>), T("Dict", <<T("str", <<>>), T("int", <<>>)>>), T("Sequence", <<T("int", <<>>)>>)}
T2 == {T(c, <<x>>) : c \in {"List", "TupleE", "Sequence", "Set"}, x \in F1}
      \union {T(c, <<x, y>>) : c \in {"Union", "Tuple"}, x \in F1, y \in F1}
      \union {T("Dict", <<T("str", <<>>), y>>) : y \in F1}

\* run-time classes of a value
Is0(x, c) == LET k == x.k IN
  CASE c = "Any" \/ c = "object" \/ c = "TV" -> TRUE
    [] c = "int" -> k \in {"int", "bool"}
    [] c = "NewInt" -> k \in {"int", "bool"}
    [] c = "TVc" -> k \in {"int", "bool", "str"}
    [] c = "str" \/ c = "Text" -> k = "str"
    [] c = "MyStr" -> FALSE
    [] c = "None" -> k = "none"
    [] c = "A" -> k \in {"A", "B"}
    [] c = "B" -> k = "B"
    [] c = "bytes" -> k = "bytes"
    [] c = "float" -> k = "float"
    [] c = "Callable" -> k = "func"
    [] c = "list" -> k \in {"list", "mylist"}
    [] c = "MyList" -> k = "mylist"
    [] c = "tuple" \/ c = "BareTuple" -> k \in {"tuple", "mytuple"}
    [] c = "MyTuple" -> k = "mytuple"
    [] c = "dict" -> k \in {"dict", "mydict"}
    [] c = "MyDict" -> k = "mydict"
    [] c = "set" -> k = "set"
    [] c = "frozenset" -> k = "frozenset"
    [] c \in {"Sized", "Container", "Collection", "Iterable"} -> k \in {"str", "bytes", "list", "mylist", "tuple", "mytuple", "dict", "mydict", "set", "frozenset", "deque"} \union Views
    [] c = "Hashable" -> k \notin {"list", "mylist", "dict", "mydict", "set", "deque", "keys", "items"}
    [] c = "Iterator" -> FALSE
    [] c = "Reversible" -> k \in {"list", "mylist", "dict", "mydict", "deque"} \union Views
    [] c = "SupportsInt" -> k \in {"int", "bool", "float"}
Kinds(c) ==
  CASE c = "List" -> {"list", "mylist"}
    [] c = "Set" -> {"set"}
    [] c = "FrozenSet" -> {"frozenset"}
    [] c = "Deque" -> {"deque"}
    [] c \in {"TupleE", "Tuple"} -> {"tuple", "mytuple"}
    [] c = "Sequence" -> {"list", "mylist", "tuple", "mytuple", "str", "bytes", "deque"}
    [] c = "MutableSequence" -> {"list", "mylist", "deque"}
    [] c = "AbstractSet" -> {"set", "frozenset", "keys", "items"}
    [] c = "KeysView" -> {"keys"}
    [] c = "ValuesView" -> {"values"}
    [] c = "ItemsView" -> {"items"}
    [] c = "MutableSet" -> {"set"}
    [] c \in {"Dict", "Mapping", "MutableMapping"} -> {"dict", "mydict"}
\* the elements seen when iterating: strings yield strings, bytes yield integers
Items(x) == IF x.k = "str" THEN <<V("str", <<>>)>> ELSE IF x.k = "bytes" THEN <<V("int", <<>>)>>
            ELSE IF x.k \in {"keys", "dict", "mydict"} THEN [i \in 1..(Len(x.e) \div 2) |-> x.e[2*i-1]]
            ELSE IF x.k = "values" THEN [i \in 1..(Len(x.e) \div 2) |-> x.e[2*i]]
            ELSE IF x.k = "items" THEN [i \in 1..(Len(x.e) \div 2) |-> V("tuple", <<x.e[2*i-1], x.e[2*i]>>)]
            ELSE x.e
RECURSIVE Is(_, _)
Is(x, ty) ==
  CASE ty.c = "Union" -> \E i \in 1..Len(ty.a) : Is(x, ty.a[i])
    [] ty.c = "Tuple" -> x.k \in Kinds("Tuple") /\ Len(x.e) = Len(ty.a) /\ \A i \in 1..Len(x.e) : Is(x.e[i], ty.a[i])
    [] ty.c \in {"Dict", "Mapping", "MutableMapping", "ItemsView"} ->
         x.k \in Kinds(ty.c) /\ x.e # <<>> /\ \A i \in 1..(Len(x.e) \div 2) : Is(x.e[2*i-1], ty.a[1]) /\ Is(x.e[2*i], ty.a[2])
    [] ty.c \in C1 -> x.k \in Kinds(ty.c) /\ Items(x) # <<>> /\ \A i \in 1..Len(Items(x)) : Is(Items(x)[i], ty.a[1])
    [] OTHER -> Is0(x, ty.c)

Init == t = T("Any", <<>>) /\ v \in Values
Next == FALSE /\ UNCHANGED <<v, t>>
Types == T0 \union T1 \union (IF Level2 THEN T2 ELSE {})
\* one line per value: the types it matches (all others it does not)
Emit == PrintT("@@" \o ToJson([v |-> v, yes |-> {ty \in Types : Is(v, ty)}, no |-> {ty \in Types : ~Is(v, ty)}]))
=============================================================================
