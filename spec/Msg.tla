--------------------------------- MODULE Msg --------------------------------
(* The message protocol (unpythonic.net.msg). A sender puts messages on a    *)
(* byte stream, between them may be junk; the stream may be cut anywhere and *)
(* arrives in chunks of any sizes. The decoder holds a receive buffer        *)
(* (con, fed] of what has arrived but is not consumed; it reads a chunk only *)
(* when it cannot proceed. Bytes are named by one-character strings: F is    *)
(* 0xFF, digits are themselves, x is anything else.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxMsgs, AllChunks, Cuts
VARIABLES segs,     \* what was sent: [k |-> "m"/"j", b |-> bytes]
          cut,      \* how many bytes at the end never arrive
          pat,      \* chunk sizes, cyclic (<<>>: any sizes)
          phase, fed, con, nread, out, chunks
vars == <<segs, cut, pat, phase, fed, con, nread, out, chunks>>
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Val == [d \in Digits |-> CASE d = "0" -> 0 [] d = "1" -> 1 [] d = "2" -> 2 [] d = "3" -> 3 [] d = "4" -> 4 [] d = "5" -> 5 [] d = "6" -> 6 [] d = "7" -> 7 [] d = "8" -> 8 [] d = "9" -> 9]
Dig == [n \in 0..9 |-> CHOOSE d \in Digits : Val[d] = n]
Bodies == {<<>>, <<"x">>, <<"F">>, <<";", "F", "x">>, <<"F", "v", "0", "1", "l", "1", ";", "x">>, <<"F", "v", "0", "1", "l">>, [i \in 1..12 |-> "x"]}
Junk == {<<"x">>, <<"F">>, <<"F", "F">>, <<"x", "F", "v">>, <<"F", "v", "0", "1", "l">>, <<"F", "v", "0", "1", "l", ";">>, <<"F", "v", "0", "1", "l", "x", ";">>,
         <<"F", "v", "0", "2", "l", "1", ";">>, <<";">>, <<"F", "v", "0", "1", "l", "-", "1", ";">>, <<"F", "v", "0", "1", "l", "1", "_", "0", ";">>, <<"F", "v", "0", "1", "l", " ", "1", ";">>, <<"F", "v", "0", "1", "l", "1", ";", "x">>}
Len2(n) == IF n < 10 THEN <<Dig[n]>> ELSE <<Dig[n \div 10], Dig[n % 10]>>
Enc(b) == <<"F", "v", "0", "1", "l">> \o Len2(Len(b)) \o <<";">> \o b
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE (IF Head(ss).k = "m" THEN Enc(Head(ss).b) ELSE Head(ss).b) \o Cat(Tail(ss))
Stream == LET s == TLCEval(Cat(segs)) IN SubSeq(s, 1, IF Len(s) > cut THEN Len(s) - cut ELSE 0)
Patterns == {<<1>>, <<2>>, <<3>>, <<5>>, <<7>>, <<100>>, <<1, 6>>, <<4, 1>>}

\* one step of decoding the bytes s[c+1..f]: wait for more, skip to a position, or a message
First(S) == CHOOSE i \in S : \A j \in S : i <= j
RECURSIVE Num(_, _)
Num(ds, acc) == IF ds = <<>> THEN acc ELSE Num(Tail(ds), acc * 10 + Val[Head(ds)])
Step(s, c, f) ==
  LET F == {i \in (c + 1)..f : s[i] = "F"} IN
  IF F = {} THEN [r |-> "wait", p |-> f, b |-> <<>>]
  ELSE LET h == First(F) IN
  IF f - h + 1 < 5 THEN [r |-> "wait", p |-> h - 1, b |-> <<>>]
  ELSE IF SubSeq(s, h + 1, h + 4) # <<"v", "0", "1", "l">> THEN [r |-> "skip", p |-> h, b |-> <<>>]
  ELSE LET E == {i \in (h + 5)..f : s[i] = ";"} IN
  IF E = {} THEN [r |-> "wait", p |-> h - 1, b |-> <<>>]
  ELSE LET e == First(E)  ds == SubSeq(s, h + 5, e - 1) IN
  IF ds = <<>> \/ \E i \in 1..Len(ds) : ds[i] \notin Digits THEN [r |-> "skip", p |-> h, b |-> <<>>]
  ELSE LET n == Num(ds, 0) IN
  IF f - e < n THEN [r |-> "wait", p |-> h - 1, b |-> <<>>]
  ELSE [r |-> "msg", p |-> e + n, b |-> SubSeq(s, e + 1, e + n)]
\* what a decoder given the whole stream at once delivers: with the position at which each message ends
RECURSIVE Oracle(_, _, _)
Oracle(s, c, acc) == LET st == Step(s, c, Len(s)) IN
                     IF st.r = "wait" THEN acc ELSE IF st.r = "skip" THEN Oracle(s, st.p, acc)
                     ELSE Oracle(s, st.p, Append(acc, [b |-> st.b, end |-> st.p]))
Now == Step(Stream, con, fed)

Init == segs = <<>> /\ cut \in Cuts /\ pat \in (IF AllChunks THEN {<<>>} ELSE Patterns) /\ phase = "send" /\ fed = 0 /\ con = 0 /\ nread = 0 /\ out = <<>> /\ chunks = <<>>
NM == Cardinality({i \in 1..Len(segs) : segs[i].k = "m"})
Send == /\ phase = "send"
        /\ \/ NM < MaxMsgs /\ \E b \in Bodies : segs' = Append(segs, [k |-> "m", b |-> b])
           \/ (IF segs = <<>> THEN TRUE ELSE segs[Len(segs)].k = "m") /\ \E b \in Junk : segs' = Append(segs, [k |-> "j", b |-> b])
        /\ UNCHANGED <<cut, pat, phase, fed, con, nread, out, chunks>>
Close == phase = "send" /\ NM >= 1 /\ (cut > 0 => Len(Cat(segs)) > cut) /\ phase' = "recv" /\ UNCHANGED <<segs, cut, pat, fed, con, nread, out, chunks>>
Skip == phase = "recv" /\ Now.r = "skip" /\ con' = Now.p /\ UNCHANGED <<segs, cut, pat, phase, fed, nread, out, chunks>>
Deliver == /\ phase = "recv" /\ Now.r = "msg" /\ con' = Now.p /\ out' = Append(out, [b |-> Now.b, reads |-> nread, buf |-> SubSeq(Stream, Now.p + 1, fed)])
           /\ UNCHANGED <<segs, cut, pat, phase, fed, nread, chunks>>
Sizes == IF pat = <<>> THEN 1..(Len(Stream) - fed) ELSE {LET k == pat[(nread % Len(pat)) + 1] IN IF k < Len(Stream) - fed THEN k ELSE Len(Stream) - fed}
Read == /\ phase = "recv" /\ Now.r = "wait" /\ fed < Len(Stream)
        /\ \E k \in Sizes : fed' = fed + k /\ chunks' = Append(chunks, k)
        /\ nread' = nread + 1 /\ con' = Now.p /\ UNCHANGED <<segs, cut, pat, phase, out>>
Eof == phase = "recv" /\ Now.r = "wait" /\ fed = Len(Stream) /\ phase' = "done" /\ UNCHANGED <<segs, cut, pat, fed, con, nread, out, chunks>>
Next == Send \/ Close \/ Skip \/ Deliver \/ Read \/ Eof

\* however the stream is cut into chunks, the same messages are delivered
Prefix(a, b) == Len(a) <= Len(b) /\ \A i \in 1..Len(a) : a[i] = b[i]
Delivered == [i \in 1..Len(out) |-> out[i].b]
OracleBodies == LET o == TLCEval(Oracle(Stream, 0, <<>>)) IN [i \in 1..Len(o) |-> o[i].b]
ChunkIndependent == phase = "done" => Delivered = OracleBodies
\* without junk, and nothing cut off, exactly the messages sent are delivered, in order
Clean == (\A i \in 1..Len(segs) : segs[i].k = "m") /\ cut = 0
Faithful == (phase = "done" /\ Clean) => Delivered = [i \in 1..Len(segs) |-> segs[i].b]
\* junk that has no sync byte or header in it does not lose any message
Harmless == \A i \in 1..Len(segs) : segs[i].k = "m" \/ segs[i].b \in {<<"x">>, <<";">>, <<"F">>, <<"F", "F">>, <<"F", "v", "0", "2", "l", "1", ";">>, <<"F", "v", "0", "1", "l", ";">>, <<"F", "v", "0", "1", "l">>}
Resync == (phase = "done" /\ Harmless /\ cut = 0) => LET ms == SelectSeq(segs, LAMBDA g : g.k = "m") IN Delivered = [i \in 1..Len(ms) |-> ms[i].b]
Inv == ChunkIndependent /\ Faithful /\ Resync
Emit == phase = "done" => PrintT("@@" \o ToJson([segs |-> segs, cut |-> cut, chunks |-> chunks, stream |-> Stream, out |-> out]))
=============================================================================
