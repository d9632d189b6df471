-------------------------------- MODULE Chain --------------------------------
(* Chains of writers: a tree of stages, each of which hands what it is given   *)
(* to the next ones.  Node 1 is the root.  The kinds of nodes:                 *)
(*   sink   remembers the frames it is given, fails on demand                  *)
(*   buf    keeps all samples in one buffer, none after it was closed          *)
(*   frames keeps all frames                                                   *)
(*   file   keeps all samples, to be read once it is closed                    *)
(*   full   gives frames of one size, the rest when it is closed               *)
(*   multi  gives everything to each of its children                           *)
(*   switch gives to its child while it is on and attached                     *)
(*   nop    does not pass on that it is closed                                 *)
(*   code   codes and decodes (samples which are values of codes: the same)    *)
(*   same   a resampler between equal rates: nothing                           *)
EXTENDS Integers, Sequences

\* node: [k, n (size), c (children)]
Leaf(k) == k \in {"sink", "buf", "frames", "file"}
NodeInit == [got |-> <<>>, q |-> <<>>, on |-> TRUE, att |-> TRUE, fail |-> FALSE, cfail |-> FALSE, open |-> TRUE, closed |-> 0]
HInit(tree) == [t |-> tree, s |-> [i \in 1..Len(tree) |-> NodeInit], err |-> FALSE]

Ok(x) == [x EXCEPT !.err = FALSE]
RECURSIVE Put(_, _, _), PutAll(_, _, _), Fill(_, _), Shut(_, _), ShutAll(_, _)
\* x.err: did this call fail
Put(x, i, xs) ==
    LET n == x.t[i] h == x.s[i] IN
    CASE n.k = "sink"   -> [x EXCEPT !.s[i].got = Append(@, xs), !.err = h.fail]
      [] n.k \in {"frames", "file"} -> [x EXCEPT !.s[i].got = Append(@, xs), !.err = FALSE]
      [] n.k = "buf"    -> [x EXCEPT !.s[i].got = IF h.open THEN Append(@, xs) ELSE @, !.err = FALSE]
      [] n.k = "full"   -> Fill([x EXCEPT !.s[i].q = @ \o xs], i)
      [] n.k = "multi"  -> PutAll(Ok(x), n.c, xs)
      [] n.k = "switch" -> IF h.on /\ h.att THEN Put(x, n.c[1], xs) ELSE Ok(x)
      [] n.k \in {"nop", "code", "same"} -> Put(x, n.c[1], xs)
\* all of them, even if one fails
PutAll(x, cs, xs) == IF cs = <<>> THEN x
                     ELSE LET y == PutAll(Put(x, cs[1], xs), Tail(cs), xs) IN [y EXCEPT !.err = @ \/ Put(x, cs[1], xs).err \/ x.err]
\* frames as long as there are; one that failed is gone
Fill(x, i) == LET n == x.t[i].n q == x.s[i].q IN
              IF Len(q) < n THEN Ok(x)
              ELSE LET y == Put([x EXCEPT !.s[i].q = SubSeq(@, n + 1, Len(@))], x.t[i].c[1], SubSeq(q, 1, n))
                   IN IF y.err THEN y ELSE Fill(y, i)
Shut(x, i) ==
    LET n == x.t[i] h == x.s[i] IN
    CASE n.k = "sink"   -> [x EXCEPT !.s[i].closed = @ + 1, !.err = h.cfail]
      [] n.k = "frames" -> Ok(x)
      [] n.k = "file"   -> [x EXCEPT !.s[i].closed = @ + 1, !.err = FALSE]
      [] n.k = "buf"    -> [x EXCEPT !.s[i].open = FALSE, !.err = FALSE]
      [] n.k = "full"   -> LET y == Fill(x, i)
                               q == y.s[i].q
                               z == IF y.err \/ q = <<>> THEN y ELSE Put([y EXCEPT !.s[i].q = <<>>], n.c[1], q)
                               w == Shut(z, n.c[1])
                           IN  [w EXCEPT !.err = @ \/ z.err]
      [] n.k = "multi"  -> ShutAll(Ok(x), n.c)
      [] n.k = "switch" -> IF h.att THEN Shut([x EXCEPT !.s[i].att = FALSE], n.c[1]) ELSE Ok(x)
      [] n.k = "nop"    -> Ok(x)
      [] n.k \in {"code", "same"} -> Shut(x, n.c[1])
ShutAll(x, cs) == IF cs = <<>> THEN x
                  ELSE LET y == ShutAll(Shut(x, cs[1]), Tail(cs)) IN [y EXCEPT !.err = @ \/ Shut(x, cs[1]).err \/ x.err]

HApply(x0, e) ==
    LET x == [x0 EXCEPT !.err = FALSE] IN
    CASE e.ev = "write" -> Put(x, 1, e.xs)
      [] e.ev = "close" -> Shut(x, 1)
      [] e.ev = "fail"  -> [x EXCEPT !.s[e.i].fail = e.on]
      [] e.ev = "cfail" -> [x EXCEPT !.s[e.i].cfail = e.on]
      [] e.ev = "on"    -> [x EXCEPT !.s[e.i].on = e.on]
      [] e.ev = "swap"  -> [x EXCEPT !.s[e.i].att = e.on]

RECURSIVE Join(_)
Join(q) == IF q = <<>> THEN <<>> ELSE IF Len(q) = 1 THEN q[1] ELSE Join(SubSeq(q, 1, Len(q) \div 2)) \o Join(SubSeq(q, (Len(q) \div 2) + 1, Len(q)))
=============================================================================
