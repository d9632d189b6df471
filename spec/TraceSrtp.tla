------------------------------ MODULE TraceSrtp ------------------------------
EXTENDS Srtp, TraceDet
KeyLens(name) == CASE name = "AES_CM_128_HMAC_SHA1_80" -> <<16, 14, 10>>
                   [] name = "AES_CM_128_HMAC_SHA1_32" -> <<16, 14, 4>>
                   [] name = "AES_256_CM_HMAC_SHA1_80" -> <<32, 14, 10>>
                   [] name = "AES_256_CM_HMAC_SHA1_32" -> <<32, 14, 4>>
                   [] OTHER -> <<>>
PStep(x, e) ==
    CASE e.ev = "defaults" ->
           [st |-> x, obs |-> [fresh |-> TRUE],
            rel |-> [list |-> /\ e.o.list # <<>>
                              /\ \A i \in 1..Len(e.o.list) : LET p == e.o.list[i] k == KeyLens(p[2]) IN
                                    k # <<>> /\ p = <<i, p[2], k[1], k[2], 0>>]]
      [] e.ev = "parse" ->
           [st |-> x, obs |-> IF KeyLens(e.name) = <<>> THEN [err |-> TRUE] ELSE [err |-> FALSE, lens |-> KeyLens(e.name)]]
      [] OTHER ->
    LET n == PApply(x, e) IN
    [st |-> n, obs |-> [got |-> n.out, hold |-> TRUE] @@ (IF e.ev = "send" THEN [err |-> FALSE, in |-> TRUE, sent |-> 1] ELSE [z |-> 0]),
     rel |-> [ended |-> IF n.lazy THEN e.o.ended = 0 ELSE IF n.closed THEN e.o.ended = e.o.readers + 1 ELSE e.o.ended = 0]]
PInitOf(e) == PInit(IF "keys" \in DOMAIN e THEN e.keys ELSE TRUE, IF "lazy" \in DOMAIN e THEN e.lazy ELSE FALSE)
Inv == l > 1 => PInv(s)
=============================================================================
