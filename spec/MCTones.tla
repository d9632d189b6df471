------------------------------ MODULE MCTones ------------------------------
EXTENDS Tones, ModelDet
CONSTANTS Durs, Sils, Count

Tone1 == {[hz |-> h, dur |-> d, sil |-> q] : h \in {<<425>>, <<>>}, d \in Durs, q \in Sils}
RECURSIVE TLists(_)
TLists(n) == IF n = 0 THEN {<<>>} ELSE LET w == TLists(n - 1) IN w \cup {Append(q, c) : q \in {v \in w : Len(v) = n - 1}, c \in Tone1}

\* hist: lengths of the runs of one part so far: <<tone, part, frames>>
MStarts == {[phase |-> "new", p |-> PIdle, hist |-> <<>>]}
MOps(x) == CASE x.phase = "new" -> {[ev |-> "play", tones |-> q, rate |-> 8000, vol |-> 8000] : q \in TLists(Count) \ {<<>>}}
             [] x.phase = "run" -> {[ev |-> "tick"], [ev |-> "cancel"], [ev |-> "faila", on |-> TRUE]}
             [] x.phase = "fail" -> {[ev |-> "tick"]}
             [] OTHER -> {}
Push(h, p, old) ==
    IF p.frame = <<>> THEN h
    ELSE IF h # <<>> /\ old.left > 0 THEN [h EXCEPT ![Len(h)][3] = @ + 1]
    ELSE Append(h, <<p.i, p.part, 1>>)
MApply(x, e) == LET p == PApply(x.p, e) IN
    [phase |-> IF e.ev = "faila" THEN "fail" ELSE IF p.on THEN (IF x.phase = "new" THEN "run" ELSE x.phase) ELSE "end",
     p |-> p, hist |-> Push(x.hist, p, x.p)]
MView(x) == x

Ceil(d) == IF d <= 0 THEN 1 ELSE (d + FrameUs - 1) \div FrameUs
MGood(x) ==
    LET h == x.hist T == x.p.tones IN
    /\ \A k \in 1..Len(h) :
         LET r == h[k] t == T[r[1]] want == Ceil(IF r[2] = "tone" THEN t.dur ELSE t.sil) IN
         /\ r[3] <= want
         /\ k < Len(h) => r[3] = want                  \* as long as it should be
         /\ k < Len(h) => LET q == h[k + 1] IN
              \/ r[2] = "tone" /\ t.sil # 0 /\ q[1] = r[1] /\ q[2] = "sil"
              \/ (r[2] = "sil" \/ t.sil = 0) /\ q[1] = (r[1] % Len(T)) + 1 /\ q[2] = "tone"
    /\ Len(h) > 0 => h[1][1] = 1 /\ h[1][2] = "tone"
=============================================================================
