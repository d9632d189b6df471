--------------------------------- MODULE Pcm ---------------------------------
(* Channel conversion and serialisation of frames (pcm.go and the codecs).     *)
EXTENDS Integers, Sequences, Writers

Stereo(src) == [i \in 1..(2 * Len(src)) |-> src[(i + 1) \div 2]]
\* the average, rounded either way
MonoOK(src, out) == /\ Len(out) = Len(src) \div 2
                    /\ \A i \in 1..Len(out) : 2 * out[i] - (src[2 * i - 1] + src[2 * i]) \in -1..1
=============================================================================
