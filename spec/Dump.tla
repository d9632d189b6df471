-------------------------------- MODULE Dump --------------------------------
(* Diagnostic dumps (LK_DUMP_MEDIA, LK_DUMP_G722, LK_DUMP_RESAMPLE) of the     *)
(* chain between PCM and RTP (rtp/codecs.go, g722.go, resample.go, dump.go).   *)
(* A chain has three places: 1 PCM as the caller knows it, 2 PCM at the rate   *)
(* of the codec, 3 what is in the RTP packets.  A dump taps a place and        *)
(* changes nothing; its file is a prefix of what passed there, all of it once  *)
(* it is closed.                                                               *)
EXTENDS Integers, Sequences, FiniteSets

Buffered == 4096      \* bytes a file may lack while it is open

\* codec: "G722/8000", "PCMU/8000", "PCMA/8000" or one of the user's own, of any rate
IsG722(c) == c.codec = "G722/8000"
Own(c) == c.codec \notin {"G722/8000", "PCMU/8000", "PCMA/8000"}
InfoRate(c) == IF IsG722(c) THEN 16000 ELSE IF Own(c) THEN c.crate ELSE 8000
\* a G.722 decoder can decode to 8 kHz by itself
ChainRate(c) == IF IsG722(c) /\ ~c.enc /\ c.rate = 8000 THEN 8000 ELSE InfoRate(c)
Ext(c) == CASE IsG722(c) -> "g722" [] c.codec = "PCMU/8000" -> "g711u" [] c.codec = "PCMA/8000" -> "g711a"
            [] OTHER -> IF c.ext = "" THEN "raw" ELSE c.ext
Resampled(c) == c.rate # ChainRate(c)

F(kind, rate, ext, pos) == [kind |-> kind, rate |-> rate, ext |-> ext, pos |-> pos]
Files(c) ==
    LET x == ChainRate(c) IN
    (IF "media" \in c.on THEN {F(IF c.enc THEN "sip_rtp_out" ELSE "sip_rtp_in", x, Ext(c), 3)} ELSE {})
    \cup (IF "g722" \in c.on /\ IsG722(c)
          THEN IF c.enc THEN {F("sip_g722_enc_in", x, "s16le", 2), F("sip_g722_enc_out", x, "g722", 3)}
                        ELSE {F("sip_g722_dec_in", x, "g722", 3), F("sip_g722_dec_out", x, "s16le", 2)}
          ELSE {})
    \cup (IF "resample" \in c.on /\ Resampled(c)
          THEN IF c.enc THEN {F("sip_resample_in", c.rate, "s16le", 1), F("sip_resample_out", x, "s16le", 2)}
                        ELSE {F("sip_resample_in", x, "s16le", 2), F("sip_resample_out", c.rate, "s16le", 1)}
          ELSE {})

\* bytes of PCM for a byte in a packet
PerByte(c) == IF IsG722(c) /\ ChainRate(c) = 16000 THEN 4 ELSE 2

\* said: bytes that went in; closed; fail: the far end fails
DInit(c) == [c |-> c, said |-> 0, closed |-> FALSE, fail |-> FALSE]
DApply(x, e) == CASE e.ev = "say" -> [x EXCEPT !.said = @ + (IF x.c.enc THEN 2 * e.n ELSE e.n)]
                  [] e.ev = "fail" -> [x EXCEPT !.fail = e.on]
                  [] e.ev = "close" -> [x EXCEPT !.closed = TRUE]

\* how long a file may be when total bytes passed
LenOK(n, total, closed) == n <= total /\ (IF closed THEN n = total ELSE n >= total - Buffered)
=============================================================================
