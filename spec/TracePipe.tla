------------------------------ MODULE TracePipe ------------------------------
EXTENDS Pipe, TraceNon
PAccept(x, e) ==
    CASE e.ev = "call" -> Call(x, e.t, e.k, e.d, e.n, e.e)
      [] e.ev = "ret"  -> IF /\ Back(x, e.t, e.k, e.o.err)
                             /\ e.k = "r" => x.th[e.t].data = e.o.data \/ (e.o.err # "" /\ e.o.data = <<>>)
                             /\ e.o.clean
                          THEN Return(x, e.t) ELSE {}
PHidden(x) == Inner(x)
PInitOf(e) == PipeInit(e.threads)
=============================================================================
