package main

import (
	"fmt"
	"sync"
	"sync/atomic"

	prtp "github.com/pion/rtp"

	msdk "github.com/livekit/media-sdk"
	"github.com/livekit/media-sdk/rtp"
)

// Components used by several goroutines at once.

func init() {
	reg("muxpar", true, runMuxPar)
	reg("streampar", true, runStreamPar)
	reg("curtspar", false, runCurTSPar)
	reg("writerpar", true, runWriterPar)
	reg("buffermany", false, runBufferMany)
}

type parHandler struct {
	n   int
	hit func(n, typ, id int)
	err error
}

func (h *parHandler) String() string { return fmt.Sprint("h", h.n) }
func (h *parHandler) HandleRTP(hd *prtp.Header, payload []byte) error {
	h.hit(h.n, int(hd.PayloadType), int(payload[0]))
	return h.err
}

func runMuxPar(sc *Scenario, r *Rec) {
	hs := map[int]rtp.Handler{0: nil}
	for n := 1; n <= 9; n++ {
		h := &parHandler{n: n, hit: func(n, typ, id int) {
			r.raw(M{"ev": "hit", "h": n, "typ": typ, "id": id, "o": M{}})
		}}
		if n%2 == 1 {
			h.err = fmt.Errorf("error %d", n)
		}
		hs[n] = h
	}
	m := rtp.NewMux(hs[sc.Cfg.Int("def")])
	threadsOf(sc, func(t int, op M) {
		call := M{"ev": "call", "t": t, "op": M{"ev": op.Str("k"), "typ": op.Int("typ"), "h": op.Int("h"), "id": op.Int("id")}, "o": M{}}
		r.raw(call)
		var err error
		switch op.Str("k") {
		case "register":
			m.Register(byte(op.Int("typ")), hs[op.Int("h")])
		case "default":
			m.SetDefault(hs[op.Int("h")])
		case "string":
			desc := describeMux(m)
			r.raw(M{"ev": "said", "t": t, "desc": desc, "o": M{}})
		case "handle":
			err = m.HandleRTP(&prtp.Header{Version: 2, PayloadType: uint8(op.Int("typ"))}, []byte{byte(op.Int("id"))})
		}
		errn := 0
		if err != nil {
			fmt.Sscanf(err.Error(), "error %d", &errn)
		}
		r.raw(M{"ev": "ret", "t": t, "o": M{"err": errn}})
	})
}

type rtpFunc func(h *prtp.Header, p []byte)

func (f rtpFunc) String() string { return "rtp" }
func (f rtpFunc) WriteRTP(h *prtp.Header, p []byte) (int, error) {
	f(h, p)
	return len(p), nil
}

// runStreamPar uses one RTP stream from several goroutines.
func runStreamPar(sc *Scenario, r *Rec) {
	w := rtp.NewSeqWriter(rtpFunc(func(h *prtp.Header, p []byte) {
		r.raw(M{"ev": "pkt", "t": int(p[0]), "i": int(p[1]), "inc": p[2] == 1, "o": M{"seq": int(h.SequenceNumber), "ts": int(h.Timestamp), "m": h.Marker, "typ": int(h.PayloadType)}})
	}))
	s := w.NewStreamWithDur(byte(sc.Cfg.Int("typ")), uint32(sc.Cfg.Int("dur")))
	threadsOf(sc, func(t int, op M) {
		i := op.Int("i")
		switch op.Str("k") {
		case "write":
			if err := s.WritePayload([]byte{byte(t), byte(i), 1}, i%2 == 1); err != nil {
				panic(err)
			}
		case "at":
			if err := s.WritePayloadAtCurrent([]byte{byte(t), byte(i), 0}, i%2 == 1); err != nil {
				panic(err)
			}
		case "delay":
			r.raw(M{"ev": "delaying", "d": op.Int("d"), "o": M{}})
			if op.Bool("frames") {
				s.DelayN(op.Int("d") / sc.Cfg.Int("dur"))
			} else {
				s.Delay(uint32(op.Int("d")))
			}
			r.raw(M{"ev": "delayed", "d": op.Int("d"), "o": M{}})
		case "reset":
			r.raw(M{"ev": "resetting", "o": M{}})
			s.ResetTimestamp(uint32(op.Int("d")))
		case "get":
			r.raw(M{"ev": "getting", "t": t, "o": M{}})
			r.raw(M{"ev": "got", "t": t, "o": M{"ts": int(s.GetCurrentTimestamp())}})
		}
	})
	r.raw(M{"ev": "end", "o": M{"ts": int(s.GetCurrentTimestamp())}})
}

// runCurTSPar: goroutines ask for timestamps; each looks up the most recent one of all after each of its own.
func runCurTSPar(sc *Scenario, r *Rec) {
	w := rtp.NewSeqWriter(rtpFunc(func(h *prtp.Header, p []byte) {}))
	n, threads, inc := sc.Cfg.Int("n"), sc.Cfg.Int("threads"), uint32(sc.Cfg.Int("inc"))
	var wg sync.WaitGroup
	for t := range threads {
		wg.Add(1)
		go func() {
			defer wg.Done()
			q := make([][]int, n)
			ts := uint32(100 * inc)
			for i := range n {
				ts += uint32((i*7 + t*3) % 11)
				ret := w.CurTS(ts, inc)
				q[i] = []int{int(ts), int(ret), int(w.CurTS(0, inc))}
			}
			r.raw(M{"ev": "asked", "t": t, "o": M{"q": q}})
		}()
	}
	wg.Wait()
	r.raw(M{"ev": "top", "o": M{"ts": int(w.CurTS(0, inc))}})
}

// runWriterPar: writers of several goroutines, one of which may close it. The k-th write of thread t consists of
// the number 1000 * t + k.
func runWriterPar(sc *Scenario, r *Rec) {
	var out msdk.PCM16Sample
	sum := 0
	closes := 0
	var frames atomic.Int64
	var w msdk.PCM16Writer
	switch sc.Cfg.Str("kind") {
	case "buffer":
		w = msdk.NewPCM16BufferWriter(&out, 8000)
	case "resample":
		sink := &parSink{rate: sc.Cfg.Int("dst"), on: func(x msdk.PCM16Sample) {
			sum += len(x)
			frames.Add(1)
			spoil(x)
		}, closed: func() { closes++ }}
		w = msdk.ResampleWriter(sink, sc.Cfg.Int("src"))
	}
	threadsOf(sc, func(t int, op M) {
		switch op.Str("k") {
		case "write":
			x := make(msdk.PCM16Sample, op.Int("n"))
			for i := range x {
				x[i] = int16(1000*t + op.Int("i"))
			}
			r.raw(M{"ev": "call", "t": t, "i": op.Int("i"), "n": op.Int("n"), "o": M{}})
			err := w.WriteSample(x)
			r.raw(M{"ev": "ret", "t": t, "i": op.Int("i"), "n": op.Int("n"), "o": M{"err": err != nil}})
			spoil(x)
		case "close":
			r.raw(M{"ev": "closing", "o": M{}})
			err := w.Close()
			r.raw(M{"ev": "closed", "o": M{"err": err != nil}})
		}
	})
	r.raw(M{"ev": "end", "o": M{"xs": ints(out), "sum": sum, "closes": closes}})
}

type parSink struct {
	rate   int
	on     func(msdk.PCM16Sample)
	closed func()
}

func (s *parSink) String() string  { return "sink" }
func (s *parSink) SampleRate() int { return s.rate }
func (s *parSink) WriteSample(p msdk.PCM16Sample) error {
	s.on(p)
	return nil
}
func (s *parSink) Close() error { s.closed(); return nil }

// runBufferMany closes a recording, again and again, while goroutines write to it.
func runBufferMany(sc *Scenario, r *Rec) {
	threads, spin := sc.Cfg.Int("threads"), sc.Cfg.Int("spin")
	for round := range sc.Cfg.Int("rounds") {
		var out msdk.PCM16Sample
		w := msdk.NewPCM16BufferWriter(&out, 8000)
		done := make([]atomic.Int64, threads)
		var stop atomic.Bool
		var wg sync.WaitGroup
		var fails atomic.Int64
		for t := range threads {
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if recover() != nil {
						fails.Add(1)
					}
				}()
				for i := 0; i < 150 && !stop.Load(); i++ {
					if err := w.WriteSample(msdk.PCM16Sample{int16(1000*t + i)}); err != nil {
						fails.Add(1)
					}
					done[t].Add(1)
				}
			}()
		}
		for done[round%threads].Load() < int64(round%spin) {
		}
		lo := make([]int, threads)
		for t := range lo {
			lo[t] = int(done[t].Load())
		}
		if err := w.Close(); err != nil {
			fails.Add(1)
		}
		xs := ints(out)
		stop.Store(true)
		wg.Wait()
		r.raw(M{"ev": "round", "lo": lo, "o": M{"xs": xs, "after": len(out), "fails": int(fails.Load())}})
	}
}
