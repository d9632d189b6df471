package main

import (
	"errors"
	"fmt"
	"runtime"
	"slices"
	"sync"

	prtp "github.com/pion/rtp"

	msdk "github.com/livekit/media-sdk"
	"github.com/livekit/media-sdk/rtp"
)

type recWriter struct {
	fail bool
	pkts []*prtp.Packet
}

func (w *recWriter) String() string { return "rec" }
func (w *recWriter) WriteRTP(h *prtp.Header, payload []byte) (int, error) {
	if w.fail {
		return 0, errors.New("write failed")
	}
	w.pkts = append(w.pkts, &prtp.Packet{Header: h.Clone(), Payload: slices.Clone(payload)})
	return h.MarshalSize() + len(payload), nil
}

func ints[T ~byte | ~int16 | ~int](b []T) []int {
	out := make([]int, len(b))
	for i, v := range b {
		out[i] = int(v)
	}
	return out
}

func bytesOf(v []int) []byte {
	out := make([]byte, len(v))
	for i, x := range v {
		out[i] = byte(x)
	}
	return out
}

func init() {
	reg("rtpout", false, runRTPOut)
	reg("rtpoutpar", false, runRTPOutPar)
	reg("rtpbuffer", false, runRTPBuffer)
}

type rawFrame = msdk.PCM16Sample

type byteFrame []byte

func (f byteFrame) Size() int                      { return len(f) }
func (f byteFrame) CopyTo(dst []byte) (int, error) { return copy(dst, f), nil }

func runRTPOut(sc *Scenario, r *Rec) {
	w := &recWriter{}
	sw := rtp.NewSeqWriter(w)
	var streams []*rtp.Stream
	var ssrc uint32
	have := false
	hi := sc.Cfg.Int("hi") // timestamps are given and noted relative to this one
	for _, op := range sc.Ops {
		w.pkts = nil
		var err error
		val := 0
		var st *rtp.Stream
		if op.Has("k") {
			st = streams[op.Int("k")]
		}
		data := bytesOf(op.Ints("p"))
		p := guard(func() {
			switch op["ev"] {
			case "stream":
				if rate := op.Int("rate"); rate != 0 {
					st = sw.NewStream(byte(op.Int("typ")), rate)
				} else {
					st = sw.NewStreamWithDur(byte(op.Int("typ")), uint32(op.Int("dur")))
				}
				streams = append(streams, st)
			case "write":
				err = st.WritePayload(data, op.Bool("m"))
			case "cur":
				err = st.WritePayloadAtCurrent(data, op.Bool("m"))
			case "media":
				o := rtp.NewMediaStreamOut[byteFrame](st, 8000)
				err = o.WriteSample(byteFrame(data))
				_ = o.Close()
			case "delay":
				st.Delay(uint32(op.Int("d")))
			case "delayn":
				st.DelayN(op.Int("n"))
			case "setts":
				st.ResetTimestamp(uint32(hi + op.Int("ts")))
			case "get":
				val = int(st.GetCurrentTimestamp()) - hi
			case "raw":
				err = sw.WriteEvent(&rtp.Event{Type: byte(op.Int("typ")), Timestamp: uint32(hi + op.Int("ts")), Payload: data, Marker: op.Bool("m")})
			case "curts":
				val = int(sw.CurTS(uint32(hi+op.Int("ts")), uint32(op.Int("inc")))) - hi
			case "fail":
				w.fail = op.Bool("on")
			case "burst":
				for i := 0; i < op.Int("n") && err == nil; i++ {
					err = sw.WriteEvent(&rtp.Event{})
				}
			default:
				panic(fmt.Sprint("unknown op ", op))
			}
		})
		for i := range data {
			data[i] = 0xEE
		}
		seqs, ts, body, cur := []int{}, []int{}, []any{}, []int{}
		same := true
		for _, q := range w.pkts {
			if !have {
				ssrc, have = q.SSRC, true
			}
			same = same && q.SSRC == ssrc && q.Version == 2 && !q.Extension && !q.Padding && len(q.CSRC) == 0
			seqs = append(seqs, int(q.SequenceNumber))
			ts = append(ts, int(q.Timestamp)-hi)
			if op["ev"] != "burst" {
				body = append(body, []any{int(q.PayloadType), q.Marker, ints(q.Payload)})
			}
		}
		for _, st := range streams {
			cur = append(cur, int(st.GetCurrentTimestamp())-hi)
		}
		o := M{"ret": err != nil, "val": val, "seqs": seqs, "body": body, "same": same, "cur": cur, "ts": ts}
		if op["ev"] == "burst" {
			delete(o, "ts")
		}
		if p != nil {
			o["panic"] = true
		}
		r.Event(op, o)
	}
}

// yieldWriter records packets in the order in which they reach the connection.
type yieldWriter struct {
	mu sync.Mutex
	r  *Rec
}

func (w *yieldWriter) String() string { return "yield" }
func (w *yieldWriter) WriteRTP(h *prtp.Header, payload []byte) (int, error) {
	runtime.Gosched()
	w.mu.Lock()
	w.r.Event(M{"ev": "sent", "k": int(payload[0]), "i": int(payload[1])},
		M{"seq": int(h.SequenceNumber), "typ": int(h.PayloadType), "m": h.Marker, "ts": int(h.Timestamp)})
	w.mu.Unlock()
	runtime.Gosched()
	return len(payload), nil
}

// runRTPOutPar writes several streams of one SeqWriter from different goroutines.
func runRTPOutPar(sc *Scenario, r *Rec) {
	sw := rtp.NewSeqWriter(&yieldWriter{r: r})
	var wg sync.WaitGroup
	for k := range sc.Cfg.Int("streams") {
		st := sw.NewStreamWithDur(byte(k), uint32(sc.Cfg.Int("dur")))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range sc.Cfg.Int("n") {
				if err := st.WritePayload([]byte{byte(k), byte(i)}, i%2 == 1); err != nil {
					panic(err)
				}
			}
		}()
	}
	wg.Wait()
}

func runRTPBuffer(sc *Scenario, r *Rec) {
	var b rtp.Buffer
	for _, op := range sc.Ops {
		h := &prtp.Header{Version: 2, SequenceNumber: uint16(op.Int("sn")), Timestamp: uint32(op.Int("ts")), Marker: op.Bool("m"),
			PayloadType: uint8(op.Int("typ")), SSRC: 7, CSRC: []uint32{1, 2}}
		ext := []byte{byte(op.Int("x")), 9}
		if err := h.SetExtension(1, ext); err != nil {
			panic(err)
		}
		data := bytesOf(op.Ints("p"))
		n, err := b.WriteRTP(h, data)
		if err != nil {
			panic(err)
		}
		for i := range data {
			data[i] = 0xEE
		}
		ext[0], h.CSRC[0] = 0xEE, 0xEE
		if e := h.GetExtension(1); len(e) > 0 {
			e[0] = 0xEE
		}
		all := []any{}
		for _, q := range b {
			all = append(all, []any{int(q.SequenceNumber), int(q.Timestamp), q.Marker, int(q.PayloadType), int(q.SSRC), int(q.CSRC[0]),
				int(q.GetExtension(1)[0]), ints(q.Payload)})
		}
		r.Event(op, M{"n": n, "all": all})
	}
}
