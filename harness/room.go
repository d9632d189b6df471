package main

import (
	"fmt"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"

	prtp "github.com/pion/rtp"

	"github.com/livekit/media-sdk/mixer"
	"github.com/livekit/media-sdk/rtp"
)

func init() {
	reg("room", true, runRoom)
	reg("roompar", true, runRoomPar)
}

// roomOut is the network: it takes packets of 10 ms units of one code each.
type roomOut struct {
	us   func() int
	mu   sync.Mutex
	pkts []any
	on   func(h *prtp.Header, us []int)
}

func (s *roomOut) String() string { return "room" }
func (s *roomOut) WriteRTP(h *prtp.Header, p []byte) (int, error) {
	us, n := []int{}, len(p)
	for len(p) >= 80 {
		u := int(p[0])
		for _, b := range p[:80] {
			if int(b) != u {
				u = -1
			}
		}
		us, p = append(us, u), p[80:]
	}
	if len(p) != 0 {
		us = append(us, -2)
	}
	if s.on != nil {
		s.on(h, us)
		return n, nil
	}
	s.mu.Lock()
	s.pkts = append(s.pkts, []any{s.us(), int(h.SequenceNumber), int(h.Timestamp), h.Marker, us})
	s.mu.Unlock()
	return n, nil
}

type roomHandler struct{ *rtp.Mux }

func (roomHandler) Close() {}

// runRoom is a conference: callers' packets go through a jitter buffer, a mux, a decoder and an input of
// the mixer; what is mixed is coded and sent as one stream.
func runRoom(sc *Scenario, r *Rec) {
	start := time.Now()
	out := &roomOut{us: func() int { return int(time.Since(start) / time.Microsecond) }}
	law := func(a string) (rtp.AudioCodec, byte) {
		if a == "a" {
			return rtp.CodecByPayloadType(8).(rtp.AudioCodec), 8
		}
		return rtp.CodecByPayloadType(0).(rtp.AudioCodec), 0
	}
	codec, typ := law(sc.Cfg.Str("law"))
	sink := codec.EncodeRTP(rtp.NewSeqWriter(out).NewStream(typ, codec.Info().RTPClockRate))
	var st mixer.Stats
	opts := []mixer.MixerOptions{mixer.WithStats(&st)}
	if n := sc.Cfg.Int("framesopt"); n != 0 {
		opts = append(opts, mixer.WithInputBufferFrames(n))
	}
	m, err := mixer.NewMixer(sink, rtp.DefFrameDur, 1, opts...)
	if err != nil {
		panic(err)
	}
	type caller struct {
		in   *mixer.Input
		h    rtp.HandlerCloser
		typ  byte
		gone bool
	}
	var cs []*caller
	buf := make([]byte, 0, 1600)
	hd := &prtp.Header{}
	stopped := false
	for _, op := range sc.Ops {
		o := M{"err": "", "nil": false}
		switch op["ev"] {
		case "join":
			in := m.NewInput()
			if o["nil"] = in == nil; in == nil {
				break
			}
			c := &caller{in: in}
			codec, typ := law(op.Str("law"))
			c.typ = typ
			mux := rtp.NewMux(nil)
			mux.Register(typ, codec.DecodeRTP(in, typ))
			c.h = rtp.HandleJitter(roomHandler{mux})
			cs = append(cs, c)
		case "rtp":
			c := cs[op.Int("c")]
			buf = buf[:0]
			for _, u := range op.Ints("us") {
				for range 80 {
					buf = append(buf, byte(u))
				}
			}
			*hd = prtp.Header{Version: 2, SequenceNumber: uint16(op.Int("sn")), Timestamp: uint32(op.Int("sn") * 160), SSRC: 7, PayloadType: c.typ, Padding: op.Bool("pad")}
			if op.Bool("other") {
				hd.PayloadType = 33
			}
			if err := c.h.HandleRTP(hd, buf); err != nil {
				o["err"] = "handler"
			}
			for i := range buf { // the buffer is the reader's
				buf[i] = 0x11
			}
			hd.PayloadType = 99
		case "leave":
			c := cs[op.Int("c")]
			c.h.Close()
			if op.Bool("close") {
				if err := c.in.Close(); err != nil {
					o["err"] = "close"
				}
			} else {
				m.RemoveInput(c.in)
			}
			c.gone = true
		case "stop":
			m.Stop()
			stopped = true
		case "sleep":
			time.Sleep(time.Duration(op.Int("d")) * time.Microsecond)
		default:
			panic(fmt.Sprint("unknown op ", op))
		}
		synctest.Wait()
		out.mu.Lock()
		ps := out.pkts
		out.pkts = nil
		out.mu.Unlock()
		if ps == nil {
			ps = []any{}
		}
		times := []int{}
		for _, p := range ps {
			times = append(times, p.([]any)[0].(int))
		}
		u := func(v interface{ Load() uint64 }) int { return clamp(v.Load()) }
		o["packets"], o["count"], o["times"] = ps, len(ps), times
		o["tracks"] = []int{int(st.Tracks.Load()), u(&st.TracksTotal)}
		o["stats"] = []int{u(&st.Restarts), u(&st.InputSamplesDropped), u(&st.MixedSamples), u(&st.OutputFrames), u(&st.WriteErrors)}
		r.Event(op, o)
	}
	for _, c := range cs {
		if !c.gone {
			c.h.Close()
		}
	}
	if !stopped {
		m.Stop()
	}
}


// runRoomPar is a conference whose callers have goroutines of their own.
func runRoomPar(sc *Scenario, r *Rec) {
	start := time.Now()
	out := &roomOut{us: func() int { return int(time.Since(start) / time.Microsecond) }}
	out.on = func(h *prtp.Header, us []int) {
		r.Event(M{"ev": "frame"}, M{"us": us, "at": []int{int(h.SequenceNumber), int(h.Timestamp)}})
	}
	codec := rtp.CodecByPayloadType(0).(rtp.AudioCodec)
	var st mixer.Stats
	m, err := mixer.NewMixer(codec.EncodeRTP(rtp.NewSeqWriter(out).NewStream(0, 8000)), rtp.DefFrameDur, 1,
		mixer.WithStats(&st), mixer.WithInputBufferFrames(sc.Cfg.Int("frames")))
	if err != nil {
		panic(err)
	}
	type caller struct {
		in *mixer.Input
		h  rtp.HandlerCloser
		sn uint16
	}
	join := func() *caller {
		in := m.NewInput()
		if in == nil {
			return nil
		}
		mux := rtp.NewMux(nil)
		mux.Register(0, codec.DecodeRTP(in, 0))
		return &caller{in: in, h: rtp.HandleJitter(roomHandler{mux})}
	}
	says := sc.Cfg.Ints("says")
	cs := []*caller{join(), join()}
	extra := make([][]*caller, sc.Cfg.Int("threads"))
	var made, gone, errs atomic.Int64
	made.Store(2)
	var units [2]int
	send := func(c *caller, code, n int) {
		p := make([]byte, 80*n)
		for i := range p {
			p[i] = byte(code)
		}
		if c.h.HandleRTP(&prtp.Header{Version: 2, SequenceNumber: c.sn, Timestamp: uint32(c.sn) * 160, SSRC: 7}, p) != nil {
			errs.Add(1)
		}
		for i := range p {
			p[i] = 0x80
		}
	}
	leave := func(c *caller, n int) {
		c.h.Close()
		if n%2 == 0 {
			m.RemoveInput(c.in)
		} else if c.in.Close() != nil {
			errs.Add(1)
		}
		gone.Add(1)
	}
	threadsOf(sc, func(t int, op M) {
		n := op.Int("n")
		switch op.Str("k") {
		case "rtp": // thread t is caller t
			units[t] += n
			send(cs[t], says[t], n)
			cs[t].sn++
		case "lost":
			cs[t].sn++
		case "leave":
			leave(cs[t], n)
			time.Sleep(1) // the update in progress ends
			r.raw(M{"ev": "left", "i": t, "o": M{}})
		case "join":
			if c := join(); c != nil {
				made.Add(1)
				extra[t] = append(extra[t], c)
			}
		case "quiet":
			for _, c := range extra[t] {
				send(c, 255, 2)
				c.sn += uint16(1 + n%2)
			}
		case "hangup":
			if q := extra[t]; len(q) > 0 {
				leave(q[0], n)
				extra[t] = q[1:]
			}
		case "desc":
			if m.String() == "" || cs[0].h.String() == "" {
				panic("no description")
			}
		case "stop":
			m.Stop()
			time.Sleep(1)
			r.raw(M{"ev": "stopped", "o": M{}})
		}
	})
	time.Sleep(time.Until(start.Add(1000*time.Millisecond + 250*time.Microsecond)))
	r.Event(M{"ev": "end"}, M{"tracks": []int{int(st.Tracks.Load()), clamp(st.TracksTotal.Load())}, "want": []int{int(made.Load() - gone.Load()), int(made.Load())},
		"pace": 50, "units": units[:], "errs": int(errs.Load())})
	m.Stop()
	for _, q := range append(extra, cs) {
		for _, c := range q {
			c.h.Close()
		}
	}
}
