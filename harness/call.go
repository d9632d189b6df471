package main

import (
	"bytes"
	"context"
	"fmt"
	"math/rand/v2"
	"net/netip"
	"slices"
	"strings"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"

	"github.com/pion/interceptor"
	prtp "github.com/pion/rtp"

	libg722 "github.com/gotranspile/g722"

	"github.com/livekit/protocol/logger"

	msdk "github.com/livekit/media-sdk"
	"github.com/livekit/media-sdk/dtmf"
	"github.com/livekit/media-sdk/rtp"
	"github.com/livekit/media-sdk/sdp"
	"github.com/livekit/media-sdk/srtp"
)

func init() {
	reg("call", true, runCall)
}

// tapOut records what a sender writes before the session sees it.
type tapOut struct {
	w    rtp.WriteStream
	pkts []*prtp.Packet
}

func (t *tapOut) String() string { return "tap" }
func (t *tapOut) WriteRTP(h *prtp.Header, p []byte) (int, error) {
	n, err := t.w.WriteRTP(h, p)
	if err == nil {
		t.pkts = append(t.pkts, &prtp.Packet{Header: h.Clone(), Payload: slices.Clone(p)})
	}
	return n, err
}

// sessReader reads a stream of a session like callers do, reusing one buffer.
type sessReader struct {
	r   rtp.ReadStream
	buf []byte
}

func (s *sessReader) ReadRTP() (*prtp.Packet, interceptor.Attributes, error) {
	p := &prtp.Packet{}
	n, err := s.r.ReadRTP(&p.Header, s.buf)
	if err != nil {
		return nil, nil, err
	}
	p.Payload = s.buf[:n]
	return p, nil, nil
}

// refDecoder decodes with the codec library alone: the reference for what a receiver must hear.
func refDecoder(codec string, w msdk.PCM16Writer) func(b []byte) {
	if codec == "G722/8000" {
		f, rate := libg722.Flags(0), 16000
		if w.SampleRate() == 8000 {
			f, rate = libg722.FlagSampleRate8000, 8000
		}
		d := libg722.NewDecoder(libg722.Rate64000, f)
		w = msdk.ResampleWriter(w, rate)
		return func(b []byte) {
			out := make([]int16, 2*len(b))
			n := d.Decode(out, b)
			_ = w.WriteSample(out[:n])
		}
	}
	c := law(map[string]string{"PCMU/8000": "u", "PCMA/8000": "a"}[codec])
	w = msdk.ResampleWriter(w, 8000)
	return func(b []byte) {
		out := make([]int16, len(b))
		c.decTo(out, b)
		_ = w.WriteSample(out)
	}
}

// alike tells whether two coded sounds are the same but for the last bit of what was coded.
func alike(codec string, rate int, a, b []byte) bool {
	x, y := &pcmSink{rate: rate}, &pcmSink{rate: rate}
	refDecoder(codec, x)(a)
	refDecoder(codec, y)(b)
	sum, n := 0, 0
	u, v := allPCM(x), allPCM(y)
	for i := range u {
		sum += abs(int(u[i]) - int(v[i]))
		n++
	}
	return sum <= 50*n
}

func refEncoder(codec string) func(x msdk.PCM16Sample) []byte {
	if codec == "G722/8000" {
		e := libg722.NewEncoder(libg722.Rate64000, 0)
		return func(x msdk.PCM16Sample) []byte {
			out := make([]byte, len(x))
			n := e.Encode(out, x)
			return out[:n]
		}
	}
	c := law(map[string]string{"PCMU/8000": "u", "PCMA/8000": "a"}[codec])
	return func(x msdk.PCM16Sample) []byte {
		out := make([]byte, len(x))
		c.encTo(out, x)
		return out
	}
}

// callSide is one end of a call, set up from its configuration alone.
type callSide struct {
	conf   *sdp.MediaConfig
	conn   *fakeConn
	sess   rtp.Session
	tap    *tapOut
	audio  *rtp.Stream
	events *rtp.Stream
	sw     *msdk.SwitchWriter
	said   int // samples written
	spoken msdk.PCM16Sample
	refE   func(x msdk.PCM16Sample) []byte
	refR   msdk.PCM16Writer // resamples what is said to the codec's rate, if it has to be
	refOut *pcmSink
	want   []byte // what the payloads should be, all together
	wrote  []byte

	mu     sync.Mutex
	heard  []any
	digits []any
	sink   *pcmSink
	refS   *pcmSink
	refD   func(b []byte)
	dec    rtp.Handler
	closed int
	ended  bool
	hnd    rtp.HandlerCloser
	got    bool // there was a stream
	acc    bool
}

func (c *callSide) String() string { return "side" }

func allPCM(s *pcmSink) msdk.PCM16Sample {
	s.mu.Lock()
	defer s.mu.Unlock()
	var out msdk.PCM16Sample
	for _, g := range s.got {
		out = append(out, pcm(g.([]any)[0].([]int))...)
	}
	return out
}

type closeCount struct {
	rtp.Handler
	c *callSide
}

func (h closeCount) Close() { h.c.mu.Lock(); h.c.closed++; h.c.mu.Unlock() }

func runCall(sc *Scenario, r *Rec) {
	start := time.Now()
	names := sc.Cfg.Strs("codecs")
	us := func() int { return int(time.Since(start) / time.Microsecond) }
	var sides [2]*callSide
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	log := logger.GetLogger()
	negotiate := func(op M, o M) bool {
		ena, enb := op.Strs("ena"), op.Strs("enb")
		setEnabled(names, ena)
		off, err := sdp.NewOffer(netip.MustParseAddr("10.0.0.1"), 4000, sdpEnc[op.Str("enca")])
		if err != nil {
			o["err"] = "offer"
			return false
		}
		raw, err := off.SDP.Marshal()
		if err != nil {
			o["err"] = "marshal"
			return false
		}
		setEnabled(names, enb)
		off2, err := sdp.ParseOffer(raw)
		if err != nil {
			o["err"] = "parse"
			return false
		}
		ans, cb, err := off2.Answer(netip.MustParseAddr("10.0.0.2"), 5000, sdpEnc[op.Str("encb")])
		if o["err"] = sdpErr(err); err != nil {
			return false
		}
		raw, err = ans.SDP.Marshal()
		if err != nil {
			o["err"] = "marshal"
			return false
		}
		setEnabled(names, ena)
		ans2, err := sdp.ParseAnswer(raw)
		if err != nil {
			o["err"] = "parseanswer"
			return false
		}
		ca, err := ans2.Apply(off, sdpEnc[op.Str("enca")])
		if o["err"] = sdpErr(err); err != nil {
			return false
		}
		sides[0], sides[1] = &callSide{conf: ca}, &callSide{conf: cb}
		return true
	}
	setup := func(op M, o M) {
		if !negotiate(op, o) {
			return
		}
		var kinds []any
		for i, c := range sides {
			info := c.conf.Audio.Codec.Info()
			kinds = append(kinds, []any{info.SDPName, int(c.conf.Audio.Type), int(c.conf.Audio.DTMFType), c.conf.Crypto != nil})
			c.conn = newFakeConn()
			if c.conf.Crypto != nil {
				s, err := srtp.NewSession(log, c.conn, c.conf.Crypto)
				if err != nil {
					panic(err)
				}
				c.sess = s
			} else {
				c.sess = rtp.NewSession(log, c.conn)
			}
			w, err := c.sess.OpenWriteStream()
			if err != nil {
				panic(err)
			}
			c.tap = &tapOut{w: w}
			seq := rtp.NewSeqWriter(c.tap)
			c.audio = seq.NewStream(c.conf.Audio.Type, info.RTPClockRate)
			if c.conf.Audio.DTMFType != 0 {
				c.events = seq.NewStream(c.conf.Audio.DTMFType, dtmf.SampleRate)
			}
			in := op.Ints("in")[i]
			c.sw = msdk.NewSwitchWriter(in)
			c.sw.Swap(c.conf.Audio.Codec.EncodeRTP(c.audio))
			c.refE = refEncoder(info.SDPName)
			c.refOut = &pcmSink{rate: info.SampleRate}
			c.refR = msdk.ResampleWriter(c.refOut, in)
			// receiver
			c.sink, c.refS = &pcmSink{rate: op.Ints("out")[i]}, &pcmSink{rate: op.Ints("out")[i]}
			c.refD = refDecoder(info.SDPName, c.refS)
		}
		for i, c := range sides {
			peer := sides[1-i]
			match := func(h *prtp.Header, p []byte) {
				id := -1
				for k, q := range peer.tap.pkts {
					a, err1 := q.Marshal()
					b, err2 := (&prtp.Packet{Header: *h, Payload: p}).Marshal()
					if err1 == nil && err2 == nil && bytes.Equal(a, b) {
						id = k + 1
						break
					}
				}
				c.mu.Lock()
				c.heard = append(c.heard, []any{us(), id})
				c.mu.Unlock()
			}
			mux := rtp.NewMux(nil)
			c.dec = c.conf.Audio.Codec.DecodeRTP(c.sink, c.conf.Audio.Type)
			mux.Register(c.conf.Audio.Type, rtp.HandlerFunc(func(h *prtp.Header, p []byte) error {
				match(h, p)
				c.refD(slices.Clone(p))
				return c.dec.HandleRTP(h, p)
			}))
			if c.conf.Audio.DTMFType != 0 {
				mux.Register(c.conf.Audio.DTMFType, rtp.HandlerFunc(func(h *prtp.Header, p []byte) error {
					match(h, p)
					if ev, ok := dtmf.DecodeRTP(h, p); ok {
						c.mu.Lock()
						c.digits = append(c.digits, string(rune(ev.Digit)))
						c.mu.Unlock()
					}
					return nil
				}))
			}
			hnd := rtp.HandleJitter(closeCount{mux, c})
			c.hnd = hnd
			go func() {
				defer func() { c.mu.Lock(); c.acc = true; c.mu.Unlock() }()
				for {
					s, _, err := c.sess.AcceptStream()
					if err != nil {
						return
					}
					c.mu.Lock()
					c.got = true
					c.mu.Unlock()
					go func() {
						err := rtp.HandleLoop(&sessReader{s, make([]byte, rtp.MTUSize)}, hnd)
						c.mu.Lock()
						c.ended = err != nil
						c.mu.Unlock()
					}()
				}
			}()
		}
		o["kinds"] = kinds
	}
	sent := [2]int{}
	var wg sync.WaitGroup
	var busy [2]atomic.Bool // digits are being sent
	exec := func(op M) {
		o := M{"err": ""}
		d := op.Int("d")
		p := guard(func() {
			if op["ev"] == "setup" {
				setup(op, o)
				return
			}
			if sides[0] == nil {
				return
			}
			c := sides[d]
			switch op["ev"] {
			case "say":
				rate := c.sw.SampleRate()
				n := rate / rtp.DefFramesPerSec
				x := signal(op.Str("sig"), rate, c.said, n)
				c.said += n
				y := slices.Clone(x)
				if err := c.sw.WriteSample(x); err != nil {
					o["err"] = "write"
					return
				}
				_ = c.refR.WriteSample(y)
				for _, g := range c.refOut.take() {
					c.want = append(c.want, c.refE(pcm(g.([]any)[0].([]int)))...)
				}
			case "digit":
				if c.events == nil {
					o["err"] = "none"
					return
				}
				ts := c.audio.GetCurrentTimestamp()
				wg.Add(1)
				busy[d].Store(true)
				go func() {
					defer wg.Done()
					defer busy[d].Store(false)
					_ = dtmf.Write(ctx, nil, c.events, ts, strings.Join(op.Strs("ds"), ""))
				}()
			case "net":
				k := op.Int("i")
				if k > len(c.conn.out) {
					panic("no such datagram")
				}
				sides[1-d].conn.inject(slices.Clone(c.conn.out[k-1]))
			case "sleep":
				time.Sleep(time.Duration(op.Int("t")) * time.Microsecond)
			case "again":
				// the media are set up again, with the codec, the stream and the sink there are
				info := c.conf.Audio.Codec.Info()
				c.dec = c.conf.Audio.Codec.DecodeRTP(c.sink, c.conf.Audio.Type)
				c.refD = refDecoder(info.SDPName, c.refS)
				if c.sw.SampleRate() == info.SampleRate { // a resampler would lose what it holds
					c.sw.Swap(c.conf.Audio.Codec.EncodeRTP(c.audio))
					c.refE = refEncoder(info.SDPName)
				}
			case "hangup":
				if err := c.sess.Close(); err != nil {
					o["err"] = err.Error()
				}
			default:
				panic(fmt.Sprint("unknown op ", op))
			}
		})
		synctest.Wait()
		if p != nil {
			o["panic"] = fmt.Sprint(p)
		}
		if sides[0] != nil && sides[0].sink != nil {
			var out, heard, digits, total, good, ends, fits []any
			for i, c := range sides {
				// the datagrams on the connection are what was written
				if len(c.conn.out) != len(c.tap.pkts) {
					panic("a packet is missing on the wire")
				}
				now := []any{}
				for ; sent[i] < len(c.tap.pkts); sent[i]++ {
					q := c.tap.pkts[sent[i]]
					kind := "other"
					switch q.PayloadType {
					case c.conf.Audio.Type:
						kind = "audio"
						c.wrote = append(c.wrote, q.Payload...)
					case c.conf.Audio.DTMFType:
						kind = "digit"
					}
					dig := ""
					if kind == "digit" {
						if ev, err := dtmf.Decode(q.Payload); err == nil {
							dig = string(rune(ev.Digit))
						}
					}
					now = append(now, []any{kind, int(q.SequenceNumber), int(q.Timestamp), q.Marker, len(q.Payload), dig})
				}
				out = append(out, now)
				fit := len(c.want) == len(c.wrote)
				if fit && c.sw.SampleRate() == c.conf.Audio.Codec.Info().SampleRate {
					fit = bytes.Equal(c.want, c.wrote)
				} else if fit {
					fit = alike(c.conf.Audio.Codec.Info().SDPName, c.conf.Audio.Codec.Info().SampleRate, c.want, c.wrote)
				}
				fits = append(fits, fit)
				c.mu.Lock()
				h, g := c.heard, c.digits
				if h == nil {
					h = []any{}
				}
				if g == nil {
					g = []any{}
				}
				heard, digits = append(heard, h), append(digits, g)
				c.heard, c.digits = nil, nil
				ends = append(ends, []any{c.ended, c.closed, c.acc})
				c.mu.Unlock()
				a, b := allPCM(c.sink), allPCM(c.refS)
				// the last bit of a resampled sample is dithered
				tol := 0
				if c.sink.rate != c.conf.Audio.Codec.Info().SampleRate {
					tol = 2
				}
				good = append(good, slices.EqualFunc(a, b, func(x, y int16) bool { return abs(int(x)-int(y)) <= tol }))
				total = append(total, len(a))
			}
			o["sent"], o["heard"], o["digits"], o["pcm"], o["total"], o["ends"], o["coded"] = out, heard, digits, good, total, ends, fits
		}
		r.Event(op, o)
	}
	// the network: what becomes of the packets sent since the last time
	rng := rand.New(rand.NewPCG(uint64(sc.Cfg.Int("seed")), 1))
	var known [2]int
	var held [2][]int
	flow := func(d int, loss, dup, late float64) {
		if sides[0] == nil {
			return
		}
		now := []int{}
		for ; known[d] < len(sides[d].conn.out); known[d]++ {
			k := known[d] + 1
			if rng.Float64() < loss {
				continue
			}
			for n := 1; n > 0; n-- {
				if rng.Float64() < dup {
					n++
				}
				if rng.Float64() < late {
					held[d] = append(held[d], k)
				} else {
					now = append(now, k)
				}
			}
		}
		for i := 0; i < len(held[d]); i++ {
			if rng.Float64() < .4 {
				now = append(now, held[d][i])
				held[d] = slices.Delete(held[d], i, i+1)
				i--
			}
		}
		if late > 0 && rng.Float64() < late {
			rng.Shuffle(len(now), func(i, j int) { now[i], now[j] = now[j], now[i] })
		}
		for _, k := range now {
			exec(M{"ev": "net", "d": d, "i": k})
		}
	}
	for _, op := range sc.Ops {
		switch d := op.Int("d"); {
		case op["ev"] == "flow":
			flow(d, op["loss"].(float64), op["dup"].(float64), op["late"].(float64))
		case op["ev"] == "digit" && busy[d].Load():
		default:
			exec(op)
		}
	}
	cancel()
	wg.Wait()
	for _, c := range sides {
		if c != nil && c.sess != nil {
			_ = c.sess.Close()
		}
	}
	synctest.Wait()
	for _, c := range sides {
		if c != nil && c.hnd != nil && !c.got {
			c.hnd.Close()
		}
	}
	setEnabled(names, nil)
}
