package main

import (
	"context"
	"errors"
	"fmt"
	"math"
	"slices"
	"sync"
	"testing/synctest"
	"time"

	prtp "github.com/pion/rtp"

	msdk "github.com/livekit/media-sdk"
	"github.com/livekit/media-sdk/dtmf"
	"github.com/livekit/media-sdk/rtp"
	"github.com/livekit/media-sdk/tones"
)

var dtmfHz = []int{697, 770, 852, 941, 1209, 1336, 1477, 1633}

// analyse fits sines of the given frequencies to a frame that begins t0 seconds after the start.
// It returns [hz, amplitude in percent of vol, phase in degrees] of those that are heard, and whether
// nothing else is in the frame.
func analyse(x []int16, rate float64, t0 float64, freqs []int, vol float64) (parts [][]int, clean bool) {
	parts = [][]int{}
	quiet := true
	for _, v := range x {
		quiet = quiet && v == 0
	}
	if quiet {
		return parts, true
	}
	k := 2 * len(freqs)
	n := len(x)
	if n < k {
		return parts, false
	}
	basis := func(i, j int) float64 {
		ph := 2 * math.Pi * math.Mod(float64(freqs[j/2])*(t0+float64(i)/rate), 1)
		if j%2 == 0 {
			return math.Sin(ph)
		}
		return math.Cos(ph)
	}
	a := make([][]float64, k) // normal equations
	for j := range a {
		a[j] = make([]float64, k+1)
	}
	row := make([]float64, k)
	for i := range n {
		for j := range row {
			row[j] = basis(i, j)
		}
		for j := range k {
			for m := range k {
				a[j][m] += row[j] * row[m]
			}
			a[j][k] += row[j] * float64(x[i])
		}
	}
	for c := range k {
		p := c
		for r := c + 1; r < k; r++ {
			if math.Abs(a[r][c]) > math.Abs(a[p][c]) {
				p = r
			}
		}
		a[c], a[p] = a[p], a[c]
		if math.Abs(a[c][c]) < 1e-9 {
			return parts, false
		}
		for r := range k {
			if r != c {
				f := a[r][c] / a[c][c]
				for m := c; m <= k; m++ {
					a[r][m] -= f * a[c][m]
				}
			}
		}
	}
	w := make([]float64, k)
	for j := range k {
		w[j] = a[j][k] / a[j][j]
	}
	var rest float64
	for i := range n {
		v := float64(x[i])
		for j := range k {
			v -= w[j] * basis(i, j)
		}
		rest = max(rest, math.Abs(v))
	}
	for j := range freqs {
		s, c := w[2*j], w[2*j+1]
		amp := math.Hypot(s, c)
		if pct := int(math.Round(100 * amp / vol)); pct >= 3 {
			deg := int(math.Round(math.Atan2(c, s)*180/math.Pi)+360) % 360
			parts = append(parts, []int{freqs[j], pct, deg})
		}
	}
	return parts, rest <= 3+vol/200
}

// toneSink records frames of PCM; with a stream every frame is also sent as a packet.
type toneSink struct {
	mu     sync.Mutex
	rate   int
	vol    float64
	freqs  []int
	fail   bool
	start  time.Time
	frames []any
	times  []int
	peak   int
	n      int // frames since the start
	out    *rtp.Stream
	last   [][]int
	plain  bool // only record the samples
}

var errAudio = errors.New("audio failed")

func (s *toneSink) String() string  { return "tones" }
func (s *toneSink) SampleRate() int { return s.rate }
func (s *toneSink) Close() error    { return nil }

// WriteSample records [samples, frequencies, percents, whether clean and in phase with the frame before].
func (s *toneSink) WriteSample(x msdk.PCM16Sample) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.fail {
		return errAudio
	}
	if s.plain {
		s.n++
		s.frames = append(s.frames, ints(x))
		s.times = append(s.times, int(time.Since(s.start)/time.Microsecond))
		return nil
	}
	parts, clean := analyse(x, float64(s.rate), float64(s.n)*0.02, s.freqs, s.vol)
	s.n++
	hz, pct, smooth := []int{}, []int{}, true
	for _, p := range parts {
		hz, pct = append(hz, p[0]), append(pct, p[1])
		for _, q := range s.last {
			if q[0] == p[0] && p[1] >= 10 && q[1] >= 10 {
				d := (p[2] - q[2] + 720) % 360
				smooth = smooth && (d <= 8 || d >= 352)
			}
		}
	}
	s.last = parts
	for _, v := range x {
		s.peak = max(s.peak, int(math.Abs(float64(v))))
	}
	s.frames = append(s.frames, M{"n": len(x), "hz": hz, "pct": pct, "clean": clean, "smooth": smooth})
	s.times = append(s.times, int(time.Since(s.start)/time.Microsecond))
	if s.out != nil {
		return s.out.WritePayload([]byte{1}, false)
	}
	return nil
}

func (s *toneSink) take() ([]any, []int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	f, t := s.frames, s.times
	s.frames, s.times = []any{}, []int{}
	if f == nil {
		f, t = []any{}, []int{}
	}
	return f, t
}

type toneRTP struct {
	mu    sync.Mutex
	fail  bool
	at    int // 1: the next packet is refused, 2: the one after it, ...
	start time.Time
	pkts  []any
	times []int
}

var errRTP = errors.New("rtp failed")

func (w *toneRTP) String() string { return "rtp" }
func (w *toneRTP) WriteRTP(h *prtp.Header, p []byte) (int, error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.at > 0 {
		if w.at--; w.at == 0 {
			return 0, errRTP
		}
	}
	if w.fail {
		return 0, errRTP
	}
	ev := []any{}
	if len(p) == 4 {
		ev = []any{int(p[0]), p[1]&0x80 != 0, int(p[2])<<8 | int(p[3])}
	} else if len(p) != 1 {
		ev = []any{len(p)}
	}
	w.pkts = append(w.pkts, []any{int(h.SequenceNumber), int(h.Timestamp), int(h.PayloadType), h.Marker, ev})
	w.times = append(w.times, int(time.Since(w.start)/time.Microsecond))
	return len(p), nil
}

func (w *toneRTP) take() ([]any, []int) {
	w.mu.Lock()
	defer w.mu.Unlock()
	p, t := w.pkts, w.times
	w.pkts, w.times = []any{}, []int{}
	if p == nil {
		p, t = []any{}, []int{}
	}
	return p, t
}

func retName(err error) string {
	switch {
	case err == nil:
		return "nil"
	case errors.Is(err, context.Canceled):
		return "cancel"
	case errors.Is(err, errAudio):
		return "audio"
	case errors.Is(err, errRTP):
		return "rtp"
	}
	return err.Error()
}

func init() {
	reg("dtmf", true, runDTMF)
	reg("dtmfcode", false, runDTMFCode)
	reg("tones", true, runTones)
	reg("tonegen", false, runToneGen)
}

// ticking runs a call in the background and reports its outputs for every 20 ms.
type ticking struct {
	sink   *toneSink
	rtp    *toneRTP
	ret    chan error
	cancel context.CancelFunc
	on     bool
	start  time.Time
	k      int
	per    time.Duration // 20 ms if not set
	hook   func(o M) M   // changes what is reported
}

func (t *ticking) begin(f func(ctx context.Context) error) {
	ctx, cancel := context.WithCancel(context.Background())
	t.cancel, t.on, t.start, t.k = cancel, true, time.Now(), 0
	ret := make(chan error, 1)
	t.ret = ret
	if t.sink != nil {
		t.sink.start, t.sink.n, t.sink.last = t.start, 0, nil
	}
	if t.rtp != nil {
		t.rtp.start = t.start
	}
	go func() { ret <- f(ctx) }()
	synctest.Wait()
}

func (t *ticking) obs() M {
	o := M{"ret": "", "frame": []any{}, "pkts": []any{}, "late": false}
	late := false
	at := func(ts []int) {
		for _, v := range ts {
			late = late || v != t.k*int(t.period()/time.Microsecond)
		}
	}
	if t.sink != nil {
		f, ts := t.sink.take()
		at(ts)
		o["frame"] = f
	}
	if t.rtp != nil {
		p, ts := t.rtp.take()
		at(ts)
		o["pkts"] = p
	}
	o["late"] = late
	if t.on {
		select {
		case err := <-t.ret:
			t.on = false
			o["ret"] = retName(err)
		default:
		}
	}
	if t.hook != nil {
		o = t.hook(o)
	}
	return o
}

func (t *ticking) period() time.Duration {
	if t.per > 0 {
		return t.per
	}
	return 20 * time.Millisecond
}

// tick runs until the next multiple of 20 ms since the call.
func (t *ticking) tick() M {
	t.k++
	time.Sleep(time.Until(t.start.Add(time.Duration(t.k) * t.period())))
	synctest.Wait()
	return t.obs()
}

func (t *ticking) stop() M {
	// between two steps
	time.Sleep(t.period() / 3)
	t.cancel()
	synctest.Wait()
	return t.obs()
}

// run executes the operations common to both players.
func (t *ticking) run(op M, r *Rec) bool {
	switch op["ev"] {
	case "tick":
		r.Event(op, t.tick())
	case "ticks":
		for i := 0; i < op.Int("n") && t.on; i++ {
			r.Event(M{"ev": "tick"}, t.tick())
		}
	case "cancel":
		r.Event(op, t.stop())
	case "faila":
		t.sink.mu.Lock()
		t.sink.fail = op.Bool("on")
		t.sink.mu.Unlock()
		r.Event(op, t.obs())
	case "failr":
		t.rtp.mu.Lock()
		t.rtp.fail, t.rtp.at = op.Bool("on"), 0
		if op.Has("at") {
			t.rtp.fail, t.rtp.at = false, op.Int("at")+1
		}
		t.rtp.mu.Unlock()
		r.Event(op, t.obs())
	default:
		return false
	}
	return true
}

func runDTMF(sc *Scenario, r *Rec) {
	t := &ticking{}
	var events *rtp.Stream
	defer func() {
		if t.on {
			t.cancel()
			<-t.ret
		}
	}()
	for _, op := range sc.Ops {
		if t.run(op, r) {
			continue
		}
		switch op["ev"] {
		case "open":
			t.rtp = &toneRTP{}
			sw := rtp.NewSeqWriter(t.rtp)
			if mode := op.Str("mode"); mode != "none" {
				rate := op.Int("rate")
				if rate == 0 {
					rate = 8000
				}
				t.sink = &toneSink{rate: rate, vol: math.MaxInt16, freqs: dtmfHz}
				if mode == "rtp" {
					t.sink.out = sw.NewStream(0, 8000)
				}
			}
			events = sw.NewStream(101, 8000)
			if !op.Bool("events") {
				events = nil
			}
			r.Event(op, M{})
		case "write":
			var audio msdk.Writer[msdk.PCM16Sample]
			if t.sink != nil {
				audio = t.sink
			}
			digits := string(bytesOf(op.Ints("digits")))
			t.begin(func(ctx context.Context) error {
				return dtmf.Write(ctx, audio, events, uint32(op.Int("ts")), digits)
			})
			r.Event(op, t.obs())
		default:
			panic(fmt.Sprint("unknown op ", op))
		}
	}
}

func evOf(ev dtmf.Event) []any {
	return []any{int(ev.Code), int(ev.Digit), int(ev.Volume), ev.End, int(ev.Dur)}
}

func runDTMFCode(sc *Scenario, r *Rec) {
	for _, op := range sc.Ops {
		o := M{}
		b := bytesOf(op.Ints("b"))
		ev := dtmf.Event{Code: byte(op.Int("code")), Digit: byte(op.Int("digit")), Volume: byte(op.Int("vol")), End: op.Bool("end"), Dur: uint16(op.Int("dur"))}
		p := guard(func() {
			switch op["ev"] {
			case "enc":
				out := make([]byte, op.Int("n")+4)
				for i := range out {
					out[i] = 0xA5
				}
				n, err := dtmf.Encode(out[:op.Int("n"):op.Int("n")], ev)
				o["err"] = err != nil
				if err == nil {
					o["n"], o["b"] = n, ints(out[:4])
				}
				kept := true
				if err == nil {
					out = out[4:]
				}
				for _, v := range out {
					kept = kept && v == 0xA5
				}
				o["kept"] = kept
			case "dec":
				e, err := dtmf.Decode(b)
				o["err"] = err != nil
				if err == nil {
					o["v"] = evOf(e)
				}
				for _, m := range []bool{false, true} {
					k := []any{}
					if e, ok := dtmf.DecodeRTP(&rtp.Header{Marker: m}, slices.Clone(b)); ok {
						k = evOf(e)
					}
					if m {
						o["rtpm"] = k
					} else {
						o["rtp"] = k
					}
				}
			case "decall":
				all, back := []any{}, []any{}
				for i := range 256 {
					e, err := dtmf.Decode([]byte{byte(op.Int("c")), byte(i), byte(op.Int("hi")), byte(op.Int("lo"))})
					if err != nil {
						panic(err)
					}
					all = append(all, evOf(e))
					var out [4]byte
					if _, err := dtmf.Encode(out[:], e); err != nil {
						panic(err)
					}
					back = append(back, ints(out[:]))
				}
				o["all"], o["back"] = all, back
			case "durall":
				all, back := []any{}, []int{}
				for i := range 256 {
					e := ev
					e.Dur += uint16(i)
					var out [4]byte
					if _, err := dtmf.Encode(out[:], e); err != nil {
						panic(err)
					}
					all = append(all, ints(out[:]))
					e, err := dtmf.Decode(out[:])
					if err != nil {
						panic(err)
					}
					back = append(back, int(e.Dur))
				}
				o["all"], o["back"] = all, back
			case "tone":
				code, hz := dtmf.Tone(byte(op.Int("c")))
				o["code"] = int(code)
				l := []int{}
				for _, f := range hz {
					l = append(l, int(f))
				}
				slices.Sort(l)
				o["hz"] = l
			default:
				panic(fmt.Sprint("unknown op ", op))
			}
		})
		if p != nil {
			o["panic"] = true
		}
		r.Event(op, o)
	}
}

func toneList(op M) []tones.Tone {
	out := []tones.Tone{}
	for _, m := range op.List("tones") {
		t := tones.Tone{Dur: time.Duration(m.Int("dur")) * time.Microsecond, Silence: time.Duration(m.Int("sil")) * time.Microsecond}
		for _, f := range m.Ints("hz") {
			t.Freq = append(t.Freq, tones.Hz(f))
		}
		out = append(out, t)
	}
	return out
}

func allHz(ts []tones.Tone) []int {
	out := []int{}
	for _, t := range ts {
		for _, f := range t.Freq {
			if !slices.Contains(out, int(f)) {
				out = append(out, int(f))
			}
		}
	}
	slices.Sort(out)
	return out
}

func runTones(sc *Scenario, r *Rec) {
	t := &ticking{}
	defer func() {
		if t.on {
			t.cancel()
			<-t.ret
		}
	}()
	for _, op := range sc.Ops {
		if t.run(op, r) {
			continue
		}
		switch op["ev"] {
		case "play":
			list := toneList(op)
			switch op.Str("std") {
			case "dial":
				list = tones.ETSIDial
			case "ring":
				list = tones.ETSIRinging
			case "busy":
				list = tones.ETSIBusy
			}
			t.sink = &toneSink{rate: op.Int("rate"), vol: float64(op.Int("vol")), freqs: allHz(list)}
			t.begin(func(ctx context.Context) error {
				return tones.Play(ctx, t.sink, int16(op.Int("vol")), list)
			})
			r.Event(op, t.obs())
		default:
			panic(fmt.Sprint("unknown op ", op))
		}
	}
	if t.sink != nil {
		r.Event(M{"ev": "peak"}, M{"peak": t.sink.peak})
	}
}

// runToneGen generates consecutive pieces of one sound.
func runToneGen(sc *Scenario, r *Rec) {
	rate := sc.Cfg.Int("rate")
	vol := sc.Cfg.Int("vol")
	hz := []tones.Hz{}
	for _, f := range sc.Cfg.Ints("hz") {
		hz = append(hz, tones.Hz(f))
	}
	var ts time.Duration
	sink := &toneSink{rate: rate, vol: float64(vol), freqs: sc.Cfg.Ints("hz")}
	all := []int16{}
	for _, op := range sc.Ops {
		n := op.Int("n")
		buf := make(msdk.PCM16Sample, n)
		for i := range buf {
			buf[i] = 12345
		}
		dur := time.Duration(n) * time.Second / time.Duration(rate)
		ret := tones.Generate(buf, ts, dur, int16(vol), hz)
		o := M{"ret": ret == ts+dur}
		ts += dur
		all = append(all, buf...)
		parts, clean := analyse(all, float64(rate), 0, sink.freqs, float64(vol))
		pct := []int{}
		f := []int{}
		for _, p := range parts {
			f, pct = append(f, p[0]), append(pct, p[1])
		}
		peak := 0
		for _, v := range all {
			peak = max(peak, int(math.Abs(float64(v))))
		}
		o["gen"] = M{"hz": f, "pct": pct, "clean": clean, "n": len(all)}
		o["peak"] = peak
		r.Event(op, o)
	}
}
