package main

import (
	"errors"
	"fmt"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"

	msdk "github.com/livekit/media-sdk"

	"github.com/livekit/media-sdk/mixer"
)

// slowSink is an output whose calls take a configurable time and may fail.
type slowSink struct {
	rate  int
	start time.Time
	mu    sync.Mutex
	delay time.Duration
	fail  bool
	times []int
	frame []any
}

func (s *slowSink) String() string  { return "sink" }
func (s *slowSink) SampleRate() int { return s.rate }
func (s *slowSink) WriteSample(p msdk.PCM16Sample) error {
	s.mu.Lock()
	s.times = append(s.times, int(time.Since(s.start)/time.Microsecond))
	f := make([]int, len(p))
	for i, v := range p {
		f[i] = int(v)
	}
	s.frame = append(s.frame, f)
	d, fail := s.delay, s.fail
	s.mu.Unlock()
	if d > 0 {
		time.Sleep(d)
	}
	for i := range p { // the frame belongs to the output now
		p[i] = 0x5555
	}
	if fail {
		return errors.New("sink failed")
	}
	return nil
}

func (s *slowSink) take() ([]int, []any) {
	s.mu.Lock()
	defer s.mu.Unlock()
	t, f := s.times, s.frame
	if t == nil {
		t, f = []int{}, []any{}
	}
	s.times, s.frame = nil, nil
	return t, f
}

func pcm(v []int) msdk.PCM16Sample {
	out := make(msdk.PCM16Sample, len(v))
	for i, x := range v {
		out[i] = int16(x)
	}
	return out
}

func init() {
	reg("mixer", true, runMixer)
	reg("mixerpar", true, runMixerPar)
}

func runMixer(sc *Scenario, r *Rec) {
	c := sc.Cfg
	tick := time.Duration(c.Int("tick")) * time.Microsecond
	sink := &slowSink{rate: int((time.Duration(c.Int("sz"))*time.Second + tick - 1) / tick), start: time.Now()}
	var st mixer.Stats
	opts := []mixer.MixerOptions{mixer.WithStats(&st)}
	if n := c.Int("framesopt"); n != 0 {
		opts = append(opts, mixer.WithInputBufferFrames(n))
	}
	if n := c.Int("chan"); c.Has("chanopt") {
		opts = append(opts, mixer.WithOutputChannelSize(c.Int("chanopt")))
	} else if n == 1 {
		opts = append(opts, mixer.WithOutputChannel())
	} else if n > 1 {
		opts = append(opts, mixer.WithOutputChannelSize(n))
	}
	m, err := mixer.NewMixer(sink, tick, 1, opts...)
	if err != nil {
		panic(err)
	}
	var inputs []*mixer.Input
	stopped := false
	for _, op := range sc.Ops {
		o := M{}
		switch op["ev"] {
		case "new":
			in := m.NewInput()
			if in != nil {
				inputs = append(inputs, in)
			} else if in.Close() != nil { // harmless
				panic("closing no input failed")
			}
			m.RemoveInput(nil)
			if (*mixer.Mixer)(nil).NewInput() != nil {
				panic("an input of no mixer")
			}
			o["nil"] = in == nil
		case "remove":
			if op.Str("api") == "close" {
				if err := inputs[op.Int("id")].Close(); err != nil {
					panic(err)
				}
			} else {
				m.RemoveInput(inputs[op.Int("id")])
			}
		case "write":
			xs := pcm(op.Ints("xs"))
			if err := inputs[op.Int("id")].WriteSample(xs); err != nil {
				panic(err)
			}
			for i := range xs {
				xs[i] = -0x5555
			}
		case "sink":
			sink.mu.Lock()
			sink.delay = time.Duration(op.Int("d")) * time.Microsecond
			sink.fail = op.Bool("fail")
			sink.mu.Unlock()
		case "stop":
			m.Stop()
			stopped = true
		case "sleep":
			time.Sleep(time.Duration(op.Int("d")) * time.Microsecond)
		default:
			panic(fmt.Sprint("unknown op ", op))
		}
		synctest.Wait()
		times, frames := sink.take()
		o["times"], o["frames"], o["count"] = times, frames, len(frames)
		u := func(v interface{ Load() uint64 }) int { return clamp(v.Load()) }
		o["tracks"] = []int{int(st.Tracks.Load()), u(&st.TracksTotal)}
		o["restarts"] = u(&st.Restarts)
		o["clock"] = []int{u(&st.Mixes), u(&st.TimedMixes), u(&st.JumpMixes), u(&st.ZeroMixes), u(&st.NegativeMixes), u(&st.TimingResets)}
		o["input"] = []int{u(&st.InputSamples), u(&st.InputFrames), u(&st.InputSamplesDropped), u(&st.InputFramesDropped)}
		o["mixed"] = []int{u(&st.MixedSamples), u(&st.MixedFrames)}
		o["output"] = []int{u(&st.OutputSamples), u(&st.OutputFrames), u(&st.WriteErrors), u(&st.BlockedMixes)}
		r.Event(op, o)
	}
	if !stopped {
		m.Stop()
	}
}

type mixSink struct {
	rate int
	on   func(msdk.PCM16Sample)
}

func (s *mixSink) String() string  { return "sink" }
func (s *mixSink) SampleRate() int { return s.rate }
func (s *mixSink) WriteSample(p msdk.PCM16Sample) error {
	s.on(p)
	return nil
}

// runMixerPar uses a mixer from several goroutines at the instants of its ticks. Inputs 0 and 1 write
// the numbers 1..100 over and over, the second one times 256; other inputs come and go and write zeros.
func runMixerPar(sc *Scenario, r *Rec) {
	c := sc.Cfg
	start := time.Now()
	tick := time.Millisecond
	sz := c.Int("sz")
	sink := &mixSink{rate: sz * 1000, on: func(p msdk.PCM16Sample) {
		r.Event(M{"ev": "frame"}, M{"xs": ints(p)})
		for i := range p {
			p[i] = 0x5555
		}
	}}
	var st mixer.Stats
	opts := []mixer.MixerOptions{mixer.WithStats(&st), mixer.WithInputBufferFrames(c.Int("frames"))}
	if n := c.Int("chan"); n > 0 {
		opts = append(opts, mixer.WithOutputChannelSize(n))
	}
	m, err := mixer.NewMixer(sink, tick, 1, opts...)
	if err != nil {
		panic(err)
	}
	in := []*mixer.Input{m.NewInput(), m.NewInput()}
	var made, gone, samples, writes atomic.Int64
	made.Store(2)
	next := make([]int, 2)
	var extra []*mixer.Input
	var mu sync.Mutex
	threadsOf(sc, func(t int, op M) {
		switch op.Str("k") {
		case "write": // only thread i writes to input i
			x := make(msdk.PCM16Sample, op.Int("n"))
			for i := range x {
				x[i] = int16((next[t]%100 + 1) << (8 * t))
				next[t]++
			}
			samples.Add(int64(len(x)))
			writes.Add(1)
			if err := in[t].WriteSample(x); err != nil {
				panic(err)
			}
			for i := range x {
				x[i] = 0x5555
			}
		case "leave":
			if in[t].Close() == nil {
				gone.Add(1)
			}
			time.Sleep(1) // the update in progress ends
			r.raw(M{"ev": "left", "i": t, "o": M{}})
		case "new":
			if x := m.NewInput(); x != nil {
				made.Add(1)
				mu.Lock()
				extra = append(extra, x)
				mu.Unlock()
			}
		case "desc":
			if m.String() == "" || in[0].String() == "" {
				panic("no description")
			}
		case "drop":
			mu.Lock()
			var x *mixer.Input
			if n := len(extra); n > 0 {
				x, extra = extra[n-1], extra[:n-1]
			}
			mu.Unlock()
			if x != nil {
				m.RemoveInput(x)
				_ = x.Close()
				gone.Add(1)
			}
		case "zeros":
			mu.Lock()
			var x *mixer.Input
			if n := len(extra); n > 0 {
				x = extra[op.Int("n")%n]
			}
			mu.Unlock()
			if x != nil {
				samples.Add(int64(sz))
				writes.Add(1)
				_ = x.WriteSample(make(msdk.PCM16Sample, sz))
			}
		case "stop":
			m.Stop()
			time.Sleep(1)
			r.raw(M{"ev": "stopped", "o": M{}})
		}
	})
	time.Sleep(time.Until(start.Add(200*time.Millisecond + 250*time.Microsecond)))
	u := func(v interface{ Load() uint64 }) int { return clamp(v.Load()) }
	r.Event(M{"ev": "end"}, M{
		"tracks": []int{int(st.Tracks.Load()), u(&st.TracksTotal)}, "want": []int{int(made.Load() - gone.Load()), int(made.Load())},
		"input":   []int{u(&st.InputSamples), u(&st.InputFrames), u(&st.InputSamplesDropped), u(&st.MixedSamples), u(&st.MixedFrames)},
		"written": []int{int(samples.Load()), int(writes.Load())},
		"output":  []int{u(&st.Mixes), u(&st.OutputFrames), u(&st.OutputSamples), u(&st.WriteErrors)},
	})
	m.Stop()
}
