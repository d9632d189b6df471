package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"runtime"
	"slices"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/pion/webrtc/v4/pkg/media"

	msdk "github.com/livekit/media-sdk"
	"github.com/livekit/media-sdk/g711"
	"github.com/livekit/media-sdk/g722"
	"github.com/livekit/media-sdk/rtp"
	"github.com/livekit/media-sdk/sdp"
)

func init() {
	reg("frames", false, runFrames)
	reg("framespar", false, runFramesPar)
	reg("switch", false, runSwitch)
	reg("switchpar", false, runSwitchPar)
	reg("switchmany", false, runSwitchMany)
	reg("writers", false, runWriters)
	reg("registry", false, runRegistry)
	reg("pcm", false, runPCM)
	reg("playaudio", true, runPlayAudio)
}

var errSink = errors.New("sink failed")

// pcmSink records what is written to it.
type pcmSink struct {
	mu      sync.Mutex
	rate    int
	got     []any
	total   int
	closed  int
	fail    bool
	failAt  int // fails once, after so many calls (-1: never)
	failing bool
	onWrite func(x msdk.PCM16Sample)
	onClose func()
}

func (s *pcmSink) String() string  { return "sink" }
func (s *pcmSink) SampleRate() int { return s.rate }

func (s *pcmSink) WriteSample(x msdk.PCM16Sample) error {
	if s.onWrite != nil {
		s.onWrite(x)
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	s.total += len(x)
	bad := s.fail
	if s.failing {
		bad = s.failAt == 0
		s.failAt--
		s.failing = s.failAt >= 0
		s.got = append(s.got, []any{ints(x), bad})
	} else {
		s.got = append(s.got, []any{ints(x), bad})
	}
	if bad {
		return errSink
	}
	return nil
}

func (s *pcmSink) Close() error {
	if s.onClose != nil {
		s.onClose()
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	s.closed++
	if s.fail {
		return errSink
	}
	return nil
}

func (s *pcmSink) take() []any {
	s.mu.Lock()
	defer s.mu.Unlock()
	g := s.got
	s.got = nil
	if g == nil {
		g = []any{}
	}
	return g
}

// spoil changes a slice which the callee may not use any more.
func spoil(x msdk.PCM16Sample) {
	for i := range x {
		x[i] = -1234
	}
}

func runFrames(sc *Scenario, r *Rec) {
	sink := &pcmSink{rate: 8000}
	w := msdk.FullFrames[msdk.PCM16Sample](sink, sc.Cfg.Int("size"))
	for _, op := range sc.Ops {
		o := M{}
		var err error
		p := guard(func() {
			switch op["ev"] {
			case "write":
				x := pcm(op.Ints("xs"))
				err = w.WriteSample(x)
				spoil(x)
			case "close":
				if op.Bool("fail") {
					// only the close fails
					sink.onClose = func() { sink.fail = true }
				}
				err = w.Close()
				sink.fail, sink.onClose = false, nil
			case "fail":
				sink.failAt, sink.failing = op.Int("n"), true
			default:
				panic(fmt.Sprint("unknown op ", op))
			}
		})
		o["out"], o["err"], o["closed"] = sink.take(), err != nil, sink.closed
		if p != nil {
			o["panic"] = fmt.Sprint(p)
		}
		r.Event(op, o)
	}
}

// threadsOf runs the operations of every thread at the same time.
func threadsOf(sc *Scenario, f func(t int, op M)) {
	n := sc.Cfg.Int("threads")
	var wg sync.WaitGroup
	for t := range n {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, op := range sc.Ops {
				if op.Int("t") == t {
					nap(op.Int("nap"))
					f(t, op)
				}
			}
		}()
	}
	wg.Wait()
}

func runFramesPar(sc *Scenario, r *Rec) {
	sink := &pcmSink{rate: 8000}
	sink.onWrite = func(x msdk.PCM16Sample) {
		r.raw(M{"ev": "frame", "o": M{"xs": ints(x)}})
		nap(sc.Cfg.Int("pause"))
	}
	w := msdk.FullFrames[msdk.PCM16Sample](sink, sc.Cfg.Int("size"))
	threadsOf(sc, func(t int, op M) {
		d := op.Ints("d")
		r.raw(M{"ev": "call", "t": t, "d": d})
		var err error
		if len(d) == 1 && d[0] == -1 {
			err = w.Close()
		} else {
			x := pcm(d)
			err = w.WriteSample(x)
			spoil(x)
		}
		r.raw(M{"ev": "ret", "t": t, "o": M{"err": err != nil}})
	})
}

func runSwitch(sc *Scenario, r *Rec) {
	rates := sc.Cfg.Ints("rates")
	sinks := make([]*pcmSink, len(rates))
	attached := make([]msdk.PCM16Writer, len(rates)) // what the switch made of them
	for i, v := range rates {
		sinks[i] = &pcmSink{rate: v}
	}
	which := func(w msdk.PCM16Writer) int {
		if w == nil {
			return -1
		}
		for i := range sinks {
			if w == msdk.PCM16Writer(sinks[i]) || attached[i] != nil && w == attached[i] {
				return i
			}
		}
		return -2
	}
	var sw *msdk.SwitchWriter
	for _, op := range sc.Ops {
		ret, val := -1, 0
		p := guard(func() {
			switch op["ev"] {
			case "new":
				sw = msdk.NewSwitchWriter(op.Int("rate"))
			case "setrate":
				sw.SetSampleRate(op.Int("rate"))
			case "swap":
				var w msdk.PCM16Writer
				i := op.Int("i")
				if i >= 0 {
					w = sinks[i]
					if attached[i] != nil {
						w = attached[i]
					}
				}
				old := sw.Swap(w)
				if i >= 0 && attached[i] == nil {
					attached[i] = sw.Get()
				}
				ret = which(old)
			case "rate":
				val = sw.SampleRate()
			case "get":
				ret = which(sw.Get())
			case "write":
				x := pcm(op.Ints("xs"))
				if err := sw.WriteSample(x); err != nil {
					ret = -3
				}
			case "close":
				if err := sw.Close(); err != nil {
					ret = -3
				}
			case "bad":
				sinks[op.Int("i")].fail = op.Bool("on")
			case "enable":
				if op.Bool("b") {
					sw.Enable()
				} else {
					sw.Disable()
				}
			default:
				panic(fmt.Sprint("unknown op ", op))
			}
		})
		rate := 0
		if sw != nil {
			guard(func() { rate = sw.SampleRate() })
		}
		direct, closed, total, failed := []any{}, []int{}, []int{}, false
		for i, s := range sinks {
			for _, g := range s.take() {
				failed = failed || g.([]any)[1].(bool)
				if s.rate == rate {
					direct = append(direct, []any{i, g.([]any)[0]})
				}
			}
			closed, total = append(closed, s.closed), append(total, s.total)
		}
		o := M{"ret": ret, "val": val, "closed": closed, "total": total, "direct": direct, "failed": failed}
		if p != nil {
			o["panic"] = true
		}
		r.Event(op, o)
	}
	for i, w := range attached {
		if w != nil && sinks[i].closed == 0 {
			_ = w.Close() // frees the resampler
		}
	}
}

// goid identifies the calling goroutine.
func goid() string {
	var b [64]byte
	n := runtime.Stack(b[:], false)
	return string(bytes.Fields(b[:n])[1])
}

func runSwitchPar(sc *Scenario, r *Rec) {
	var mu sync.Mutex
	who := map[string]int{}
	thread := func() int {
		mu.Lock()
		defer mu.Unlock()
		return who[goid()]
	}
	n := sc.Cfg.Int("sinks")
	sinks := make([]*pcmSink, n)
	for i := range n {
		sinks[i] = &pcmSink{rate: 8000}
		sinks[i].onWrite = func(x msdk.PCM16Sample) {
			r.raw(M{"ev": "sink", "t": thread(), "o": M{"i": i, "v": int(x[0])}})
		}
		sinks[i].onClose = func() {
			r.raw(M{"ev": "closed", "t": thread(), "o": M{"i": i}})
		}
	}
	which := func(w msdk.PCM16Writer) int {
		if w == nil {
			return -1
		}
		for i := range sinks {
			if w == msdk.PCM16Writer(sinks[i]) {
				return i
			}
		}
		return -2
	}
	sw := msdk.NewSwitchWriter(8000)
	threadsOf(sc, func(t int, op M) {
		mu.Lock()
		who[goid()] = t
		mu.Unlock()
		k, i, v := op.Str("k"), op.Int("i"), op.Int("v")
		r.raw(M{"ev": "call", "t": t, "k": k, "i": i, "v": v})
		ret := -1
		switch k {
		case "swap":
			var w msdk.PCM16Writer
			if i >= 0 {
				w = sinks[i]
			}
			ret = which(sw.Swap(w))
		case "close":
			_ = sw.Close()
		case "enable":
			if v == 1 {
				sw.Enable()
			} else {
				sw.Disable()
			}
		case "write":
			_ = sw.WriteSample(msdk.PCM16Sample{int16(v)})
		}
		r.raw(M{"ev": "ret", "t": t, "o": M{"i": ret}})
	})
}

// idSink is a writer with a number.
type idSink struct {
	id     int
	closed *[]int
	mu     *sync.Mutex
}

func (s *idSink) String() string                       { return "sink" }
func (s *idSink) SampleRate() int                      { return 8000 }
func (s *idSink) WriteSample(x msdk.PCM16Sample) error { return nil }
func (s *idSink) Close() error {
	s.mu.Lock()
	defer s.mu.Unlock()
	*s.closed = append(*s.closed, s.id)
	return nil
}

// runSwitchMany exchanges many writers, and sets many rates, in goroutines which note what they get on their own.
func runSwitchMany(sc *Scenario, r *Rec) {
	threads, n, rounds := sc.Cfg.Int("threads"), sc.Cfg.Int("n"), sc.Cfg.Int("rounds")
	var mu sync.Mutex
	closed := []int{}
	sw := msdk.NewSwitchWriter(8000)
	back := make([][]int, threads)
	var wg sync.WaitGroup
	for t := range threads {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range n {
				old := sw.Swap(&idSink{t*n + i, &closed, &mu})
				if i%5 == 2 {
					_ = sw.Close()
				}
				if old != nil {
					back[t] = append(back[t], old.(*idSink).id)
				}
				if i%7 == 3 {
					if old = sw.Swap(nil); old != nil {
						back[t] = append(back[t], old.(*idSink).id)
					}
				}
			}
		}()
	}
	wg.Wait()
	last := []int{}
	if w := sw.Get(); w != nil {
		last = append(last, w.(*idSink).id)
	}
	r.Event(M{"ev": "many", "n": threads * n}, M{"ids": slices.Concat(slices.Concat(back...), closed, last)})
	won, final := []any{}, []int{}
	for range rounds {
		sw := msdk.NewSwitchWriter(-1)
		ok := []int{}
		var ready atomic.Int64
		for t := range threads {
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() { _ = recover() }() // the documented panic
				for ready.Add(1); ready.Load() < int64(threads); {
				}
				sw.SetSampleRate(8000 + t)
				mu.Lock()
				defer mu.Unlock()
				ok = append(ok, 8000+t)
			}()
		}
		wg.Wait()
		won = append(won, ok)
		final = append(final, sw.SampleRate())
	}
	r.Event(M{"ev": "rates", "n": rounds}, M{"won": won, "final": final})
}

// memFile is a file that can be made to fail.
type memFile struct {
	bytes.Buffer
	bad    bool
	closed int
}

func (f *memFile) Write(p []byte) (int, error) {
	if f.bad {
		return 0, errSink
	}
	return f.Buffer.Write(p)
}

func (f *memFile) Close() error {
	f.closed++
	if f.bad {
		return errSink
	}
	return nil
}

type sampleRec struct {
	raws  [][]byte
	dur   time.Duration
	wrong bool
}

func (s *sampleRec) WriteSample(x media.Sample) error {
	s.wrong = s.wrong || x.Duration != s.dur
	s.raws = append(s.raws, x.Data)
	return nil
}

func framesOf(fs []msdk.PCM16Sample) []any {
	out := []any{}
	for _, f := range fs {
		out = append(out, ints(f))
	}
	return out
}

func runWriters(sc *Scenario, r *Rec) {
	dir, err := os.MkdirTemp("", "vwriters")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	n := sc.Cfg.Int("n")
	const rate = 16000
	var multi msdk.MultiWriter[msdk.PCM16Sample]
	targets := make([]*pcmSink, n)
	for i := range n {
		targets[i] = &pcmSink{rate: rate}
		multi = append(multi, targets[i])
	}
	var frames, dumped []msdk.PCM16Sample
	var buffer, slice msdk.PCM16Sample
	fw := msdk.NewPCM16FrameWriter(&frames, rate)
	bw := msdk.NewPCM16BufferWriter(&buffer, rate)
	mem := &memFile{}
	file := msdk.NewFileWriter[msdk.PCM16Sample](mem, rate)
	dump := msdk.DumpWriterPCM16(filepath.Join(dir, "x"), msdk.NewPCM16FrameWriter(&dumped, rate))
	rec := &sampleRec{dur: 20 * time.Millisecond}
	sw := msdk.FromSampleWriter[byteFrame](rec, rate, rec.dur)
	fileErr := false
	for _, op := range sc.Ops {
		var merr error
		quiet := true
		keep := func(err error) { quiet = quiet && err == nil }
		xs := op.Ints("xs")
		p := guard(func() {
			switch op["ev"] {
			case "write":
				x := pcm(xs)
				merr = multi.WriteSample(x)
				keep(fw.WriteSample(x))
				keep(bw.WriteSample(x))
				keep(slice.WriteSample(x))
				keep(dump.WriteSample(x))
				fileErr = file.WriteSample(x) != nil || fileErr
				b := make(byteFrame, 2*len(x))
				for i, v := range x {
					binary.LittleEndian.PutUint16(b[2*i:], uint16(v))
				}
				keep(sw.WriteSample(b))
				spoil(x)
				for i := range b {
					b[i] = 0x77
				}
			case "fail":
				targets[op.Int("i")].fail = op.Bool("on")
			case "bad":
				mem.bad = true
			case "bufclose":
				keep(bw.Close())
			case "close":
				merr = multi.Close()
				keep(fw.Close())
				keep(dump.Close())
				keep(slice.Close())
				keep(sw.Close())
				fileErr = file.Close() != nil || fileErr
			default:
				panic(fmt.Sprint("unknown op ", op))
			}
		})
		got, closed := []any{}, []int{}
		for _, t := range targets {
			g := []any{}
			for _, v := range t.take() {
				g = append(g, v.([]any)[0])
			}
			got, closed = append(got, g), append(closed, t.closed)
		}
		// the data of the samples may be kept by the one who got them
		samples := []any{}
		for _, d := range rec.raws {
			v := []int{}
			for i := 0; i+1 < len(d); i += 2 {
				v = append(v, int(int16(binary.LittleEndian.Uint16(d[i:]))))
			}
			samples = append(samples, v)
		}
		rates := fw.SampleRate() == rate && bw.SampleRate() == rate && file.SampleRate() == rate && dump.SampleRate() == rate && sw.SampleRate() == rate &&
			(n == 0 || multi.SampleRate() == rate)
		o := M{"multi": got, "closed": closed, "err": merr != nil, "frames": framesOf(frames), "buffer": ints(buffer), "slice": ints(slice),
			"samples": samples, "dumpsink": framesOf(dumped), "quiet": quiet && rates && !rec.wrong, "fileerr": fileErr, "fileclosed": mem.closed}
		if op["ev"] == "close" {
			o["file"] = ints(mem.Bytes())
			data, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("x_ar%d.s16le", rate)))
			if err != nil {
				data = []byte("no dump")
			}
			o["dump"] = ints(data)
		}
		if p != nil {
			o["panic"] = fmt.Sprint(p)
		}
		r.Event(op, o)
	}
}

// codecs are known by numbers which are never used again in this process
var (
	codecIDs    = map[msdk.Codec]string{}
	codecNext   int
	codecEpoch  = map[msdk.Codec]int{}
	codecEpochs int
)

func codecID(c msdk.Codec) string {
	if c == nil {
		return ""
	}
	id, ok := codecIDs[c]
	if !ok {
		codecNext++
		id = fmt.Sprint("c", codecNext)
		codecIDs[c] = id
	}
	return id
}

func runRegistry(sc *Scenario, r *Rec) {
	codecEpochs++
	epoch := codecEpochs
	over := false
	defer func() { over = true }()
	// codecs of earlier scenarios are left out everywhere
	mine := func(cs []msdk.Codec) []string {
		out := []string{}
		for _, c := range cs {
			if e := codecEpoch[c]; e == 0 || e == epoch {
				out = append(out, codecID(c))
			}
		}
		return out
	}
	types := func() []string {
		out := make([]string, 256)
		for i := range 256 {
			out[i] = codecID(rtp.CodecByPayloadType(byte(i)))
		}
		return out
	}
	ask := sc.Cfg.Strs("ask")
	base, off := []any{}, []string{}
	for _, c := range msdk.Codecs() {
		if codecEpoch[c] != 0 {
			continue
		}
		low := strings.ToLower(c.Info().SDPName)
		base = append(base, M{"id": codecID(c), "low": low, "one": strings.Count(low, "/") == 1, "typ": -1})
		if !msdk.CodecEnabledByName(low) && !slices.Contains(off, low) {
			off = append(off, low)
		}
	}
	for _, a := range ask {
		if !msdk.CodecEnabledByName(a) && !slices.Contains(off, strings.ToLower(a)) {
			off = append(off, strings.ToLower(a))
		}
	}
	before := slices.Clone(off)
	r.raw(M{"ev": "base", "codecs": base, "off": off, "types": types(), "o": M{}})
	cbs := [][]msdk.Codec{}
	touched := []string{}
	for _, op := range sc.Ops {
		p := guard(func() {
			switch op["ev"] {
			case "register":
				info := msdk.CodecInfo{SDPName: op.Str("name"), SampleRate: 8000, RTPIsStatic: op.Int("typ") >= 0, RTPDefType: byte(max(0, op.Int("typ"))),
					Disabled: op.Bool("dis")}
				c := msdk.NewCodec(info)
				codecEpoch[c] = epoch
				op["id"] = codecID(c)
				touched = append(touched, op.Str("low"))
				msdk.RegisterCodec(c)
			case "callback":
				k := len(cbs)
				cbs = append(cbs, nil)
				msdk.OnRegister(func(c msdk.Codec) {
					if !over {
						cbs[k] = append(cbs[k], c)
					}
				})
			case "enablemany":
				m := map[string]bool{}
				for i, n := range op.Strs("names") {
					m[n] = op["ons"].([]any)[i].(bool)
				}
				touched = append(touched, op.Strs("lows")...)
				msdk.CodecsSetEnabled(m)
			case "enable":
				touched = append(touched, op.Str("low"))
				if op.Bool("map") {
					msdk.CodecsSetEnabled(map[string]bool{op.Str("name"): op.Bool("on")})
				} else {
					msdk.CodecSetEnabled(op.Str("name"), op.Bool("on"))
				}
			default:
				panic(fmt.Sprint("unknown op ", op))
			}
		})
		names, on := []string{}, []bool{}
		for _, a := range ask {
			names = append(names, codecID(sdp.CodecByName(a)))
			on = append(on, msdk.CodecEnabledByName(a))
		}
		cb := []any{}
		for _, c := range cbs {
			cb = append(cb, mine(c))
		}
		each := []bool{}
		all, enabled := msdk.Codecs(), msdk.EnabledCodecs()
		for _, c := range all {
			if e := codecEpoch[c]; e == 0 || e == epoch {
				each = append(each, msdk.CodecEnabled(c))
			}
		}
		each = append(each, msdk.CodecEnabled(nil))
		o := M{"all": mine(all), "enabled": mine(enabled), "names": names, "on": on, "cbs": cb, "types": types(), "each": each}
		// what is returned belongs to the caller
		clear(all)
		clear(enabled)
		if p != nil {
			o["panic"] = fmt.Sprint(p)
		}
		low := []string{}
		for _, a := range ask {
			low = append(low, strings.ToLower(a))
		}
		op["ask"] = low
		r.Event(op, o)
	}
	for _, t := range touched {
		msdk.CodecSetEnabled(t, !slices.Contains(before, t))
	}
}

const pcmFill = -21846

func filled(n int) msdk.PCM16Sample {
	x := make(msdk.PCM16Sample, n)
	for i := range x {
		x[i] = pcmFill
	}
	return x
}

func runPCM(sc *Scenario, r *Rec) {
	for _, op := range sc.Ops {
		o := M{}
		src := op.Ints("src")
		n := op.Int("n")
		var after func()
		p := guard(func() {
			switch op["ev"] {
			case "m2s", "s2m":
				x := pcm(src)
				mem := filled(n + 8)
				dst := mem[:n:n]
				if op["ev"] == "s2m" && op.Bool("inplace") {
					dst = x
				}
				after = func() {
					for _, v := range mem[n:] {
						if v != pcmFill {
							o["panic"] = "wrote beyond"
						}
					}
					o["dst"], o["src"] = ints(dst), ints(x)
				}
				if op["ev"] == "m2s" {
					msdk.MonoToStereo(dst, x)
				} else {
					msdk.StereoToMono(dst, x)
				}
			case "copy":
				var f msdk.Frame
				b := bytesOf(src)
				switch op.Str("typ") {
				case "pcm":
					f = pcm(src)
				case "alaw":
					f = g711.ALawSample(b)
				case "ulaw":
					f = g711.ULawSample(b)
				case "g722":
					f = g722.Sample(b)
				case "opus":
					f = opusFrame(b)
				}
				mem := bytes.Repeat([]byte{0xA5}, n+8)
				k, err := f.CopyTo(mem[:n])
				o["size"], o["err"] = f.Size(), ""
				if err != nil {
					o["err"] = "other"
					if errors.Is(err, io.ErrShortBuffer) {
						o["err"] = "short"
					}
				} else {
					o["k"] = k
				}
				end := n
				if err == nil {
					end = min(k, len(mem))
					o["bytes"] = ints(mem[:end])
				}
				o["beyond"] = bytes.Equal(mem[end:], bytes.Repeat([]byte{0xA5}, len(mem)-end))
			case "clear":
				x := pcm(src)
				x.Clear()
				o["dst"] = ints(x)
			case "read":
				rd := msdk.NewPCM16BufferReader(pcm(src))
				pieces, counts := []any{}, []int{}
				for _, k := range op.Ints("sizes") {
					buf := filled(k)
					c, err := rd.ReadSample(buf)
					if err != nil {
						panic(err)
					}
					pieces, counts = append(pieces, ints(buf)), append(counts, c)
				}
				o["pieces"], o["counts"] = pieces, counts
			default:
				panic(fmt.Sprint("unknown op ", op))
			}
		})
		if after != nil {
			after()
		}
		if p != nil {
			o["panic"] = true
		}
		r.Event(op, o)
	}
}

func runPlayAudio(sc *Scenario, r *Rec) {
	per := sc.Cfg.Int("per")
	if per == 0 {
		per = 20000
	}
	t := &ticking{sink: &toneSink{rate: 8000, plain: true}, per: time.Duration(per) * time.Microsecond}
	defer func() {
		if t.on {
			t.cancel()
			<-t.ret
		}
	}()
	var list, same []msdk.PCM16Sample
	hook := func(o M) M {
		o["out"] = o["frame"]
		delete(o, "frame")
		ok := len(list) == len(same)
		for i := range same {
			ok = ok && slices.Equal(list[i], same[i])
		}
		o["list"] = ok
		return o
	}
	t.hook = hook
	for _, op := range sc.Ops {
		if t.run(op, r) {
			continue
		}
		switch op["ev"] {
		case "play":
			list, same = nil, nil
			a, _ := op["frames"].([]any)
			for _, f := range a {
				v := msdk.PCM16Sample{}
				for _, x := range f.([]any) {
					v = append(v, int16(x.(float64)))
				}
				list, same = append(list, v), append(same, slices.Clone(v))
			}
			t.begin(func(ctx context.Context) error {
				return msdk.PlayAudio(ctx, msdk.Writer[msdk.PCM16Sample](t.sink), t.per, list)
			})
			r.Event(op, t.obs())
		default:
			panic(fmt.Sprint("unknown op ", op))
		}
	}
}
