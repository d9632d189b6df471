package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math"
	"slices"
	"sync"
	"testing/synctest"
	"time"

	prtp "github.com/pion/rtp"

	libg722 "github.com/gotranspile/g722"

	msdk "github.com/livekit/media-sdk"
	"github.com/livekit/media-sdk/g711"
	"github.com/livekit/media-sdk/g722"
	"github.com/livekit/media-sdk/rtp"
	"github.com/livekit/media-sdk/webm"
)

func init() {
	reg("resample", false, runResample)
	reg("g711", false, runG711)
	reg("g722", false, runG722)
	reg("webm", true, runWebm)
}

// signal makes n samples of a sound, starting with the sample number from.
func signal(kind string, rate, from, n int) msdk.PCM16Sample {
	x := make(msdk.PCM16Sample, n)
	for i := range x {
		k := from + i
		switch kind {
		case "zero":
		case "sine":
			x[i] = int16(math.Round(8000 * math.Sin(2*math.Pi*200*float64(k)/float64(rate))))
		case "noise":
			h := uint32(k)*2654435761 + 12345
			h ^= h >> 15
			h *= 2246822519
			h ^= h >> 13
			x[i] = int16(h >> 16)
		case "full":
			x[i] = 32767
			if k/7%2 == 1 {
				x[i] = -32768
			}
		default:
			panic("unknown signal " + kind)
		}
	}
	return x
}

func runResample(sc *Scenario, r *Rec) {
	src, dst, kind := sc.Cfg.Int("src"), sc.Cfg.Int("dst"), sc.Cfg.Str("sig")
	sink := &pcmSink{rate: dst}
	w := msdk.ResampleWriter(sink, src)
	inn := 0
	var all msdk.PCM16Sample
	for _, op := range sc.Ops {
		o := M{}
		p := guard(func() {
			switch op["ev"] {
			case "write":
				n := op.Int("n")
				x := signal(kind, src, inn, n)
				inn += n
				err := w.WriteSample(x)
				o["in"] = slices.Equal(x, signal(kind, src, inn-n, n))
				spoil(x)
				o["err"] = err != nil
			case "close":
				if op.Bool("fail") {
					sink.onClose = func() { sink.fail = true }
				}
				err := w.Close()
				sink.fail, sink.onClose = false, nil
				o["err"] = err != nil
			case "fail":
				sink.fail = op.Bool("on")
				o["err"] = false
			case "once":
				// the function instead of the writer
				n, k := op.Int("n"), op.Int("prefix")
				pre := signal("noise", dst, 7, k)
				x := signal(kind, src, 0, n)
				out := msdk.Resample(append(make(msdk.PCM16Sample, 0, k+op.Int("room")), pre...), dst, x, src)
				o["kept"] = len(out) >= k && slices.Equal(out[:k], pre)
				o["added"] = len(out) - k
				o["in"] = slices.Equal(x, signal(kind, src, 0, n))
				o["copy"] = slices.Equal(out[min(k, len(out)):], x)
				o["quiet"], o["fit"] = quietFit(kind, dst, out[min(k, len(out)):])
			case "badrate":
				from, to := op.Int("src"), op.Int("dst")
				o["refused"] = guard(func() { msdk.ResampleWriter(&pcmSink{rate: to}, from) }) != nil &&
					guard(func() { msdk.Resample(nil, to, make(msdk.PCM16Sample, 10), from) }) != nil
			default:
				panic(fmt.Sprint("unknown op ", op))
			}
		})
		if op["ev"] != "once" && op["ev"] != "badrate" {
			lens, bad := []int{}, false
			for _, g := range sink.take() {
				g := g.([]any)
				f := g[0].([]int)
				lens = append(lens, len(f))
				bad = bad || g[1].(bool)
				all = append(all, pcm(f)...)
			}
			o["lens"], o["total"], o["closed"], o["rate"], o["bad"] = lens, len(all), sink.closed, w.SampleRate(), bad
		}
		if op["ev"] == "close" {
			// what the function makes of the whole input
			// (the last bit is dithered)
			one := msdk.Resample(nil, dst, signal(kind, src, 0, inn), src)
			d := -1
			if len(one) == len(all) {
				d = 0
				for i := range one {
					d = max(d, abs(int(one[i])-int(all[i])))
				}
			}
			o["diff"] = d
			o["same"] = d >= 0 && d <= 2
			o["quiet"], o["fit"] = quietFit(kind, dst, all)
		}
		if p != nil {
			o["panic"] = fmt.Sprint(p)
		}
		r.Event(op, o)
	}
}

// quietFit tells whether silence stayed silent, and whether a sine is still the same sine.
func quietFit(kind string, rate int, out msdk.PCM16Sample) (bool, bool) {
	quiet, fit := true, true
	switch kind {
	case "zero":
		for _, v := range out {
			quiet = quiet && v >= -1 && v <= 1
		}
	case "sine":
		// away from the ends
		edge := rate / 100
		want := signal(kind, rate, 0, len(out))
		for i := edge; i < len(out)-edge; i++ {
			fit = fit && math.Abs(float64(out[i])-float64(want[i])) <= 400
		}
	}
	return quiet, fit
}

type frameSink[T ~[]byte] struct {
	rate   int
	got    []any
	closed int
	fail   bool
	onGot  func(T)
}

func (s *frameSink[T]) String() string  { return "frames" }
func (s *frameSink[T]) SampleRate() int { return s.rate }
func (s *frameSink[T]) WriteSample(x T) error {
	s.got = append(s.got, ints([]byte(x)))
	if s.onGot != nil {
		s.onGot(x)
	}
	if s.fail {
		return errSink
	}
	return nil
}
func (s *frameSink[T]) Close() error {
	s.closed++
	if s.fail {
		return errSink
	}
	return nil
}
func (s *frameSink[T]) take() []any {
	g := s.got
	s.got = nil
	if g == nil {
		g = []any{}
	}
	return g
}

// lawCodec is one of the two laws.
type lawCodec struct {
	encTo  func(out []byte, in []int16)
	decTo  func(out []int16, in []byte)
	enc    func(sink *frameSink[byteFrame], rate int) msdk.PCM16Writer
	dec    func(w msdk.PCM16Writer) func(b []byte) error
	decCls func() error
	encM   func(x msdk.PCM16Sample) []byte
	decM   func(b []byte) msdk.PCM16Sample
	typ    byte
}

// conv changes the type of the frames.
type conv[T ~[]byte] struct{ w *frameSink[byteFrame] }

func (c conv[T]) String() string        { return "conv" }
func (c conv[T]) SampleRate() int       { return c.w.rate }
func (c conv[T]) WriteSample(x T) error { return c.w.WriteSample(byteFrame(x)) }
func (c conv[T]) Close() error          { return c.w.Close() }

func law(name string) *lawCodec {
	c := &lawCodec{}
	if name == "a" {
		c.typ = 8
		c.encTo, c.decTo = g711.EncodeALawTo, g711.DecodeALawTo
		c.enc = func(s *frameSink[byteFrame], rate int) msdk.PCM16Writer {
			return g711.EncodeALaw(conv[g711.ALawSample]{s})
		}
		c.dec = func(w msdk.PCM16Writer) func([]byte) error {
			d := g711.DecodeALaw(w)
			c.decCls = d.Close
			return func(b []byte) error { return d.WriteSample(b) }
		}
		c.encM = func(x msdk.PCM16Sample) []byte { var s g711.ALawSample; s.Encode(x); return s }
		c.decM = func(b []byte) msdk.PCM16Sample { return g711.ALawSample(b).Decode() }
	} else {
		c.typ = 0
		c.encTo, c.decTo = g711.EncodeULawTo, g711.DecodeULawTo
		c.enc = func(s *frameSink[byteFrame], rate int) msdk.PCM16Writer {
			return g711.EncodeULaw(conv[g711.ULawSample]{s})
		}
		c.dec = func(w msdk.PCM16Writer) func([]byte) error {
			d := g711.DecodeULaw(w)
			c.decCls = d.Close
			return func(b []byte) error { return d.WriteSample(b) }
		}
		c.encM = func(x msdk.PCM16Sample) []byte { var s g711.ULawSample; s.Encode(x); return s }
		c.decM = func(b []byte) msdk.PCM16Sample { return g711.ULawSample(b).Decode() }
	}
	return c
}

func runG711(sc *Scenario, r *Rec) {
	c := law(sc.Cfg.Str("law"))
	rate := sc.Cfg.Int("rate")
	if rate == 0 {
		rate = 8000
	}
	esink := &frameSink[byteFrame]{rate: 8000}
	var enc msdk.PCM16Writer
	dsink := &pcmSink{rate: rate}
	dec := c.dec(dsink)
	enc = c.enc(esink, 8000)
	pkts := &toneRTPAll{}
	stream := rtp.NewSeqWriter(pkts).NewStream(c.typ, 8000)
	codec := rtp.CodecByPayloadType(c.typ).(rtp.AudioCodec)
	renc := codec.EncodeRTP(stream)
	rsink := &pcmSink{rate: 8000}
	rdec := codec.DecodeRTP(rsink, c.typ)
	bytesIn := 0
	for _, op := range sc.Ops {
		o := M{}
		xs := op.Ints("xs")
		p := guard(func() {
			switch op["ev"] {
			case "encall":
				x := make([]int16, op.Int("n"))
				for i := range x {
					x[i] = int16(op.Int("from") + i)
				}
				out := bytes.Repeat([]byte{0xEE}, len(x)+4)
				c.encTo(out, x)
				o["codes"] = ints(out[:len(x)])
				o["beyond"] = bytes.Equal(out[len(x):], []byte{0xEE, 0xEE, 0xEE, 0xEE})
			case "decall":
				b := make([]byte, 256)
				for i := range b {
					b[i] = byte(i)
				}
				out := make([]int16, 256)
				c.decTo(out, b)
				o["values"] = ints(out)
				back := make([]byte, 256)
				c.encTo(back, out)
				o["back"] = ints(back)
			case "enc":
				x := pcm(xs)
				esink.fail = op.Bool("fail")
				o["err"] = enc.WriteSample(x) != nil
				esink.fail = false
				o["frames"] = esink.take()
				o["in"] = slices.Equal(x, pcm(xs))
				o["method"] = ints(c.encM(x))
			case "dec":
				b := bytesOf(xs)
				bytesIn += len(b)
				dsink.fail = op.Bool("fail")
				o["err"] = dec(b) != nil
				dsink.fail = false
				got := dsink.take()
				o["came"] = len(got) > 0
				dsink.got = got
				o["pcm"] = framesTaken(dsink)
				o["in"] = slices.Equal(b, bytesOf(xs))
				o["method"] = ints(c.decM(b))
				o["total"] = dsink.total
			case "rtp":
				x := pcm(xs)
				if err := renc.WriteSample(x); err != nil {
					panic(err)
				}
				got := []any{}
				for _, p := range pkts.pkts {
					got = append(got, []any{int(p.PayloadType), len(p.Payload), int(p.SequenceNumber), int(p.Timestamp)})
					o["codes"] = ints(p.Payload)
					if err := rdec.HandleRTP(&p.Header, p.Payload); err != nil {
						panic(err)
					}
				}
				pkts.pkts = nil
				o["pkts"] = got
				o["pcm"] = framesTaken(rsink)
			case "close":
				esink.fail = op.Bool("fail")
				if op.Bool("fail") {
					dsink.onClose = func() { dsink.fail = true }
				}
				ee, de := enc.Close() != nil, c.decCls() != nil
				o["err"] = []bool{ee, de}
				framesTaken(dsink)
				o["closed"] = []int{esink.closed, dsink.closed}
				o["total"] = dsink.total
			case "encrate":
				_ = c.enc(&frameSink[byteFrame]{rate: op.Int("rate")}, op.Int("rate"))
			default:
				panic(fmt.Sprint("unknown op ", op))
			}
		})
		if p != nil {
			o["panic"] = true
		}
		r.Event(op, o)
	}
}

type toneRTPAll struct{ pkts []*prtp.Packet }

func (w *toneRTPAll) String() string { return "rtp" }
func (w *toneRTPAll) WriteRTP(h *prtp.Header, p []byte) (int, error) {
	w.pkts = append(w.pkts, &prtp.Packet{Header: *h, Payload: slices.Clone(p)})
	return len(p), nil
}

func framesTaken(s *pcmSink) []any {
	out := []any{}
	for _, g := range s.take() {
		out = append(out, g.([]any)[0])
	}
	return out
}

func runG722(sc *Scenario, r *Rec) {
	rate, kind, n := sc.Cfg.Int("rate"), sc.Cfg.Str("sig"), sc.Cfg.Int("n")
	var f libg722.Flags

	if rate == 8000 {
		f = libg722.FlagSampleRate8000
	}
	type inst struct {
		x             msdk.PCM16Sample
		b             []byte
		es            *frameSink[g722.Sample]
		ds            *pcmSink
		e             msdk.PCM16Writer
		d             g722.Writer
		epos, dpos, k int
	}
	var is []*inst
	for i := range 2 {
		v := &inst{k: i}
		// the whole stream at once
		v.x = signal(kind, rate, i*1000, n)
		v.b = make([]byte, n)
		v.b = v.b[:libg722.NewEncoder(libg722.Rate64000, f).Encode(v.b, v.x)]
		back := make([]int16, 2*n+8)
		back = back[:libg722.NewDecoder(libg722.Rate64000, f).Decode(back, v.b)]
		v.es = &frameSink[g722.Sample]{rate: rate}
		v.ds = &pcmSink{rate: rate}
		v.e, v.d = g722.Encode(v.es), g722.Decode(v.ds)
		is = append(is, v)
		r.Event(M{"ev": "ref", "i": i, "bytes": ints(v.b), "pcm": ints(back)}, M{})
	}
	for _, op := range sc.Ops {
		o := M{}
		p := guard(func() {
			k := op.Int("k")
			v := is[op.Int("i")]
			switch op["ev"] {
			case "enc":
				x := slices.Clone(v.x[v.epos : v.epos+k])
				v.epos += k
				v.es.fail = op.Bool("fail")
				err := v.e.WriteSample(x)
				v.es.fail = false
				o["err"], o["out"] = err != nil, v.es.take()
				o["in"] = slices.Equal(x, v.x[v.epos-k:v.epos])
				spoil(x)
			case "dec":
				b := slices.Clone(v.b[v.dpos : v.dpos+k])
				v.dpos += k
				v.ds.fail = op.Bool("fail")
				err := v.d.WriteSample(b)
				v.ds.fail = false
				o["err"], o["out"] = err != nil, framesTaken(v.ds)
				o["in"] = slices.Equal(b, v.b[v.dpos-k:v.dpos])
				for i := range b {
					b[i] = 0x55
				}
			case "other":
				// into a writer of another rate
				s := &pcmSink{rate: op.Int("rate")}
				d := g722.Decode(s)
				in := v.b
				m := libg722.NewEncoder(libg722.Rate64000, 0)
				if rate == 8000 {
					in = make([]byte, n)
					in = in[:m.Encode(in, signal(kind, 16000, 0, n))]
				}
				for len(in) > 0 {
					c := min(len(in), k)
					if err := d.WriteSample(in[:c:c]); err != nil {
						panic(err)
					}
					in = in[c:]
					o["count"] = c
				}
				if err := d.Close(); err != nil {
					panic(err)
				}
				peak := 0
				for _, g := range framesTaken(s) {
					for _, q := range g.([]int) {
						peak = max(peak, q, -q)
					}
				}
				o["total"], o["closed"], o["quiet"] = s.total, s.closed, kind != "zero" || peak <= 16
			case "encrate":
				_ = g722.Encode(&frameSink[g722.Sample]{rate: op.Int("rate")})
			case "close":
				v.es.fail, v.ds.fail = op.Bool("fail"), op.Bool("fail")
				ee, de := v.e.Close() != nil, v.d.Close() != nil
				o["err"] = []bool{ee, de}
				o["closed"] = []int{v.es.closed, v.ds.closed}
			default:
				panic(fmt.Sprint("unknown op ", op))
			}
		})
		if p != nil {
			o["panic"] = true
		}
		r.Event(op, o)
	}
}

// ebml reads one element: its id, its content and whether it has children.
func ebmlVint(b []byte, keep bool) (v uint64, n int, unknown bool) {
	n = 1
	for m := byte(0x80); m != 0 && b[0]&m == 0; m >>= 1 {
		n++
	}
	v = uint64(b[0])
	if !keep {
		v &= (1 << (8 - n)) - 1
	}
	unknown = v == (1<<(8-n))-1
	for _, c := range b[1:n] {
		v = v<<8 | uint64(c)
		unknown = unknown && c == 0xFF
	}
	return v, n, unknown
}

func bigEndian(b []byte) (v uint64) {
	for _, c := range b {
		v = v<<8 | uint64(c)
	}
	return v
}

func parseWebm(b []byte) (track M, blocks []any, err error) {
	track, blocks = M{}, []any{}
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("bad file: %v", p)
		}
	}()
	masters := map[uint64]bool{0x1A45DFA3: true, 0x18538067: true, 0x1549A966: true, 0x1654AE6B: true, 0xAE: true, 0xE1: true, 0x1F43B675: true}
	scale, cluster := uint64(0), uint64(0)
	tracks := 0
	for len(b) > 0 {
		id, n, _ := ebmlVint(b, true)
		b = b[n:]
		size, n, unknown := ebmlVint(b, false)
		b = b[n:]
		if masters[id] {
			if id == 0xAE {
				tracks++
			}
			continue
		}
		if unknown {
			return nil, nil, fmt.Errorf("element %x of unknown size", id)
		}
		d := b[:size]
		b = b[size:]
		switch id {
		case 0x2AD7B1:
			scale = bigEndian(d)
		case 0xE7:
			cluster = bigEndian(d)
		case 0xD7:
			track["number"] = int(bigEndian(d))
		case 0x83:
			track["type"] = int(bigEndian(d))
		case 0x86:
			track["codec"] = string(d)
		case 0x23E383:
			track["dur"] = int(bigEndian(d) / 1000)
		case 0x9F:
			track["channels"] = int(bigEndian(d))
		case 0xB5:
			f := math.Float64frombits(bigEndian(d))
			if size == 4 {
				f = float64(math.Float32frombits(uint32(bigEndian(d))))
			}
			track["rate"] = int(f)
		case 0x4282:
			track["doc"] = string(d)
		case 0xA3:
			num, n, _ := ebmlVint(d, false)
			tc := int16(binary.BigEndian.Uint16(d[n:]))
			blocks = append(blocks, []any{int(cluster) + int(tc), d[n+2]&0x80 != 0, d[n+2] & 0x06, int(num), ints(d[n+3:])})
		}
	}
	track["scale"], track["tracks"] = int(scale), tracks
	return track, blocks, nil
}

// failFile fails after some more writes; it counts those that come although one has failed.
type failFile struct {
	bytes.Buffer
	mu        sync.Mutex
	left      int // writes which still work, -1: all
	once      bool
	bad       bool // a write has failed
	badClose  bool
	later     int
	closed    int
	closeFail bool
}

func (f *failFile) Write(p []byte) (int, error) {
	f.mu.Lock()
	defer f.mu.Unlock()
	if f.bad {
		f.later++
	}
	if f.left == 0 {
		f.bad = true
		if f.once {
			f.left = -1
		}
		n := len(p) / 2
		f.Buffer.Write(p[:n])
		return n, errSink
	}
	if f.left > 0 {
		f.left--
	}
	return f.Buffer.Write(p)
}

func (f *failFile) Close() error {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.closed++
	if f.badClose {
		f.closeFail = true
		return errSink
	}
	return nil
}

// Opus needs cgo, see opus.go
type opusWriter interface {
	SampleRate() int
	WriteSample(b []byte) error
	Close() error
}

var (
	newOpusWebm func(f io.WriteCloser, rate, channels int, dur time.Duration) opusWriter
	opusFrame   func(b []byte) msdk.Frame
)

func runWebm(sc *Scenario, r *Rec) {
	f := &failFile{left: -1}
	rate, ch := sc.Cfg.Int("rate"), sc.Cfg.Int("channels")
	dur := time.Duration(sc.Cfg.Int("ms"))*time.Millisecond + time.Duration(sc.Cfg.Int("us"))*time.Microsecond
	var wp msdk.PCM16Writer
	var wo opusWriter
	if sc.Cfg.Str("codec") == "pcm" {
		wp = webm.NewPCM16Writer(f, rate, ch, dur)
	} else {
		wo = newOpusWebm(f, rate, ch, dur)
	}
	for _, op := range sc.Ops {
		o := M{}
		var err error
		p := guard(func() {
			switch op["ev"] {
			case "write":
				for range max(1, op.Int("times")) {
					xs := op.Ints("xs")
					if wp != nil {
						x := pcm(xs)
						err = wp.WriteSample(x)
						spoil(x)
					} else {
						b := bytesOf(xs)
						err = wo.WriteSample(b)
						for i := range b {
							b[i] = 0x11
						}
					}
				}
				o["rate"] = rate
				if wp != nil {
					o["rate"] = wp.SampleRate()
				} else {
					o["rate"] = wo.SampleRate()
				}
			case "close":
				if wp != nil {
					err = wp.Close()
				} else {
					err = wo.Close()
				}
				o["closed"] = f.closed
				if !f.bad {
					track, blocks, perr := parseWebm(f.Bytes())
					if perr != nil {
						panic(perr)
					}
					o["track"], o["blocks"] = track, blocks
				}
			case "fail":
				f.mu.Lock()
				f.left, f.once, f.badClose = op.Int("n"), op.Bool("once"), op.Bool("close")
				f.mu.Unlock()
			default:
				panic(fmt.Sprint("unknown op ", op))
			}
		})
		o["err"] = err != nil
		if p != nil {
			o["panic"] = fmt.Sprint(p)
		}
		synctest.Wait()
		o["failed"], o["closefail"], o["later"] = f.bad, f.closeFail, f.later
		r.Event(op, o)
	}
}

func abs(x int) int {
	if x < 0 {
		return -x
	}
	return x
}
