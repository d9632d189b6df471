package main

import (
	"encoding/binary"
	"hash/fnv"
	"os"
	"regexp"
	"slices"
	"strconv"
	"strings"

	prtp "github.com/pion/rtp"

	msdk "github.com/livekit/media-sdk"
	"github.com/livekit/media-sdk/rtp"
)

func init() {
	reg("dump", false, runDump)
}

// payloadTap is the end of a sending chain: it may fail, but it has seen what was written.
type payloadTap struct {
	all  []byte
	n    int
	fail bool
}

func (t *payloadTap) String() string { return "payloads" }
func (t *payloadTap) WriteRTP(h *prtp.Header, p []byte) (int, error) {
	t.all = append(t.all, p...)
	t.n++
	if t.fail {
		return 0, errSink
	}
	return len(p), nil
}

func leBytes(x msdk.PCM16Sample) []byte {
	b := make([]byte, 0, 2*len(x))
	for _, v := range x {
		b = binary.LittleEndian.AppendUint16(b, uint16(v))
	}
	return b
}

func digest(b []byte) int {
	h := fnv.New32a()
	h.Write(b)
	return int(h.Sum32() >> 1)
}

var dumpName = regexp.MustCompile(`^(.*?)_(\d+)(_in|_out)?_ar(-?\d+)\.(\w+)$`)

// runDump drives a chain of a codec, in a process where diagnostic dumps are on or off, and
// reads the files it left in the working directory.
func runDump(sc *Scenario, r *Rec) {
	rate := sc.Cfg.Int("rate")
	enc := sc.Cfg.Bool("enc")
	name := sc.Cfg.Str("codec")
	before := map[string]bool{}
	list := func() []string {
		es, err := os.ReadDir(".")
		if err != nil {
			panic(err)
		}
		var out []string
		for _, e := range es {
			if dumpName.MatchString(e.Name()) && !before[e.Name()] {
				out = append(out, e.Name())
			}
		}
		return out
	}
	for _, n := range list() {
		before[n] = true
	}
	var mine []string
	var plain msdk.Codec
	var codec rtp.AudioCodec
	find := func(op M) {
		if op.Bool("plain") {
			plain = msdk.NewCodec(msdk.CodecInfo{SDPName: name, SampleRate: sc.Cfg.Int("crate"), FileExt: sc.Cfg.Str("ext"), RTPClockRate: op.Int("clock"),
				RTPDefType: byte(op.Int("type")), RTPIsStatic: op.Bool("static"), Priority: op.Int("prio")})
			if sc.Cfg.Int("crate") <= 0 {
				panic("a codec without a rate")
			}
		}
		for _, c := range msdk.Codecs() {
			if c.Info().SDPName == name {
				codec = c.(rtp.AudioCodec)
			}
		}
		if codec == nil {
			// a codec of the user's own: what is coded is a byte for each sample
			crate := sc.Cfg.Int("crate")
			codec = rtp.NewAudioCodec(msdk.CodecInfo{SDPName: name, SampleRate: crate, FileExt: sc.Cfg.Str("ext"), RTPClockRate: op.Int("clock"),
				RTPDefType: byte(op.Int("type")), RTPIsStatic: op.Bool("static"), Priority: op.Int("prio")},
				func(w msdk.PCM16Writer) msdk.WriteCloser[rawSample] { return &rawDec{msdk.ResampleWriter(w, crate)} },
				func(w msdk.WriteCloser[rawSample]) msdk.PCM16Writer { return &rawEnc{w} })
		}
	}
	tap := &payloadTap{}
	sink := &pcmSink{rate: rate}
	var w msdk.PCM16Writer
	var hnd rtp.Handler
	var in msdk.PCM16Sample // what was written or, if it receives, the payloads
	var inB []byte
	said := 0
	for _, op := range sc.Ops {
		o := M{}
		p := guard(func() {
			var err error
			was, heard := tap.n, sink.total
			o["quiet"] = true
			switch op["ev"] {
			case "make":
				find(op)
				i := codec.Info()
				if plain != nil {
					i = plain.Info()
				}
				o["info"] = []any{i.SDPName, i.SampleRate, i.RTPClockRate, int(i.RTPDefType), i.RTPIsStatic, i.Priority, i.FileExt}
				if sc.Cfg.Bool("twin") {
					// another chain of the kind, in use at the same time
					if enc {
						_ = codec.EncodeRTP(rtp.NewSeqWriter(&payloadTap{}).NewStream(0, i.RTPClockRate)).WriteSample(make(msdk.PCM16Sample, 320))
						_ = msdk.ResampleWriter(&pcmSink{rate: 8000}, 16000)
					} else {
						_ = codec.DecodeRTP(&pcmSink{rate: rate}, 0).HandleRTP(&prtp.Header{}, make([]byte, 160))
					}
					for _, n := range list() {
						before[n], mine = true, append(mine, n)
					}
				}
				if enc {
					st := rtp.NewSeqWriter(tap).NewStream(0, i.RTPClockRate)
					w = msdk.ResampleWriter(codec.EncodeRTP(st), rate)
				} else {
					hnd = codec.DecodeRTP(sink, 0)
				}
			case "say":
				n := op.Int("n")
				x := signal(op.Str("sig"), rate, said, n)
				said += n
				if enc {
					in = append(in, x...)
					y := slices.Clone(x)
					err = w.WriteSample(y)
					o["quiet"] = slices.Equal(x, y)
					spoil(y)
				} else {
					b := make([]byte, n)
					for i := range b {
						b[i] = byte(uint16(x[i]) >> 8)
					}
					inB = append(inB, b...)
					c := slices.Clone(b)
					err = hnd.HandleRTP(&prtp.Header{}, c)
					o["quiet"] = slices.Equal(b, c)
					for i := range c {
						c[i] ^= 0x55
					}
				}
			case "fail":
				tap.fail, sink.fail = op.Bool("on"), op.Bool("on")
			case "close":
				err = w.Close()
			}
			o["err"] = err != nil
			o["passed"] = tap.n > was || sink.total > heard
		})
		if p != nil {
			o["panic"] = p
		}
		pcmSide, rtpSide := leBytes(in), tap.all
		if !enc {
			pcmSide, rtpSide = leBytes(allPCM(sink)), inB
		}
		head := func(b []byte, n int) int {
			if n > len(b) {
				return -1
			}
			return digest(b[:n])
		}
		files := []any{}
		for _, n := range list() {
			m := dumpName.FindStringSubmatch(n)
			b, err := os.ReadFile(n)
			if err != nil {
				panic(err)
			}
			ar, _ := strconv.Atoi(m[4])
			files = append(files, []any{m[1] + m[3], ar, m[5], len(b), digest(b), head(pcmSide, len(b)), head(rtpSide, len(b))})
		}
		slices.SortFunc(files, func(a, b any) int { return strings.Compare(a.([]any)[0].(string), b.([]any)[0].(string)) })
		o["files"], o["pcm"], o["rtp"] = files, len(pcmSide), len(rtpSide)
		r.Event(op, o)
	}
	for _, n := range append(list(), mine...) {
		_ = os.Remove(n)
	}
}

type rawSample []byte

func (s rawSample) Size() int { return len(s) }
func (s rawSample) CopyTo(dst []byte) (int, error) {
	return copy(dst, s), nil
}

type rawEnc struct{ w msdk.WriteCloser[rawSample] }

func (e *rawEnc) String() string  { return "raw" }
func (e *rawEnc) SampleRate() int { return e.w.SampleRate() }
func (e *rawEnc) Close() error    { return e.w.Close() }
func (e *rawEnc) WriteSample(x msdk.PCM16Sample) error {
	b := make(rawSample, len(x))
	for i, v := range x {
		b[i] = byte(uint16(v) >> 8)
	}
	return e.w.WriteSample(b)
}

type rawDec struct{ w msdk.PCM16Writer }

func (e *rawDec) String() string  { return "raw" }
func (e *rawDec) SampleRate() int { return e.w.SampleRate() }
func (e *rawDec) Close() error    { return e.w.Close() }
func (e *rawDec) WriteSample(b rawSample) error {
	x := make(msdk.PCM16Sample, len(b))
	for i, v := range b {
		x[i] = int16(uint16(v) << 8)
	}
	return e.w.WriteSample(x)
}
