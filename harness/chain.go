package main

import (
	"bytes"
	"encoding/binary"
	"fmt"

	msdk "github.com/livekit/media-sdk"
	"github.com/livekit/media-sdk/g711"
)

func init() {
	reg("chain", true, runChain)
}

type chainSink struct {
	got         []any
	closed      int
	fail, cfail bool
}

func (s *chainSink) String() string  { return "sink" }
func (s *chainSink) SampleRate() int { return 8000 }
func (s *chainSink) WriteSample(x msdk.PCM16Sample) error {
	s.got = append(s.got, ints(x))
	if s.fail {
		return errSink
	}
	return nil
}
func (s *chainSink) Close() error {
	s.closed++
	if s.cfail {
		return errSink
	}
	return nil
}

type chainFile struct {
	bytes.Buffer
	closed int
}

func (f *chainFile) Close() error { f.closed++; return nil }

// runChain builds a tree of writers and uses it.
func runChain(sc *Scenario, r *Rec) {
	tree := sc.Cfg["tree"].([]any)
	n := len(tree)
	node := func(i int) M { return M(tree[i-1].(map[string]any)) }
	ws := make([]msdk.PCM16Writer, n+1)
	sinks, files := map[int]*chainSink{}, map[int]*chainFile{}
	bufs, frames := map[int]*msdk.PCM16Sample{}, map[int]*[]msdk.PCM16Sample{}
	sws := map[int]*msdk.SwitchWriter{}
	for i := n; i >= 1; i-- { // children come after their parents
		d := node(i)
		c := d.Ints("c")
		switch d.Str("k") {
		case "sink":
			sinks[i] = &chainSink{}
			ws[i] = sinks[i]
		case "buf":
			bufs[i] = &msdk.PCM16Sample{}
			ws[i] = msdk.NewPCM16BufferWriter(bufs[i], 8000)
		case "frames":
			frames[i] = &[]msdk.PCM16Sample{}
			ws[i] = msdk.NewPCM16FrameWriter(frames[i], 8000)
		case "file":
			files[i] = &chainFile{}
			ws[i] = msdk.NewFileWriter[msdk.PCM16Sample](files[i], 8000)
		case "full":
			ws[i] = msdk.FullFrames(ws[c[0]], d.Int("n"))
		case "multi":
			var m msdk.MultiWriter[msdk.PCM16Sample]
			for _, j := range c {
				m = append(m, ws[j])
			}
			ws[i] = m
		case "switch":
			sws[i] = msdk.NewSwitchWriter(8000)
			sws[i].Swap(ws[c[0]])
			ws[i] = sws[i]
		case "nop":
			ws[i] = msdk.NopCloser[msdk.PCM16Sample](ws[c[0]])
		case "code":
			if sc.Cfg.Str("law") == "a" {
				ws[i] = g711.EncodeALaw(g711.DecodeALaw(ws[c[0]]))
			} else {
				ws[i] = g711.EncodeULaw(g711.DecodeULaw(ws[c[0]]))
			}
		case "same":
			ws[i] = msdk.ResampleWriter(ws[c[0]], 8000)
		default:
			panic(fmt.Sprint("unknown node ", d))
		}
	}
	root := ws[1]
	for _, op := range sc.Ops {
		o := M{"in": true, "had": false}
		var err error
		p := guard(func() {
			i := op.Int("i")
			switch op["ev"] {
			case "write":
				xs := op.Ints("xs")
				x := make(msdk.PCM16Sample, len(xs), len(xs)+5)
				copy(x, pcm(xs))
				x[:cap(x)][len(x) : len(x)+5][0] = 12345
				err = root.WriteSample(x)
				o["in"] = fmt.Sprint(ints(x)) == fmt.Sprint(xs) && x[:cap(x)][len(x)] == 12345
				spoil(x)
			case "close":
				err = root.Close()
			case "fail":
				sinks[i].fail = op.Bool("on")
			case "cfail":
				sinks[i].cfail = op.Bool("on")
			case "on":
				if op.Bool("on") {
					sws[i].Enable()
				} else {
					sws[i].Disable()
				}
			case "swap":
				child := ws[node(i).Ints("c")[0]]
				var w msdk.PCM16Writer
				if op.Bool("on") {
					w = child
				}
				had := sws[i].Get() != nil
				old := sws[i].Swap(w)
				o["had"] = old != nil
				if had != (old != nil) {
					panic("the writer that was attached is not returned")
				}
			}
		})
		if p != nil {
			o["panic"] = fmt.Sprint(p)
		}
		o["err"] = err != nil
		o["rate"] = root.SampleRate()
		if root.String() == "" {
			panic("no description")
		}
		seen := []any{}
		for i := 1; i <= n; i++ {
			fs, closed := []any{}, 0
			switch node(i).Str("k") {
			case "sink":
				fs = append(fs, sinks[i].got...)
				closed = sinks[i].closed
				sinks[i].got = nil
			case "buf":
				fs = append(fs, ints(*bufs[i]))
			case "frames":
				for _, f := range *frames[i] {
					fs = append(fs, ints(f))
				}
			case "file":
				f := files[i]
				closed = f.closed
				if closed > 0 {
					b := f.Bytes()
					xs := []int{}
					for ; len(b) >= 2; b = b[2:] {
						xs = append(xs, int(int16(binary.LittleEndian.Uint16(b))))
					}
					fs = append(fs, xs)
				}
			}
			seen = append(seen, []any{fs, closed})
		}
		o["seen"] = seen
		r.Event(op, o)
		if op["ev"] == "close" && err != nil {
			return // nothing is said about what comes after a failure to close
		}
	}
}
