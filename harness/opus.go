//go:build cgo

package main

import (
	"fmt"
	"io"
	"slices"
	"time"

	libopus "gopkg.in/hraban/opus.v2"

	"github.com/livekit/protocol/logger"

	msdk "github.com/livekit/media-sdk"
	"github.com/livekit/media-sdk/opus"
)

type opusAny struct{ opus.Writer }

func (w opusAny) WriteSample(b []byte) error { return w.Writer.WriteSample(b) }

func init() {
	reg("opus", false, runOpus)
	newOpusWebm = func(f io.WriteCloser, rate, ch int, dur time.Duration) opusWriter {
		return opusAny{opus.NewWebmWriter(f, rate, ch, dur)}
	}
	opusFrame = func(b []byte) msdk.Frame { return opus.Sample(b) }
}

func runOpus(sc *Scenario, r *Rec) {
	rate, target := sc.Cfg.Int("rate"), sc.Cfg.Int("target")
	erate := sc.Cfg.Int("erate")
	sink := &pcmSink{rate: rate}
	var dec opus.Writer
	var derr error
	p := guard(func() { dec, derr = opus.Decode(sink, target, logger.GetLogger()) })
	r.Event(M{"ev": "open"}, M{"err": derr != nil || p != nil})
	if derr != nil || p != nil {
		return
	}
	encs := map[int]msdk.PCM16Writer{}
	outs := map[int]*frameSink[opus.Sample]{}
	var ref *libopus.Decoder
	refCh := 0
	pos := 0
	reset := func(ch int) {
		if ref == nil || refCh != ch {
			var err error
			if ref, err = libopus.NewDecoder(rate, ch); err != nil {
				panic(err)
			}
			refCh = ch
		}
	}
	for _, op := range sc.Ops {
		o := M{}
		ch := op.Int("ch")
		var err error
		p := guard(func() {
			switch op["ev"] {
			case "pkt":
				if encs[ch] == nil {
					outs[ch] = &frameSink[opus.Sample]{rate: erate}
					if encs[ch], err = opus.Encode(outs[ch], ch, logger.GetLogger()); err != nil {
						panic(err)
					}
				}
				// dur in tenths of a millisecond
				n := erate * op.Int("dur") / 10000
				x := signal(op.Str("sig"), erate, pos, n*ch)
				pos += n * ch
				e := encs[ch].WriteSample(x)
				o["in"] = slices.Equal(x, signal(op.Str("sig"), erate, pos-n*ch, n*ch))
				if e != nil {
					panic(e)
				}
				got := outs[ch].take()
				o["packets"] = len(got)
				b := opus.Sample{}
				for _, v := range got[0].([]int) {
					b = append(b, byte(v))
				}
				// the encoder chooses the number of channels of a packet
				ch = 1 + int(b[0]>>2&1)
				op["ch"] = ch
				reset(ch)
				buf := make([]int16, rate*ch*120/1000)
				k, e := ref.Decode(b, buf)
				if e != nil {
					panic(e)
				}
				op["ref"], op["n"] = ints(buf[:k*ch]), rate*op.Int("dur")/10000
				err = dec.WriteSample(b)
				for i := range b {
					b[i] = 0
				}
			case "bad":
				reset(ch)
				// any number of frames, but none
				t := byte(0x78 | 3)
				if ch == 2 {
					t |= 4
				}
				b := []byte{t, 0}
				if op.Int("kind") == 1 {
					b = []byte{t} // without the number of frames
				} else if op.Int("kind") == 2 {
					b = []byte{t, 63} // too many of them
				}
				err = dec.WriteSample(b)
			case "empty":
				err = dec.WriteSample(opus.Sample{})
			case "fail":
				sink.fail = op.Bool("on")
			case "close":
				err = dec.Close()
			case "encnew":
				e, err := opus.Encode(&frameSink[opus.Sample]{rate: op.Int("rate")}, ch, logger.GetLogger())
				o["encerr"] = err != nil && e == nil
			case "encbad":
				// not a whole frame
				s := &frameSink[opus.Sample]{rate: erate}
				e, err := opus.Encode(s, ch, logger.GetLogger())
				if err != nil {
					panic(err)
				}
				o["encerr"] = e.WriteSample(signal("sine", erate, 0, op.Int("n"))) != nil
				o["packets"] = len(s.got)
				o["encclosed"] = 0
				if e.Close() == nil {
					o["encclosed"] = s.closed
				}
			default:
				panic(fmt.Sprint("unknown op ", op))
			}
		})
		o["err"], o["out"], o["closed"] = err != nil, framesTaken(sink), sink.closed
		if p != nil {
			o["panic"] = fmt.Sprint(p)
		}
		r.Event(op, o)
	}
}
