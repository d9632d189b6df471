package main

import (
	"fmt"
	"runtime"
	"slices"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"

	"github.com/pion/rtp"

	"github.com/livekit/media-sdk/jitter"
)

// flagDepacketizer reads sample boundaries from the payload (start) and the marker (end).
type flagDepacketizer struct{}

func (flagDepacketizer) Unmarshal(p []byte) ([]byte, error)    { return p, nil }
func (flagDepacketizer) IsPartitionHead(p []byte) bool         { return len(p) > 0 && p[0]&1 != 0 }
func (flagDepacketizer) IsPartitionTail(m bool, _ []byte) bool { return m }

func idPayload(id int, st bool) []byte {
	b := byte(0)
	if st {
		b = 1
	}
	return []byte{b, byte(id >> 8), byte(id)}
}

func init() {
	reg("jitter", true, runJitter)
	reg("jitterpar", true, runJitterPar)
}

func runJitter(sc *Scenario, r *Rec) {
	start := time.Now()
	us := func() int { return int(time.Since(start) / time.Microsecond) }
	var (
		mu  sync.Mutex
		out = []any{}
		ids = []any{}
		cbs = []any{}
	)
	type kept struct{ got, want []jitter.ExtPacket }
	pushed := map[int]jitter.ExtPacket{}
	var samples []kept
	whole := true
	var opts []jitter.Option
	if !sc.Cfg.Bool("mute") {
		opts = append(opts, jitter.WithPacketLossHandler(func(lost, dropped uint64) {
			mu.Lock()
			defer mu.Unlock()
			cbs = append(cbs, []any{us(), clamp(lost), clamp(dropped)})
		}))
	}
	buf := jitter.NewBuffer(flagDepacketizer{}, time.Duration(sc.Cfg.Int("lat"))*time.Microsecond,
		func(packets []jitter.ExtPacket) {
			mu.Lock()
			defer mu.Unlock()
			l := []int{}
			for _, p := range packets {
				id := int(p.Payload[1])<<8 | int(p.Payload[2])
				l = append(l, id)
				w := pushed[id]
				whole = whole && p.Packet == w.Packet && p.ReceivedAt.Equal(w.ReceivedAt)
			}
			out = append(out, []any{us(), l})
			ids = append(ids, l)
			samples = append(samples, kept{packets, slices.Clone(packets)})
		}, opts...)
	packet := func(op M) jitter.ExtPacket {
		p := jitter.ExtPacket{
			ReceivedAt: time.Now().Add(-time.Duration(op.Int("ago")) * time.Microsecond),
			Packet: &rtp.Packet{
				Header:  rtp.Header{Version: 2, SequenceNumber: uint16(op.Int("sn")), Marker: op.Bool("en"), Padding: op.Bool("pad")},
				Payload: idPayload(op.Int("id"), op.Bool("st")),
			},
		}
		mu.Lock()
		pushed[op.Int("id")] = p
		mu.Unlock()
		return p
	}
	var earlier *jitter.BufferStats
	var was jitter.BufferStats
	for _, op := range sc.Ops {
		mu.Lock()
		out, ids, cbs = []any{}, []any{}, []any{}
		mu.Unlock()
		switch op["ev"] {
		case "push":
			p := packet(op)
			switch op.Str("api") {
			case "ext":
				buf.PushExtPacket(p)
			case "batch":
				buf.PushExtPacketBatch([]jitter.ExtPacket{p})
			case "at":
				buf.PushAt(p.Packet, p.ReceivedAt)
			default:
				buf.Push(p.Packet)
			}
		case "batch":
			var ps []jitter.ExtPacket
			for _, o := range op.List("ps") {
				ps = append(ps, packet(o))
			}
			buf.PushExtPacketBatch(ps)
			clear(ps)
		case "flush":
			buf.Flush()
		case "latency":
			buf.UpdateLatency(time.Duration(op.Int("d")) * time.Microsecond)
		case "close":
			buf.Close()
		case "sleep":
			time.Sleep(time.Duration(op.Int("d")) * time.Microsecond)
		default:
			panic(fmt.Sprint("unknown op ", op))
		}
		synctest.Wait()
		st := buf.Stats()
		mu.Lock()
		// what was given out stays as it was, statistics are those of the moment, the loss rate is theirs
		held := earlier == nil || *earlier == was
		earlier, was = st, *st
		for _, s := range samples {
			held = held && slices.Equal(s.got, s.want)
		}
		loss := 0.0
		if st.PacketsPushed > 0 {
			loss = float64(st.PacketsDropped) / float64(st.PacketsPushed)
		}
		held = held && st.PacketLoss() == loss
		r.Event(op, M{"whole": whole, "held": held, "out": out, "ids": ids, "cbs": cbs, "size": buf.Size(),
			"stats": []int{clamp(st.PacketsPushed), clamp(st.PaddingPushed), clamp(st.PacketsLost),
				clamp(st.PacketsDropped), clamp(st.PacketsPopped), clamp(st.SamplesPopped)}})
		mu.Unlock()
	}
	buf.Close()
}

// clamp keeps numbers in the range of TLC's integers.
func clamp(v uint64) int {
	if v > 2_000_000_000 {
		return 2_000_000_000
	}
	return int(v)
}

// runJitterPar uses one buffer from several goroutines; their pauses are whole milliseconds of
// virtual time, so that many of them (and the timer) run at the same instant, really in parallel.
func runJitterPar(sc *Scenario, r *Rec) {
	var inside, begun, ended, pads atomic.Int64
	alone := func() func() bool {
		first := inside.Add(1) == 1
		return func() bool { runtime.Gosched(); return inside.Add(-1) == 0 && first }
	}
	buf := jitter.NewBuffer(flagDepacketizer{}, time.Duration(sc.Cfg.Int("lat"))*time.Microsecond,
		func(packets []jitter.ExtPacket) {
			done := alone()
			l := []int{}
			for _, p := range packets {
				l = append(l, int(p.Payload[1])<<8|int(p.Payload[2]))
			}
			r.Event(M{"ev": "sample"}, M{"ids": l, "alone": done()})
		},
		jitter.WithPacketLossHandler(func(lost, dropped uint64) {
			done := alone()
			r.Event(M{"ev": "loss"}, M{"n": []int{clamp(lost), clamp(dropped)}, "alone": done()})
		}))
	stats := func(t int, ev string) {
		r.raw(M{"ev": "ask", "t": t, "o": M{}})
		before := int(ended.Load())
		st := buf.Stats()
		r.Event(M{"ev": ev, "t": t}, M{"pads": int(pads.Load()), "stats": []int{clamp(st.PacketsPushed), clamp(st.PaddingPushed), clamp(st.PacketsLost),
			clamp(st.PacketsDropped), clamp(st.PacketsPopped), clamp(st.SamplesPopped)},
			"begun": int(begun.Load()), "ended": before, "size": buf.Size()})
	}
	pks := sc.Cfg.List("pk")
	threadsOf(sc, func(t int, op M) {
		switch op.Str("k") {
		case "push":
			i := op.Int("i")
			p := pks[i]
			begun.Add(1)
			if p.Bool("pad") {
				pads.Add(1)
			}
			buf.Push(&rtp.Packet{
				Header:  rtp.Header{Version: 2, SequenceNumber: uint16(p.Int("sn")), Marker: p.Bool("en"), Padding: p.Bool("pad")},
				Payload: idPayload(i, p.Bool("st")),
			})
			ended.Add(1)
		case "flush":
			buf.Flush()
		case "latency":
			buf.UpdateLatency(time.Duration(op.Int("d")) * time.Microsecond)
		case "stats":
			stats(t, "stats")
		}
	})
	time.Sleep(time.Second)
	synctest.Wait()
	stats(0, "rest")
	buf.Flush()
	stats(0, "end")
	buf.Close()
}
