package main

import (
	"errors"
	"io"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	msdk "github.com/livekit/media-sdk"
)

func init() {
	reg("pipe", false, runPipe)
	reg("pipemany", false, runPipeMany)
}

// runPipeMany closes a pipe, again and again, at all moments of a transfer.
func runPipeMany(sc *Scenario, r *Rec) {
	side, e, spin := sc.Cfg.Str("side"), sc.Cfg.Str("e"), sc.Cfg.Int("spin")
	rounds := []any{}
	for round := range sc.Cfg.Int("n") {
		pr, pw := msdk.Pipe[msdk.PCM16Sample](16000)
		got, ok, seq := 0, 0, true
		var rerr, werr error
		var ready atomic.Int32
		start := func() {
			for ready.Add(1); ready.Load() < 3; {
			}
		}
		var wg sync.WaitGroup
		wg.Add(3)
		go func() {
			defer wg.Done()
			start()
			for {
				buf := msdk.PCM16Sample{int16(3 * ok), int16(3*ok + 1), int16(3*ok + 2)}
				if werr = pw.WriteSample(buf); werr != nil {
					return
				}
				ok++
			}
		}()
		go func() {
			defer wg.Done()
			start()
			buf := make(msdk.PCM16Sample, 2)
			for {
				var n int
				if n, rerr = pr.ReadSample(buf); rerr != nil {
					return
				}
				for _, v := range buf[:n] {
					seq = seq && v == int16(got)
					got++
				}
			}
		}()
		go func() {
			defer wg.Done()
			start()
			for i := 0; i < round%spin; i++ {
				ready.Load()
			}
			switch {
			case side == "cw" && e == "":
				_ = pw.Close()
			case side == "cw":
				_ = pw.CloseWithError(errNames[e])
			case e == "":
				_ = pr.Close()
			default:
				_ = pr.CloseWithError(errNames[e])
			}
		}()
		wg.Wait()
		rounds = append(rounds, []any{got, ok, seq, pipeErr(rerr), pipeErr(werr)})
	}
	r.Event(M{"ev": "rounds", "side": side, "e": e, "n": len(rounds)}, M{"rounds": rounds})
}

var errNames = map[string]error{"e1": errors.New("e1"), "e2": errors.New("e2")}

func pipeErr(err error) string {
	switch {
	case err == nil:
		return ""
	case err == io.EOF:
		return "EOF"
	case err == io.ErrClosedPipe:
		return "closed"
	}
	for k, e := range errNames {
		if err == e {
			return k
		}
	}
	return "other: " + err.Error()
}

// nap lets other goroutines run for a while.
func nap(n int) {
	if n < 10 {
		for range n {
			runtime.Gosched()
		}
		return
	}
	time.Sleep(time.Duration(n) * time.Microsecond)
}

func runPipe(sc *Scenario, r *Rec) {
	pr, pw := msdk.Pipe[msdk.PCM16Sample](16000)
	n := sc.Cfg.Int("threads")
	ops := make([][]M, n)
	for _, op := range sc.Ops {
		ops[op.Int("t")] = append(ops[op.Int("t")], op)
	}
	var wg sync.WaitGroup
	for t := range n {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, op := range ops[t] {
				nap(op.Int("nap"))
				k := op.Str("k")
				d := op.Ints("d")
				if d == nil {
					d = []int{}
				}
				r.raw(M{"ev": "call", "t": t, "k": k, "d": d, "n": op.Int("n"), "e": op.Str("e")})
				o := M{"data": []int{}, "clean": true}
				var err error
				switch k {
				case "w":
					buf := pcm(d)
					err = pw.WriteSample(buf)
					for i := range buf {
						o["clean"] = o["clean"].(bool) && int(buf[i]) == d[i]
						buf[i] = -7
					}
				case "r":
					buf := make(msdk.PCM16Sample, op.Int("n"))
					for i := range buf {
						buf[i] = -9
					}
					var c int
					c, err = pr.ReadSample(buf)
					o["data"] = ints(buf[:c])
					for _, v := range buf[c:] {
						o["clean"] = o["clean"].(bool) && v == -9
					}
				case "cw":
					if op.Str("e") == "" {
						err = pw.Close()
					} else {
						err = pw.CloseWithError(errNames[op.Str("e")])
					}
				case "cr":
					if op.Str("e") == "" {
						err = pr.Close()
					} else {
						err = pr.CloseWithError(errNames[op.Str("e")])
					}
				}
				o["err"] = pipeErr(err)
				r.raw(M{"ev": "ret", "t": t, "k": k, "o": o})
			}
		}()
	}
	wg.Wait()
}
