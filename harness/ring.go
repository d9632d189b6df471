package main

import (
	"fmt"
	"io"

	"github.com/livekit/media-sdk/ring"
)

func init() { reg("ring", false, runRing) }

func runRing(sc *Scenario, r *Rec) {
	b := ring.NewBuffer[int](sc.Cfg.Int("cap"))
	for _, op := range sc.Ops {
		ret := []any{}
		o := M{}
		p := guard(func() {
			switch op["ev"] {
			case "push":
				b.Push(op.Int("v"))
			case "trypush":
				ret = append(ret, b.TryPush(op.Int("v")))
			case "pop":
				ret = append(ret, b.Pop())
			case "trypop":
				v, ok := b.TryPop()
				ret = append(ret, v, ok)
			case "peek":
				ret = append(ret, b.Peek())
			case "trypeek":
				v, ok := b.TryPeek()
				ret = append(ret, v, ok)
			case "read":
				p := make([]int, op.Int("n"))
				for i := range p {
					p[i] = -1
				}
				n, err := b.Read(p)
				if err != nil && err != io.EOF {
					panic(err)
				}
				ret = append(ret, n, err == io.EOF, p)
			case "write":
				vs := op.Ints("vs")
				n, err := b.Write(vs)
				if err != nil {
					panic(err)
				}
				for i := range vs { // the buffer keeps copies
					vs[i] = -2
				}
				ret = append(ret, n)
			default:
				panic(fmt.Sprint("unknown op ", op))
			}
		})
		o["ret"], o["len"], o["size"] = ret, b.Len(), b.Size()
		if p != nil {
			o["panic"] = fmt.Sprint(p)
		}
		r.Event(op, o)
	}
}
