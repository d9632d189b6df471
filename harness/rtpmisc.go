package main

import (
	"errors"
	"fmt"
	"net"
	"net/netip"
	"regexp"
	"slices"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing/synctest"
	"time"

	"github.com/pion/interceptor"
	prtp "github.com/pion/rtp"

	msdk "github.com/livekit/media-sdk"
	"github.com/livekit/media-sdk/jitter"
	"github.com/livekit/media-sdk/rtp"
)

func init() {
	reg("mux", false, runMux)
	reg("handle", false, runHandle)
	reg("handlejitter", true, runHandleJitter)
	reg("ports", false, runPorts)
}

type muxHandler struct {
	n    int
	hits *[]any
	err  error
}

func (h *muxHandler) String() string { return fmt.Sprint("h", h.n) }
func (h *muxHandler) HandleRTP(hd *prtp.Header, payload []byte) error {
	*h.hits = append(*h.hits, []int{h.n, int(hd.PayloadType), int(payload[0])})
	return h.err
}

var muxEntry = regexp.MustCompile(`\((?:T=(\d+)|Def) -> h(\d+)\)`)

// describeMux is what the description of a mux says: types (-1: default) and their handlers.
func describeMux(m *rtp.Mux) [][2]int {
	out := [][2]int{}
	for _, e := range muxEntry.FindAllStringSubmatch(m.String(), -1) {
		typ := -1
		if e[1] != "" {
			typ, _ = strconv.Atoi(e[1])
		}
		h, _ := strconv.Atoi(e[2])
		out = append(out, [2]int{typ, h})
	}
	return out
}

func runMux(sc *Scenario, r *Rec) {
	hits := []any{}
	hs := map[int]*muxHandler{}
	get := func(n int) rtp.Handler {
		if n == 0 {
			return nil
		}
		h := hs[n]
		if h == nil {
			h = &muxHandler{n: n, hits: &hits}
			if n%2 == 1 {
				h.err = fmt.Errorf("error %d", n)
			}
			hs[n] = h
		}
		return h
	}
	m := rtp.NewMux(get(sc.Cfg.Int("def")))
	for _, op := range sc.Ops {
		hits = []any{}
		errn := 0
		p := guard(func() {
			var err error
			switch op["ev"] {
			case "register":
				m.Register(byte(op.Int("typ")), get(op.Int("h")))
			case "default":
				m.SetDefault(get(op.Int("h")))
			case "handle":
				err = m.HandleRTP(&prtp.Header{Version: 2, PayloadType: uint8(op.Int("typ"))}, []byte{byte(op.Int("id"))})
			case "nilmux":
				err = (*rtp.Mux)(nil).HandleRTP(&prtp.Header{}, []byte{1})
			}
			if err != nil {
				errn = -1
				for n, h := range hs {
					if h.err == err {
						errn = n
					}
				}
			}
		})
		o := M{"hits": hits, "err": errn, "desc": describeMux(m)}
		if p != nil {
			o["panic"] = fmt.Sprint(p)
		}
		r.Event(op, o)
	}
}

var (
	errReader  = errors.New("reader")
	errHandler = errors.New("handler")
	errWriter  = errors.New("writer")
)

type loopReader struct{ n, i int }

func (l *loopReader) ReadRTP() (*prtp.Packet, interceptor.Attributes, error) {
	if l.i == l.n {
		return nil, nil, errReader
	}
	l.i++
	return &prtp.Packet{Header: prtp.Header{SequenceNumber: uint16(l.i)}, Payload: []byte{byte(l.i >> 8), byte(l.i)}}, nil, nil
}

type loopHandler struct {
	bad    int
	seen   []int
	closes int
	late   bool
}

func (l *loopHandler) String() string { return "loop" }
func (l *loopHandler) Close()         { l.closes++ }
func (l *loopHandler) HandleRTP(h *prtp.Header, payload []byte) error {
	l.late = l.late || l.closes > 0
	id := int(payload[0])<<8 | int(payload[1])
	if int(h.SequenceNumber) != id {
		l.seen = append(l.seen, -1)
	}
	l.seen = append(l.seen, id)
	if len(l.seen) == l.bad {
		return errHandler
	}
	return nil
}

type byteSink struct {
	got  []int
	fail bool
}

func (s *byteSink) String() string  { return "bytes" }
func (s *byteSink) SampleRate() int { return 8000 }
func (s *byteSink) WriteSample(b byteFrame) error {
	s.got = append(s.got, ints([]byte(b))...)
	if s.fail {
		return errWriter
	}
	return nil
}

var _ msdk.Writer[byteFrame] = (*byteSink)(nil)

func runHandle(sc *Scenario, r *Rec) {
	for _, op := range sc.Ops {
		h := &loopHandler{bad: op.Int("bad"), seen: []int{}}
		var err error
		seen := []int{}
		p := guard(func() {
			switch op["ev"] {
			case "loop":
				err = rtp.HandleLoop(&loopReader{n: op.Int("n")}, h)
				seen = h.seen
			case "nop":
				err = rtp.HandleLoop(&loopReader{n: op.Int("n")}, rtp.NewNopCloser(h))
				seen = h.seen
			case "nilfunc":
				err = rtp.HandleLoop(&loopReader{n: op.Int("n")}, rtp.NewNopCloser(rtp.HandlerFunc(nil)))
			case "in":
				s := &byteSink{fail: op.Bool("fail"), got: []int{}}
				in := rtp.NewMediaStreamIn[byteFrame](s)
				err = in.HandleRTP(&prtp.Header{}, bytesOf(op.Ints("p")))
				seen = s.got
			}
		})
		o := M{"seen": seen, "err": errStr(err), "closes": h.closes, "late": h.late}
		if p != nil {
			o["panic"] = fmt.Sprint(p)
		}
		r.Event(op, o)
	}
}

type jitSink struct {
	mu     sync.Mutex
	us     func() int
	bad    map[int]error
	out    []any
	whole  bool
	closes int
	slow   time.Duration // how long it takes to close
	ids    map[string]int
}

func (s *jitSink) String() string { return "jit" }
func (s *jitSink) Close() {
	s.mu.Lock()
	s.closes++
	s.mu.Unlock()
	time.Sleep(s.slow)
}
func (s *jitSink) HandleRTP(h *prtp.Header, payload []byte) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	id := int(payload[0])<<8 | int(payload[1])
	s.out = append(s.out, []int{s.us(), id})
	e := h.GetExtension(1)
	s.whole = s.whole && len(payload) == 4 && payload[2] == byte(id) && h.Timestamp == uint32(id) && len(e) == 2 && e[0] == byte(id) && len(h.CSRC) == 1 && h.CSRC[0] == uint32(id)
	return s.bad[id]
}

func runHandleJitter(sc *Scenario, r *Rec) {
	start := time.Now()
	us := func() int { return int(time.Since(start) / time.Microsecond) }
	s := &jitSink{us: us, bad: map[int]error{}, whole: true, out: []any{}}
	for _, id := range sc.Cfg.Ints("bad") {
		s.bad[id] = fmt.Errorf("bad %d", id)
	}
	cbs := []any{}
	h := rtp.HandleJitter(s, jitter.WithPacketLossHandler(func(lost, dropped uint64) {
		s.mu.Lock()
		cbs = append(cbs, []int{us(), clamp(lost), clamp(dropped)})
		s.mu.Unlock()
	}))
	// the caller reuses its header and payload
	hd := &prtp.Header{}
	buf := make([]byte, 4)
	ext := make([]byte, 2)
	for _, op := range sc.Ops {
		ret := 0
		switch op["ev"] {
		case "rtp":
			id := op.Int("id")
			hd.Version, hd.SequenceNumber, hd.Timestamp, hd.Padding = 2, uint16(op.Int("sn")), uint32(id), op.Bool("pad")
			hd.CSRC = append(hd.CSRC[:0], uint32(id))
			ext[0], ext[1] = byte(id), 1
			if err := hd.SetExtension(1, ext); err != nil {
				panic(err)
			}
			buf[0], buf[1], buf[2], buf[3] = byte(id>>8), byte(id), byte(id), 7
			err := h.HandleRTP(hd, buf)
			if err != nil {
				ret = -1
				for k, e := range s.bad {
					if e == err {
						ret = k
					}
				}
			}
			buf[0], buf[2], ext[0], hd.CSRC[0] = 0xEE, 0xEE, 0xEE, 0xEEEE
			hd.Timestamp = 0xEEEE
		case "sleep":
			time.Sleep(time.Duration(op.Int("d")) * time.Microsecond)
		case "close":
			s.slow = time.Duration(op.Int("d")) * time.Microsecond
			h.Close()
		}
		synctest.Wait()
		s.mu.Lock()
		r.Event(op, M{"out": s.out, "ret": ret, "whole": s.whole, "closes": s.closes, "cbs": cbs})
		s.out, s.whole = []any{}, true
		cbs = []any{}
		s.mu.Unlock()
	}
	if s.closes == 0 {
		h.Close()
	}
}

var errDenied = syscall.EACCES

// runPorts listens with a stand-in that decides what happens to an attempt (through net.ListenConfig.Control),
// or on real sockets of a loopback address of its own.
func runPorts(sc *Scenario, r *Rec) {
	host := sc.Cfg.Str("ip")
	if strings.Contains(host, ":") {
		if c, err := net.Listen("tcp6", "[::1]:0"); err != nil {
			host = "127.0.0.1" // no IPv6 here
		} else {
			c.Close()
		}
	}
	ip := netip.MustParseAddr(host)
	for _, op := range sc.Ops {
		used, denied, free := op.Ints("used"), op.Ints("denied"), op.Ints("free")
		var c *net.UDPConn
		var err error
		o := M{}
		tried := []any{}
		var held []*net.UDPConn
		switch op["ev"] {
		case "try":
			lc := &net.ListenConfig{Control: func(network, address string, _ syscall.RawConn) error {
				_, p, err := net.SplitHostPort(address)
				if err != nil {
					return err
				}
				port, _ := strconv.Atoi(p)
				res := "ok"
				if slices.Contains(denied, port) {
					res = "denied"
				} else if op.Bool("allused") && !slices.Contains(free, port) || slices.Contains(used, port) {
					res = "used"
				}
				tried = append(tried, []any{port, res})
				switch res {
				case "denied":
					return errDenied
				case "used":
					return syscall.EADDRINUSE
				}
				return errStandIn
			}}
			c, err = rtp.ListenUDPPortRangeWithConfig(op.Int("lo"), op.Int("hi"), ip, lc)
			o["tried"] = tried
		case "real":
			for _, p := range used {
				u, err := net.ListenUDP("udp", &net.UDPAddr{IP: ip.AsSlice(), Port: p})
				if err != nil {
					fmt.Println("cannot occupy port:", err)
					panic(err)
				}
				held = append(held, u)
			}
			if op.Bool("lc") {
				c, err = rtp.ListenUDPPortRangeWithConfig(op.Int("lo"), op.Int("hi"), ip, &net.ListenConfig{})
			} else {
				c, err = rtp.ListenUDPPortRange(op.Int("lo"), op.Int("hi"), ip)
			}
		}
		o["port"] = -1
		switch {
		case err == nil:
			o["res"] = "ok"
			o["port"] = c.LocalAddr().(*net.UDPAddr).Port
			if !c.LocalAddr().(*net.UDPAddr).IP.Equal(net.IP(ip.AsSlice())) {
				o["res"] = "wrong address"
			}
			c.Close()
		case errors.Is(err, errStandIn):
			o["res"] = "ok"
			if len(tried) > 0 {
				o["port"] = tried[len(tried)-1].([]any)[0]
			}
		case errors.Is(err, rtp.ErrListenFailed):
			o["res"] = "failed"
		case errors.Is(err, errDenied):
			o["res"] = "denied"
		case errors.Is(err, syscall.EADDRINUSE):
			o["res"] = "used"
		default:
			o["res"] = err.Error()
		}
		for _, u := range held {
			u.Close()
		}
		r.Event(op, o)
	}
}

// errStandIn ends an attempt that would have succeeded, without opening a socket.
var errStandIn = errors.New("stand-in")
