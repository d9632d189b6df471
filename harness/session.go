package main

import (
	"cmp"
	"errors"
	"fmt"
	"io"
	"net"
	"runtime"
	"slices"
	"sync"
	"testing/synctest"
	"time"

	prtp "github.com/pion/rtp"

	"github.com/livekit/protocol/logger"

	"github.com/livekit/media-sdk/rtp"
)

// fakeConn is an in-memory datagram connection.
type fakeConn struct {
	mu     sync.Mutex
	cond   *sync.Cond
	in     [][]byte // nil: a read error
	closed bool
	closes int
	out    [][]byte
}

func newFakeConn() *fakeConn {
	c := &fakeConn{}
	c.cond = sync.NewCond(&c.mu)
	return c
}

func (c *fakeConn) Read(p []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for len(c.in) == 0 && !c.closed {
		c.cond.Wait()
	}
	if c.closed {
		return 0, net.ErrClosed
	}
	b := c.in[0]
	c.in = c.in[1:]
	if b == nil {
		return 0, errors.New("read fault")
	}
	return copy(p, b), nil
}

func (c *fakeConn) Write(p []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		return 0, net.ErrClosed
	}
	c.out = append(c.out, slices.Clone(p))
	return len(p), nil
}

func (c *fakeConn) inject(b []byte) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if !c.closed {
		c.in = append(c.in, b)
		c.cond.Signal()
	}
}

func (c *fakeConn) Close() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.closed = true
	c.closes++
	c.cond.Broadcast()
	return nil
}

type fakeAddr struct{}

func (fakeAddr) Network() string { return "fake" }
func (fakeAddr) String() string  { return "fake:1" }

func (c *fakeConn) LocalAddr() net.Addr                { return fakeAddr{} }
func (c *fakeConn) RemoteAddr() net.Addr               { return fakeAddr{} }
func (c *fakeConn) SetDeadline(t time.Time) error      { return nil }
func (c *fakeConn) SetReadDeadline(t time.Time) error  { return nil }
func (c *fakeConn) SetWriteDeadline(t time.Time) error { return nil }

// idPacket is a packet whose content is a function of id.
func idPacket(id, ssrc, n int) *prtp.Packet {
	p := &prtp.Packet{Header: prtp.Header{Version: 2, SSRC: uint32(ssrc), SequenceNumber: uint16(id*7 + 65530), Timestamp: uint32(id) * 0x01010101,
		PayloadType: uint8(id * 3 % 128), Marker: id%3 == 0}}
	if id%2 == 0 {
		p.Header.CSRC = []uint32{uint32(id), 7}
	}
	if id%4 < 2 {
		if err := p.Header.SetExtension(1, []byte{byte(id), 9}); err != nil {
			panic(err)
		}
	}
	if id%5 == 0 && n > 0 {
		p.Header.Padding = true
		p.PaddingSize = 4
	}
	p.Payload = make([]byte, n)
	for i := range p.Payload {
		p.Payload[i] = byte(id + i)
	}
	return p
}

func samePacket(h *prtp.Header, payload []byte, ssrc, id int) bool {
	w := idPacket(id, ssrc, len(payload)+1)
	ok := h.Version == 2 && h.SSRC == w.SSRC && h.SequenceNumber == w.SequenceNumber && h.Timestamp == w.Timestamp && h.PayloadType == w.PayloadType &&
		h.Marker == w.Marker && slices.Equal(h.CSRC, w.CSRC) && h.Extension == w.Header.Extension
	if w.Header.Extension {
		ok = ok && slices.Equal(h.GetExtension(1), w.GetExtension(1))
	}
	return ok && slices.Equal(payload, w.Payload[:len(payload)])
}

func datagram(op M) []byte {
	id, n := op.Int("id"), op.Int("len")
	switch op.Str("kind") {
	case "fault":
		return nil
	case "empty":
		return []byte{}
	case "short":
		return []byte{0x80, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9}
	case "csrc":
		return []byte{0x8F, 0, 0, 1, 0, 0, 0, 1, 0, 0, 0, byte(op.Int("ssrc")), 1, 2, 3, 4}
	case "ext":
		return []byte{0x90, 0, 0, 1, 0, 0, 0, 1, 0, 0, 0, byte(op.Int("ssrc")), 0xBE, 0xDE, 0, 9, 1}
	}
	p := idPacket(id, op.Int("ssrc"), n)
	b, err := p.Marshal()
	if err != nil {
		panic(err)
	}
	return b
}

func init() {
	reg("session", true, runSession)
	reg("sessionpar", false, runSessionPar)
	reg("sessionmany", false, runSessionMany)
}

func runSession(sc *Scenario, r *Rec) {
	conn := newFakeConn()
	s := rtp.NewSession(logger.GetLogger(), conn)
	ws, err := s.OpenWriteStream()
	if err != nil {
		panic(err)
	}
	type result struct {
		ssrc, id int
		h        *prtp.Header
		p        []byte
	}
	var (
		mu      sync.Mutex
		streams []rtp.ReadStream
		ssrcs   []int
		acc     = []int{}
		reads   = []any{}
		whole   = true
		kept    []result
		hdrs    = map[int]*prtp.Header{}
		bufs    = map[int][]byte{}
		pending = map[int]int{}
	)
	reuse := sc.Cfg.Bool("reuse")
	sizes := map[int][2]int{} // id -> ssrc, len
	for _, op := range sc.Ops {
		o := M{}
		sent := []any{}
		serr := false
		switch op["ev"] {
		case "inject":
			b := datagram(op)
			sizes[op.Int("id")] = [2]int{op.Int("ssrc"), op.Int("len")}
			op["size"] = len(b)
			conn.inject(b)
		case "accept":
			go func() {
				st, ssrc, err := s.AcceptStream()
				mu.Lock()
				defer mu.Unlock()
				if err != nil {
					acc = append(acc, -1)
					return
				}
				streams = append(streams, st)
				ssrcs = append(ssrcs, int(ssrc))
				acc = append(acc, int(ssrc))
			}()
		case "read":
			k, n := op.Int("k"), op.Int("cap")
			if k >= len(streams) {
				// the real code did not accept the stream: visible in the observations of accept
				break
			}
			st := streams[k]
			h, buf := &prtp.Header{}, make([]byte, n)
			own := reuse && pending[k] == 0
			if own && hdrs[k] != nil {
				h, buf = hdrs[k], bufs[k][:cap(bufs[k])]
				if len(buf) < n {
					buf = make([]byte, n)
				}
				buf = buf[:n]
			}
			if own {
				hdrs[k], bufs[k] = h, buf
			}
			mu.Lock()
			pending[k]++
			mu.Unlock()
			go func() {
				n, err := st.ReadRTP(h, buf)
				mu.Lock()
				defer mu.Unlock()
				pending[k]--
				if err != nil {
					if err != io.EOF {
						whole = false
					}
					reads = append(reads, []int{k, n, -1})
					return
				}
				// identify the packet by its timestamp
				id := int(h.Timestamp & 0xFF)
				for i := range sizes {
					if uint32(i)*0x01010101 == h.Timestamp && sizes[i][0] == ssrcs[k] {
						id = i
					}
				}
				whole = whole && samePacket(h, buf[:n], ssrcs[k], id)
				reads = append(reads, []int{k, n, id})
				if !own {
					kept = append(kept, result{ssrcs[k], id, h, buf[:n]})
				}
			}()
		case "send":
			p := idPacket(op.Int("id"), op.Int("ssrc"), op.Int("len"))
			p.Header.Padding, p.PaddingSize = false, 0
			n, err := ws.WriteRTP(&p.Header, p.Payload)
			serr = err != nil
			for i := range p.Payload {
				p.Payload[i] = 0xEE
			}
			for _, b := range conn.out {
				var q prtp.Packet
				if err := q.Unmarshal(b); err != nil || !samePacket(&q.Header, q.Payload, op.Int("ssrc"), op.Int("id")) || n != len(b) || len(q.Payload) != op.Int("len") {
					whole = false
				}
				sent = append(sent, op.Int("id"))
			}
			conn.out = nil
		case "close":
			if err := s.Close(); err != nil {
				whole = false
			}
		case "sleep":
			time.Sleep(time.Second)
		default:
			panic(fmt.Sprint("unknown op ", op))
		}
		synctest.Wait()
		mu.Lock()
		for _, q := range kept { // results belong to the caller
			whole = whole && samePacket(q.h, q.p, q.ssrc, q.id)
		}
		slices.SortFunc(reads, func(x, y any) int {
			a, b := x.([]int), y.([]int)
			return cmp.Or(a[0]-b[0], a[2]-b[2], a[1]-b[1])
		})
		o["reads"], o["acc"], o["sent"], o["whole"], o["serr"] = reads, acc, sent, whole, serr
		reads, acc = []any{}, []int{}
		whole = true
		mu.Unlock()
		r.Event(op, o)
	}
	s.Close()
	synctest.Wait()
}

// linkConn hands what is written to it to its peer.
type linkConn struct {
	*fakeConn
	to func([]byte)
}

func (c *linkConn) Write(p []byte) (int, error) {
	n, err := c.fakeConn.Write(p)
	if err == nil {
		c.to(slices.Clone(p))
	}
	return n, err
}

// runSessionPar: senders, accepting goroutines, one reader per stream, writers and closers run freely. There are
// never more packets outstanding than a stream queues, so that everything has to arrive.
func runSessionPar(sc *Scenario, r *Rec) {
	n, k, early := sc.Cfg.Int("n"), sc.Cfg.Int("streams"), sc.Cfg.Int("early")
	conn := newFakeConn()
	ending := make(chan struct{})
	var s rtp.Session
	var send func(p *prtp.Packet)
	var peer rtp.Session
	if suite := sc.Cfg.Str("suite"); suite != "" {
		s = openSRTP(suite, conn, 3, 1, "")
		peer = openSRTP(suite, &linkConn{newFakeConn(), conn.inject}, 1, 3, "")
		w, err := peer.OpenWriteStream()
		if err != nil {
			panic(err)
		}
		send = func(p *prtp.Packet) {
			if _, err := w.WriteRTP(&p.Header, p.Payload); err != nil {
				select {
				case <-ending:
				default:
					panic(err)
				}
			}
		}
	} else {
		back := &linkConn{conn, func(b []byte) {
			var q prtp.Packet
			err := q.Unmarshal(b)
			id := int(q.Timestamp / 0x01010101)
			r.Event(M{"ev": "wire", "ssrc": int(q.SSRC), "id": id}, M{"whole": err == nil && len(q.Payload) == 1+id%9 && samePacket(&q.Header, q.Payload, int(q.SSRC), id)})
		}}
		s = rtp.NewSession(logger.GetLogger(), back)
		send = func(p *prtp.Packet) {
			b, err := p.Marshal()
			if err != nil {
				panic(err)
			}
			conn.inject(b)
		}
	}
	window := make(chan struct{}, sc.Cfg.Int("window"))
	var wg, senders sync.WaitGroup
	for range max(1, sc.Cfg.Int("acceptors")) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				st, ssrc, err := s.AcceptStream()
				if err != nil {
					r.Event(M{"ev": "acceptend"}, M{})
					return
				}
				r.Event(M{"ev": "accepted", "ssrc": int(ssrc)}, M{})
				for range max(1, sc.Cfg.Int("readers")) {
					wg.Add(1)
					go func() {
						defer wg.Done()
						var h prtp.Header
						buf := make([]byte, 128)
						for i := 0; ; i++ {
							m, err := st.ReadRTP(&h, buf)
							if err != nil {
								r.Event(M{"ev": "eof", "ssrc": int(ssrc)}, M{"eof": err == io.EOF})
								h = prtp.Header{} // they are ours again
								clear(buf)
								return
							}
							id := int(h.Timestamp / 0x01010101)
							r.Event(M{"ev": "recv", "ssrc": int(ssrc), "id": id}, M{"whole": m == 1+id%9 && samePacket(&h, buf[:m], int(ssrc), id)})
							<-window
							if i%3 == 0 {
								runtime.Gosched()
							}
						}
					}()
				}
			}
		}()
	}
	ws, err := s.OpenWriteStream()
	if err != nil {
		panic(err)
	}
	if sc.Cfg.Str("suite") == "" {
		for t := range sc.Cfg.Int("writers") {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := range n {
					ssrc, id := 100+t, i%250
					p := idPacket(id, ssrc, 1+id%9)
					p.Header.Padding, p.PaddingSize = false, 0
					r.Event(M{"ev": "sent", "ssrc": ssrc, "id": id}, M{})
					if _, err := ws.WriteRTP(&p.Header, p.Payload); err != nil {
						r.Event(M{"ev": "refused", "ssrc": ssrc, "id": id}, M{})
						return
					}
				}
			}()
		}
	}
	closing := func() {
		r.Event(M{"ev": "closing"}, M{})
		close(ending)
		var cl sync.WaitGroup
		for range max(1, sc.Cfg.Int("closers")) {
			cl.Add(1)
			go func() {
				defer cl.Done()
				_ = s.Close()
			}()
		}
		cl.Wait()
		if peer != nil {
			_ = peer.Close()
		}
		r.Event(M{"ev": "closed"}, M{})
	}
	for g := range k {
		senders.Add(1)
		go func() {
			defer senders.Done()
			for i := g; i < n; i += k {
				select {
				case window <- struct{}{}:
				case <-ending:
					return
				}
				id := i % 250
				p := idPacket(id, g, 1+id%9)
				if peer != nil {
					p.Header.Padding, p.PaddingSize = false, 0
				}
				r.Event(M{"ev": "sent", "ssrc": g, "id": id}, M{})
				send(p)
				if early > 0 && i == early {
					closing()
					return
				}
				if i%5 == 0 {
					runtime.Gosched()
				}
			}
		}()
	}
	senders.Wait()
	if early == 0 {
		for i := 0; i < cap(window); i++ {
			window <- struct{}{}
		}
		r.Event(M{"ev": "alldone"}, M{})
		closing()
	}
	if _, _, err := s.AcceptStream(); err == nil {
		r.Event(M{"ev": "acceptedlate"}, M{})
	}
	wg.Wait()
	r.Event(M{"ev": "end"}, M{})
}

// runSessionMany has several readers of one stream, which note what they get on their own.
func runSessionMany(sc *Scenario, r *Rec) {
	n, readers := sc.Cfg.Int("n"), sc.Cfg.Int("readers")
	conn := newFakeConn()
	s := rtp.NewSession(logger.GetLogger(), conn)
	window := make(chan struct{}, sc.Cfg.Int("window"))
	var acc, wg sync.WaitGroup
	got := make([][]int, readers)
	whole := make([]bool, readers)
	acc.Add(1)
	go func() {
		defer acc.Done()
		for {
			st, _, err := s.AcceptStream()
			if err != nil {
				return
			}
			for k := range readers {
				wg.Add(1)
				go func() {
					defer wg.Done()
					whole[k] = true
					var h prtp.Header
					buf := make([]byte, 16)
					for {
						m, err := st.ReadRTP(&h, buf)
						if err != nil {
							return
						}
						id := int(h.Timestamp)
						got[k] = append(got[k], id)
						whole[k] = whole[k] && m == 3 && h.SequenceNumber == uint16(id) && buf[0] == byte(id) && buf[1] == byte(id>>8) && buf[2] == byte(id>>16)
						<-window
					}
				}()
			}
		}
	}()
	stuck := time.NewTimer(20 * time.Second)
	space := func() bool {
		select {
		case window <- struct{}{}:
			return true
		case <-stuck.C: // packets are missing
			stuck.Reset(0)
			return false
		}
	}
	for i := range n {
		if !space() {
			break
		}
		p := prtp.Packet{Header: prtp.Header{Version: 2, SSRC: 7, SequenceNumber: uint16(i), Timestamp: uint32(i)}, Payload: []byte{byte(i), byte(i >> 8), byte(i >> 16)}}
		b, err := p.Marshal()
		if err != nil {
			panic(err)
		}
		conn.inject(b)
		if i%7 == 0 {
			runtime.Gosched()
		}
	}
	for i := 0; i < cap(window) && space(); i++ {
	}
	_ = s.Close()
	acc.Wait()
	wg.Wait()
	all := make([]any, readers)
	for k := range got {
		all[k] = append([]int{}, got[k]...)
	}
	r.Event(M{"ev": "many", "n": n, "got": all}, M{"whole": !slices.Contains(whole, false)})
}
