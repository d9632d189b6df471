package main

import (
	"bytes"
	"fmt"
	"net"
	"slices"
	"sync"
	"testing/synctest"

	prtp "github.com/pion/rtp"

	"github.com/livekit/protocol/logger"

	"github.com/livekit/media-sdk/rtp"
	"github.com/livekit/media-sdk/srtp"
)

func init() {
	reg("srtp", true, runSRTP)
	reg("srtpprofiles", false, runSRTPProfiles)
}

func seqPacket(id, ssrc, seq, n int) *prtp.Packet {
	p := idPacket(id, ssrc, n)
	p.Header.SequenceNumber = uint16(seq)
	p.Header.Padding, p.PaddingSize = false, 0
	if id%8 == 5 {
		// two extensions with long headers
		p.Header.Extension, p.Header.ExtensionProfile, p.Header.Extensions = false, 0, nil
		_ = p.Header.SetExtension(3, bytes.Repeat([]byte{byte(id)}, 20))
		_ = p.Header.SetExtension(4, []byte{1})
	}
	return p
}

func fillKey(n, seed int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(seed*31 + i*7 + 1)
	}
	return b
}

func openSRTP(suite string, conn net.Conn, local, remote int, mki string) rtp.Session {
	p, err := srtp.ProtectionProfile(suite).Parse()
	if err != nil {
		panic(err)
	}
	kl, _ := p.KeyLen()
	sl, _ := p.SaltLen()
	c := &srtp.Config{Profile: p, Keys: srtp.SessionKeys{
		LocalMasterKey: fillKey(kl, local), LocalMasterSalt: fillKey(sl, local+100),
		RemoteMasterKey: fillKey(kl, remote), RemoteMasterSalt: fillKey(sl, remote+100),
	}}
	if mki != "" {
		c.LocalOptions = append(c.LocalOptions, srtp.MasterKeyIndicator([]byte(mki)))
		c.RemoteOptions = append(c.RemoteOptions, srtp.MasterKeyIndicator([]byte(mki)))
	}
	s, err := srtp.NewSession(logger.GetLogger(), conn, c)
	if err != nil {
		panic(err)
	}
	return s
}

func runSRTP(sc *Scenario, r *Rec) {
	suite, other := sc.Cfg.Str("suite"), sc.Cfg.Str("other")
	if other == "" {
		other = suite
	}
	conns := []*fakeConn{newFakeConn(), newFakeConn(), newFakeConn()}
	// 0 sends with key 1, 1 with key 2; the receiver knows key 1
	sess := []rtp.Session{openSRTP(suite, conns[0], 1, 3, sc.Cfg.Str("mki")), openSRTP(suite, conns[1], 2, 3, sc.Cfg.Str("mki"))}
	recv := openSRTP(other, conns[2], 3, 1, sc.Cfg.Str("omki"))
	var mu sync.Mutex
	got := []any{}
	type held struct {
		h   prtp.Header
		b   []byte
		raw []byte
	}
	var kept []held
	ended, readers := 0, 0
	match := func(h *prtp.Header, b []byte) int {
		for id := range 64 {
			w := seqPacket(id, int(h.SSRC), int(h.SequenceNumber), len(b))
			a, err := w.Marshal()
			if err != nil {
				panic(err)
			}
			c, err := (&prtp.Packet{Header: *h, Payload: b}).Marshal()
			if err == nil && bytes.Equal(a, c) {
				return id
			}
		}
		return -1
	}
	reader := func(s rtp.ReadStream, ssrc uint32) {
		for {
			var h prtp.Header
			buf := make([]byte, 1500)
			n, err := s.ReadRTP(&h, buf)
			mu.Lock()
			if err != nil {
				ended++
				mu.Unlock()
				return
			}
			id := match(&h, buf[:n])
			if h.SSRC != ssrc {
				id = -2
			}
			got = append(got, []any{int(h.SSRC), id, int(h.SequenceNumber), n})
			raw, _ := (&prtp.Packet{Header: h, Payload: buf[:n]}).Marshal()
			kept = append(kept, held{h, buf[:n], raw})
			mu.Unlock()
		}
	}
	if !sc.Cfg.Bool("lazy") {
		go func() {
			for {
				s, ssrc, err := recv.AcceptStream()
				if err != nil {
					mu.Lock()
					ended++
					mu.Unlock()
					return
				}
				mu.Lock()
				readers++
				mu.Unlock()
				go reader(s, ssrc)
			}
		}()
	}
	var ws []rtp.WriteStream
	for _, s := range sess {
		w, err := s.OpenWriteStream()
		if err != nil {
			panic(err)
		}
		ws = append(ws, w)
	}
	wire := [][]byte{}
	for _, op := range sc.Ops {
		o := M{}
		switch op["ev"] {
		case "send":
			k := op.Int("who")
			p := seqPacket(op.Int("id"), op.Int("ssrc"), op.Int("seq"), op.Int("len"))
			b := slices.Clone(p.Payload)
			_, err := ws[k].WriteRTP(&p.Header, b)
			o["err"] = err != nil
			o["in"] = bytes.Equal(b, p.Payload)
			out := conns[k].out
			conns[k].out = nil
			for _, d := range out {
				wire = append(wire, d)
				// what is sent does not show the payload
				if len(p.Payload) > 8 && bytes.Contains(d, p.Payload) {
					o["in"] = false
				}
			}
			o["sent"] = len(out)
		case "net":
			d := slices.Clone(wire[op.Int("k")])
			if a := op.Int("alter"); a >= 0 {
				a %= 8 * len(d)
				d[a/8] ^= 1 << (a % 8)
			}
			if c := op.Int("cut"); c > 0 {
				d = d[:max(0, len(d)-c)]
			} else if c < 0 {
				d = append(d, make([]byte, -c)...)
			}
			conns[2].inject(d)
		case "close":
			o["err"] = recv.Close() != nil
		default:
			panic(fmt.Sprint("unknown op ", op))
		}
		synctest.Wait()
		mu.Lock()
		o["got"] = got
		got = []any{}
		hold := true
		for _, h := range kept {
			raw, _ := (&prtp.Packet{Header: h.h, Payload: h.b}).Marshal()
			hold = hold && bytes.Equal(raw, h.raw)
		}
		o["hold"], o["ended"], o["readers"] = hold, ended, readers
		mu.Unlock()
		r.Event(op, o)
	}
	_ = recv.Close()
	for _, s := range sess {
		_ = s.Close()
	}
	synctest.Wait()
}

func runSRTPProfiles(sc *Scenario, r *Rec) {
	for _, op := range sc.Ops {
		o := M{}
		switch op["ev"] {
		case "defaults":
			a, err := srtp.DefaultProfiles()
			if err != nil {
				panic(err)
			}
			b, err := srtp.DefaultProfiles()
			if err != nil {
				panic(err)
			}
			list, fresh := []any{}, true
			for _, p := range a {
				list = append(list, []any{p.Index, string(p.Profile), len(p.Key), len(p.Salt), len(p.MKI)})
			}
			// no six bytes of any key or salt show up anywhere else in them
			seen := map[string]bool{}
			for _, p := range append(slices.Clone(a), b...) {
				for _, x := range [][]byte{p.Key, p.Salt} {
					for i := 0; i+6 <= len(x); i++ {
						fresh = fresh && !seen[string(x[i:i+6])]
						seen[string(x[i:i+6])] = true
					}
				}
			}
			// and changing one does not change another
			for i, p := range append(slices.Clone(a), b...) {
				for _, x := range [][]byte{p.Key, p.Salt} {
					for k := range x[:cap(x)] {
						x[:cap(x)][k] = byte(i + 1)
					}
				}
				for j, q := range append(slices.Clone(a), b...)[i+1:] {
					fresh = fresh && !bytes.Equal(q.Key, bytes.Repeat([]byte{byte(i + 1)}, len(q.Key))) && j >= 0
				}
				x := bytes.Clone(p.Salt)
				clear(p.Key)
				fresh = fresh && bytes.Equal(x, p.Salt)
			}
			o["list"], o["fresh"] = list, fresh
		case "parse":
			p, err := srtp.ProtectionProfile(op.Str("name")).Parse()
			o["err"] = err != nil
			if err == nil {
				kl, _ := p.KeyLen()
				sl, _ := p.SaltLen()
				tl, _ := p.AuthTagRTPLen()
				o["lens"] = []int{kl, sl, tl}
			}
		}
		r.Event(op, o)
	}
}
