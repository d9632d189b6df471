package main

import (
	"encoding/base64"
	"encoding/binary"
	"errors"
	"net/netip"
	"reflect"
	"slices"
	"sort"
	"strconv"
	"strings"

	prtp "github.com/pion/rtp"
	psdp "github.com/pion/sdp/v3"
	psrtp "github.com/pion/srtp/v3"

	msdk "github.com/livekit/media-sdk"
	_ "github.com/livekit/media-sdk/dtmf"
	_ "github.com/livekit/media-sdk/g711"
	_ "github.com/livekit/media-sdk/g722"
	"github.com/livekit/media-sdk/rtp"
	"github.com/livekit/media-sdk/sdp"
	"github.com/livekit/media-sdk/srtp"
)

func testCodec(name string, prio int, static bool, typ byte) {
	msdk.RegisterCodec(rtp.NewAudioCodec[byteFrame](msdk.CodecInfo{
		SDPName: name, SampleRate: 16000, RTPClockRate: 16000, RTPDefType: typ, RTPIsStatic: static, Priority: prio, Disabled: true,
	}, nil, nil))
}

func init() {
	testCodec("VFast/8000", 5, false, 0)
	testCodec("VPair/16000/2", -7, false, 0)
	testCodec("VStat/8000", -15, true, 77)
	reg("sdp", false, runSDP)
}

var sdpEnc = map[string]sdp.Encryption{"none": sdp.EncryptionNone, "allow": sdp.EncryptionAllow, "require": sdp.EncryptionRequire}

func sdpErr(err error) string {
	switch {
	case err == nil:
		return ""
	case errors.Is(err, sdp.ErrNoCommonMedia):
		return "media"
	case errors.Is(err, sdp.ErrNoCommonCrypto):
		return "crypto"
	}
	return "other"
}

func codecName(c msdk.Codec) string {
	if c == nil {
		return ""
	}
	return c.Info().SDPName
}

// usable codecs as distinct [type, name]
func sdpCodecs(cs []sdp.CodecInfo) []any {
	seen := map[string]bool{}
	out := []any{}
	for _, c := range cs {
		if c.Codec == nil {
			continue
		}
		k := strconv.Itoa(int(c.Type)) + c.Codec.Info().SDPName
		if !seen[k] {
			seen[k] = true
			out = append(out, []any{int(c.Type), c.Codec.Info().SDPName})
		}
	}
	return out
}

func sdpSel(d sdp.MediaDesc, answer bool) []any {
	a, err := sdp.SelectAudio(d, answer)
	if err != nil {
		return []any{}
	}
	return []any{int(a.Type), codecName(a.Codec), int(a.DTMFType)}
}

func sdpCrypto(ps []srtp.Profile) []any {
	out := []any{}
	for _, p := range ps {
		var lt [8]byte
		binary.BigEndian.PutUint64(lt[:], p.Lifetime)
		out = append(out, []any{p.Index, string(p.Profile), ints(p.Key), ints(p.Salt), ints(p.MKI), ints(lt[:])})
	}
	return out
}

// audioSection splits the text of an SDP without the help of the code under test.
func audioSection(text string) (proto string, port int, formats []string, attrs [][2]string, conns []string) {
	in := false
	formats, attrs, conns = []string{}, [][2]string{}, []string{}
	for _, l := range strings.Split(strings.ReplaceAll(text, "\r", ""), "\n") {
		if strings.HasPrefix(l, "m=") {
			f := strings.Fields(l[2:])
			in = f[0] == "audio"
			if in {
				port, _ = strconv.Atoi(f[1])
				proto = f[2]
				formats = append(formats, f[3:]...)
			}
		} else if in && strings.HasPrefix(l, "a=") {
			k, v, _ := strings.Cut(l[2:], ":")
			attrs = append(attrs, [2]string{k, v})
		} else if strings.HasPrefix(l, "c=") {
			conns = append(conns, l[2:])
		} else if strings.HasPrefix(l, "o=") {
			f := strings.Fields(l[2:])
			conns = append(conns, strings.Join(f[3:], " "))
		}
	}
	return
}

// textMedia describes the audio section; keys of crypto attributes are left out.
func textMedia(text string) M {
	proto, port, formats, attrs, conns := audioSection(text)
	maps, fmtp, cr, mode := [][]string{}, [][]string{}, [][]string{}, []string{}
	for _, a := range attrs {
		switch a[0] {
		case "rtpmap":
			maps = append(maps, strings.SplitN(a[1], " ", 2))
		case "fmtp":
			fmtp = append(fmtp, strings.SplitN(a[1], " ", 2))
		case "crypto":
			cr = append(cr, strings.SplitN(a[1], " ", 3)[:2])
		case "ptime":
			mode = append(mode, "ptime "+a[1])
		case "sendrecv", "sendonly", "recvonly", "inactive":
			mode = append(mode, a[0])
		}
	}
	slices.Sort(mode)
	return M{"mode": mode, "proto": proto, "port": port, "formats": formats, "maps": maps, "fmtp": fmtp, "crypto": cr, "conns": conns}
}

// textKeys returns the keys and salts of the crypto attributes by suite.
func textKeys(text string) map[string][]byte {
	out := map[string][]byte{}
	_, _, _, attrs, _ := audioSection(text)
	for _, a := range attrs {
		if a[0] == "crypto" {
			f := strings.SplitN(a[1], " ", 3)
			s := strings.TrimRight(strings.TrimPrefix(f[2], "inline:"), "=")
			b, err := base64.RawStdEncoding.DecodeString(s)
			if err == nil {
				if _, ok := out[f[1]]; !ok {
					out[f[1]] = b
				}
			}
		}
	}
	return out
}

// textMKI returns the key identifier of the first crypto attribute for the suite.
func textMKI(text, suite string) []byte {
	_, _, _, attrs, _ := audioSection(text)
	for _, a := range attrs {
		f := strings.Fields(a[1])
		if a[0] != "crypto" || len(f) != 3 || f[1] != suite {
			continue
		}
		parts := strings.Split(f[2], "|")
		v, l, ok := strings.Cut(parts[len(parts)-1], ":")
		if len(parts) == 1 || !ok {
			return nil
		}
		x, _ := strconv.ParseUint(v, 10, 64)
		n, _ := strconv.Atoi(l)
		b := make([]byte, 8)
		binary.BigEndian.PutUint64(b, x)
		return b[8-n:]
	}
	return nil
}

func suiteOf(p psrtp.ProtectionProfile) string {
	for _, s := range []srtp.ProtectionProfile{"AES_CM_128_HMAC_SHA1_80", "AES_CM_128_HMAC_SHA1_32", "AES_256_CM_HMAC_SHA1_80", "AES_256_CM_HMAC_SHA1_32"} {
		if q, err := s.Parse(); err == nil && q == p {
			return string(s)
		}
	}
	return "?"
}

// carries tells whether a packet protected with (key, salt, opts) can be read with (key2, salt2, opts2).
func carries(p psrtp.ProtectionProfile, key, salt []byte, o []psrtp.ContextOption, key2, salt2 []byte, o2 []psrtp.ContextOption) bool {
	a, err := psrtp.CreateContext(key, salt, p, o...)
	if err != nil {
		return false
	}
	b, err := psrtp.CreateContext(key2, salt2, p, o2...)
	if err != nil {
		return false
	}
	pkt := prtp.Packet{Header: prtp.Header{Version: 2, SequenceNumber: 7, SSRC: 9, Timestamp: 3}, Payload: []byte{1, 2, 3}}
	raw, _ := pkt.Marshal()
	enc, err := a.EncryptRTP(nil, raw, nil)
	if err != nil {
		return false
	}
	dec, err := b.DecryptRTP(nil, enc, nil)
	return err == nil && string(dec) == string(raw)
}

func mkiOpt(mki []byte) []psrtp.ContextOption {
	if len(mki) == 0 {
		return nil
	}
	return []psrtp.ContextOption{psrtp.MasterKeyIndicator(mki)}
}

// sdpDest says where the audio of a text is to be sent: none when the text has no such place, unread when it is not an SDP text.
func sdpDest(text string) any {
	var d psdp.SessionDescription
	if err := d.Unmarshal([]byte(text)); err != nil {
		return "unread"
	}
	a := sdp.GetAudio(&d)
	if _, err := sdp.GetAudioDest(nil, a); err == nil {
		return "no error without a session"
	}
	at, err := sdp.GetAudioDest(&d, a)
	if err != nil {
		return "none"
	}
	return at.Addr().String()
}

func addrOf(a netip.AddrPort) []any {
	return []any{a.Addr().String(), int(a.Port())}
}

func audioOf(a sdp.AudioConfig) []any {
	return []any{int(a.Type), codecName(a.Codec), int(a.DTMFType)}
}

// confObs describes what a side of a call will use; lkey is the local key and salt it announced.
func confObs(o M, c *sdp.MediaConfig, lkeys map[string][]byte) {
	o["audio"] = audioOf(c.Audio)
	o["local"], o["remote"] = addrOf(c.Local), addrOf(c.Remote)
	if c.Crypto == nil {
		o["suite"], o["rkey"], o["rsalt"], o["lkey"] = "", []int{}, []int{}, true
		return
	}
	k := c.Crypto.Keys
	su := suiteOf(c.Crypto.Profile)
	o["suite"] = su
	o["rkey"], o["rsalt"] = ints(k.RemoteMasterKey), ints(k.RemoteMasterSalt)
	o["lkey"] = string(lkeys[su]) == string(k.LocalMasterKey)+string(k.LocalMasterSalt) && len(k.LocalMasterSalt) > 0
}

func sameDesc(a, b sdp.MediaDesc) bool {
	j := func(d sdp.MediaDesc) string {
		var x []string
		for _, c := range sdpCodecs(d.Codecs) {
			v := c.([]any)
			if v[1] == "telephone-event/8000" {
				continue // compared as the type for events
			}
			x = append(x, strconv.Itoa(v[0].(int))+v[1].(string))
		}
		sort.Strings(x)
		s := strings.Join(x, ";") + "|" + strconv.Itoa(int(d.DTMFType))
		for _, p := range d.CryptoProfiles {
			s += "|" + strconv.Itoa(p.Index) + string(p.Profile) + string(p.Key) + "/" + string(p.Salt)
		}
		return s
	}
	return j(a) == j(b)
}

// setEnabled enables the codecs of on, and no other of names.
func setEnabled(names, on []string) {
	m := map[string]bool{}
	for _, n := range names {
		m[n] = false
	}
	for _, n := range on {
		m[n] = true
	}
	msdk.CodecsSetEnabled(m)
}

func runSDP(sc *Scenario, r *Rec) {
	names := sc.Cfg.Strs("codecs")
	setEnabled := func(on []string) { setEnabled(names, on) }
	for _, op := range sc.Ops {
		o := M{}
		if op.Has("en") {
			setEnabled(op.Strs("en"))
		}
		p := guard(func() {
			switch op["ev"] {
			case "offer":
				off, err := sdp.NewOffer(netip.MustParseAddr(op.Str("ip")), op.Int("port"), sdpEnc[op.Str("enc")])
				o["err"] = sdpErr(err)
				if err != nil {
					return
				}
				raw, err := off.SDP.Marshal()
				if err != nil {
					o["err"] = "marshal"
					return
				}
				o["codecs"] = sdpCodecs(off.Codecs)
				o["dtmf"] = int(off.DTMFType)
				o["addr"] = addrOf(off.Addr)
				pr := [][]any{}
				for _, p := range off.CryptoProfiles {
					pr = append(pr, []any{p.Index, string(p.Profile), len(p.Key), len(p.Salt)})
				}
				o["profiles"] = pr
				o["text"] = textMedia(string(raw))
				back, err := sdp.ParseOffer(raw)
				o["back"] = err == nil && sameDesc(back.MediaDesc, off.MediaDesc) && back.Addr == off.Addr
			case "parse":
				o["dest"] = sdpDest(op.Str("text"))
				d, err := sdp.Parse([]byte(op.Str("text")))
				o["err"] = err != nil
				if err != nil {
					return
				}
				o["codecs"] = sdpCodecs(d.Codecs)
				o["dtmf"] = int(d.DTMFType)
				o["sel"] = sdpSel(d.MediaDesc, false)
				o["selans"] = sdpSel(d.MediaDesc, true)
				o["addr"] = addrOf(d.Addr)
				o["crypto"] = sdpCrypto(d.CryptoProfiles)
			case "fuzz":
				d, err := sdp.Parse([]byte(op.Str("text")))
				o["ok"] = err == nil
				if err == nil {
					o["port"] = int(d.Addr.Port())
					o["valid"] = d.Addr.Addr().IsValid()
					// what was accepted can be answered
					off := sdp.Offer(*d)
					ans, _, err := off.Answer(netip.MustParseAddr("1.2.3.4"), 4000, sdp.EncryptionAllow)
					o["answer"] = sdpErr(err)
					if err == nil {
						raw, err := ans.SDP.Marshal()
						o["reparse"] = err == nil
						if err == nil {
							_, err = sdp.ParseAnswer(raw)
							o["reparse"] = err == nil
						}
					}
				}
			case "answer":
				off, err := sdp.ParseOffer([]byte(op.Str("text")))
				if err != nil {
					o["err"] = "parse"
					return
				}
				ans, conf, err := off.Answer(netip.MustParseAddr(op.Str("ip")), op.Int("port"), sdpEnc[op.Str("enc")])
				o["err"] = sdpErr(err)
				if err != nil {
					return
				}
				raw, err := ans.SDP.Marshal()
				if err != nil {
					o["err"] = "marshal"
					return
				}
				o["text"] = textMedia(string(raw))
				o["line"] = o["text"].(M)["crypto"]
				confObs(o, conf, textKeys(string(raw)))
				o["desc"] = []any{sdpCodecs(ans.Codecs), int(ans.DTMFType), addrOf(ans.Addr)}
				o["works"] = true
				if c := conf.Crypto; c != nil {
					// the peer reads and writes with its own key identifier
					mki := textMKI(op.Str("text"), suiteOf(c.Profile))
					k := c.Keys
					o["works"] = carries(c.Profile, k.LocalMasterKey, k.LocalMasterSalt, c.LocalOptions, k.LocalMasterKey, k.LocalMasterSalt, nil) &&
						carries(c.Profile, k.RemoteMasterKey, k.RemoteMasterSalt, mkiOpt(mki), k.RemoteMasterKey, k.RemoteMasterSalt, c.RemoteOptions)
				}
			case "apply":
				off, err := sdp.NewOffer(netip.MustParseAddr(op.Str("ip")), op.Int("port"), sdpEnc[op.Str("encoff")])
				if err != nil {
					o["err"] = "offer"
					return
				}
				raw, _ := off.SDP.Marshal()
				ans, err := sdp.ParseAnswer([]byte(op.Str("text")))
				if err != nil {
					o["err"] = "parse"
					return
				}
				conf, err := ans.Apply(off, sdpEnc[op.Str("enc")])
				o["err"] = sdpErr(err)
				if err != nil {
					return
				}
				confObs(o, conf, textKeys(string(raw)))
				o["works"] = true
				if c := conf.Crypto; c != nil {
					mki := textMKI(op.Str("text"), suiteOf(c.Profile))
					k := c.Keys
					o["works"] = carries(c.Profile, k.LocalMasterKey, k.LocalMasterSalt, c.LocalOptions, k.LocalMasterKey, k.LocalMasterSalt, nil) &&
						carries(c.Profile, k.RemoteMasterKey, k.RemoteMasterSalt, mkiOpt(mki), k.RemoteMasterKey, k.RemoteMasterSalt, c.RemoteOptions)
				}
			case "nego":
				// both sides are ours, with codecs of their own
				setEnabled(op.Strs("ena"))
				off, err := sdp.NewOffer(netip.MustParseAddr(op.Str("ipa")), op.Int("porta"), sdpEnc[op.Str("enca")])
				if err != nil {
					o["err"] = "offer"
					return
				}
				raw, _ := off.SDP.Marshal()
				setEnabled(op.Strs("enb"))
				off2, err := sdp.ParseOffer(raw)
				if err != nil {
					o["err"] = "parse"
					return
				}
				ans, cb, err := off2.Answer(netip.MustParseAddr(op.Str("ipb")), op.Int("portb"), sdpEnc[op.Str("encb")])
				o["err"] = sdpErr(err)
				if err != nil {
					return
				}
				raw2, err := ans.SDP.Marshal()
				if err != nil {
					o["err"] = "marshal"
					return
				}
				setEnabled(op.Strs("ena"))
				ans2, err := sdp.ParseAnswer(raw2)
				if err != nil {
					o["err"] = "parseanswer"
					return
				}
				o["back"] = sameDesc(ans.MediaDesc, ans2.MediaDesc) && ans2.Addr == ans.Addr
				ca, err := ans2.Apply(off, sdpEnc[op.Str("enca")])
				o["erra"] = sdpErr(err)
				o["audiob"], o["localb"], o["remoteb"] = audioOf(cb.Audio), addrOf(cb.Local), addrOf(cb.Remote)
				o["suiteb"] = ""
				if cb.Crypto != nil {
					o["suiteb"] = suiteOf(cb.Crypto.Profile)
				}
				if err != nil {
					return
				}
				o["audioa"], o["locala"], o["remotea"] = audioOf(ca.Audio), addrOf(ca.Local), addrOf(ca.Remote)
				if direct, err := ans.Apply(off, sdpEnc[op.Str("enca")]); err != nil || !reflect.DeepEqual(direct.Crypto, ca.Crypto) {
					o["back"] = false // the answer itself is worth as much as its text
				}
				o["suitea"], o["works"] = "", true
				if ca.Crypto != nil {
					o["suitea"] = suiteOf(ca.Crypto.Profile)
				}
				if ca.Crypto != nil && cb.Crypto != nil {
					x, y := ca.Crypto, cb.Crypto
					o["works"] = carries(x.Profile, x.Keys.LocalMasterKey, x.Keys.LocalMasterSalt, x.LocalOptions, y.Keys.RemoteMasterKey, y.Keys.RemoteMasterSalt, y.RemoteOptions) &&
						carries(x.Profile, y.Keys.LocalMasterKey, y.Keys.LocalMasterSalt, y.LocalOptions, x.Keys.RemoteMasterKey, x.Keys.RemoteMasterSalt, x.RemoteOptions)
				}
			case "select":
				// the choice itself: lists of [suite, tag, number of the key, identifier]
				list := func(k string) (out []srtp.Profile) {
					for _, v := range op[k].([]any) {
						f := v.([]any)
						n := int(f[2].(float64))
						pr := srtp.Profile{Profile: srtp.ProtectionProfile(f[0].(string)), Index: int(f[1].(float64)), Key: make([]byte, 16), Salt: make([]byte, 14)}
						if strings.HasPrefix(f[0].(string), "AES_256") {
							pr.Key = make([]byte, 32)
						}
						for i := range pr.Key {
							pr.Key[i] = byte(n + i)
						}
						for i := range pr.Salt {
							pr.Salt[i] = byte(n - i)
						}
						for _, b := range f[3].([]any) {
							pr.MKI = append(pr.MKI, byte(b.(float64)))
						}
						out = append(out, pr)
					}
					return out
				}
				off, ans := list("off"), list("ans")
				c, prof, err := sdp.SelectCrypto(off, ans, op.Bool("swap"))
				o["err"] = sdpErr(err)
				o["quiet"] = reflect.DeepEqual(off, list("off")) && reflect.DeepEqual(ans, list("ans"))
				if o["some"] = c != nil; c == nil {
					return
				}
				// the identifiers in use, found by what can be read
				ids := func(opts []psrtp.ContextOption) any {
					for _, q := range append(append([]srtp.Profile{{}}, off...), ans...) {
						k := c.Keys
						if carries(c.Profile, k.LocalMasterKey, k.LocalMasterSalt, opts, k.LocalMasterKey, k.LocalMasterSalt, mkiOpt(q.MKI)) {
							return ints(q.MKI)
						}
					}
					return "none that fits"
				}
				num := func(key, salt []byte) any {
					for i := range key {
						if key[i] != byte(int(key[0])+i) {
							return "mixed"
						}
					}
					for i := range salt {
						if salt[i] != byte(int(key[0])-i) {
							return "mixed"
						}
					}
					return int(key[0])
				}
				o["picked"] = []any{suiteOf(c.Profile), num(c.Keys.LocalMasterKey, c.Keys.LocalMasterSalt), num(c.Keys.RemoteMasterKey, c.Keys.RemoteMasterSalt),
					ids(c.LocalOptions), ids(c.RemoteOptions)}
				o["prof"] = []any{string(prof.Profile), prof.Index, num(prof.Key, prof.Salt), ints(prof.MKI)}
			case "lookup":
				o["byname"] = codecName(sdp.CodecByName(op.Str("name")))
				o["bytype"] = codecName(rtp.CodecByPayloadType(byte(op.Int("t"))))
			}
		})
		if p != nil {
			o["panic"] = true
		}
		delete(op, "text")
		r.Event(op, o)
	}
	m := map[string]bool{}
	for _, n := range names {
		m[n] = !strings.HasPrefix(n, "V")
	}
	msdk.CodecsSetEnabled(m)
}
