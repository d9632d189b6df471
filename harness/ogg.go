package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"slices"

	"github.com/jfreymuth/oggvorbis"
	"github.com/jfreymuth/vorbis"

	"github.com/livekit/media-sdk/res"
	"github.com/livekit/media-sdk/res/testdata"
)

func init() { reg("ogg", false, runOgg) }

var oggFiles = [][]byte{res.EnterPinOgg, res.RoomJoinOgg, res.WrongPinOgg, testdata.TestAudioOgg}

// oggPackets returns the packets of an Ogg stream.
func oggPackets(data []byte) [][]byte {
	var out [][]byte
	var cur []byte
	for len(data) >= 27 {
		n := int(data[26])
		lens := data[27 : 27+n]
		body := data[27+n:]
		for _, l := range lens {
			cur = append(cur, body[:l]...)
			body = body[l:]
			if l < 255 {
				out = append(out, cur)
				cur = nil
			}
		}
		data = body
	}
	return out
}

func oggCRC(data []byte) uint32 {
	var crc uint32
	for _, b := range data {
		crc ^= uint32(b) << 24
		for range 8 {
			if crc&0x80000000 != 0 {
				crc = crc<<1 ^ 0x04c11db7
			} else {
				crc <<= 1
			}
		}
	}
	return crc
}

// oggPage makes one page of whole packets.
func oggPage(packets [][]byte, seq int, granule int64, flags byte) []byte {
	var lens, body []byte
	for _, p := range packets {
		n := len(p)
		for ; n >= 255; n -= 255 {
			lens = append(lens, 255)
		}
		lens = append(lens, byte(n))
		body = append(body, p...)
	}
	if len(lens) > 255 {
		panic("page too long")
	}
	h := []byte{'O', 'g', 'g', 'S', 0, flags}
	h = binary.LittleEndian.AppendUint64(h, uint64(granule))
	h = binary.LittleEndian.AppendUint32(h, 7)
	h = binary.LittleEndian.AppendUint32(h, uint32(seq))
	h = append(h, 0, 0, 0, 0, byte(len(lens)))
	h = append(append(h, lens...), body...)
	binary.LittleEndian.PutUint32(h[22:], oggCRC(h))
	return h
}

// twoChannels turns an audio packet of one channel into one of two, the first of which is silent.
func twoChannels(p []byte) []byte {
	bit := func(i int) byte { return p[i/8] >> (i % 8) & 1 }
	at := 2 // packet type, mode
	if bit(1) == 1 {
		at = 4 // windows of a long block
	}
	out := make([]byte, len(p)+1)
	for i := range 8 * len(p) {
		j := i
		if i >= at {
			j++
		}
		out[j/8] |= bit(i) << (j % 8)
	}
	return out
}

// loudPacket sets bits at the beginning of the floor of an audio packet of one channel.
func loudPacket(p []byte, mask int) []byte {
	p = slices.Clone(p)
	at := 2
	if p[0]&2 != 0 {
		at = 4
	}
	for i := range 17 {
		if j := at + i; j < 8*len(p) && mask>>i&1 == 1 {
			p[j/8] |= 1 << (j % 8)
		}
	}
	return p
}

// oggFile builds a file of packets [from, from+n) of the given one: at the given rate and number of channels, with at
// most the given number of packets on a page, and without the last cut samples.
func oggFile(c M) []byte {
	all := oggPackets(oggFiles[c.Int("file")])
	id := slices.Clone(all[0])
	channels := c.Int("channels")
	id[11] = byte(channels)
	binary.LittleEndian.PutUint32(id[12:], uint32(c.Int("rate")))
	audio := all[3:]
	from := min(c.Int("from"), len(audio))
	audio = slices.Clone(audio[from:min(from+c.Int("n"), len(audio))])
	if mask := c.Int("loud"); mask != 0 {
		for i, p := range audio {
			audio[i] = loudPacket(p, mask)
		}
	}
	if channels == 2 {
		for i, p := range audio {
			audio[i] = twoChannels(p)
		}
	}
	var dec vorbis.Decoder
	for _, h := range [][]byte{id, all[1], all[2]} {
		if err := dec.ReadHeader(h); err != nil {
			panic(err)
		}
	}
	out := oggPage([][]byte{id}, 0, 0, 2)
	out = append(out, oggPage([][]byte{all[1]}, 1, 0, 0)...)
	out = append(out, oggPage([][]byte{all[2]}, 2, 0, 0)...)
	pos, seq := int64(0), 3
	for i := 0; i < len(audio); {
		k := max(2, c.Int("page")) // the first page has two at least
		if i > 0 {
			k = c.Int("page")
		}
		k = min(k, len(audio)-i)
		for _, p := range audio[i : i+k] {
			x, err := dec.Decode(p)
			if err == nil {
				pos += int64(len(x) / channels)
			}
		}
		flags, g := byte(0), pos
		if i+k == len(audio) {
			flags = 4
			g = max(0, g-int64(c.Int("cut")))
		}
		out = append(out, oggPage(audio[i:i+k], seq, g, flags)...)
		seq++
		i += k
	}
	return out
}

func runOgg(sc *Scenario, r *Rec) {
	for _, op := range sc.Ops {
		data := oggFiles[op.Int("file")]
		if op["ev"] == "made" {
			data = oggFile(op)
		}
		if at := op.Int("spoil"); at > 0 {
			data = slices.Clone(data)
			data[at%len(data)] ^= 0x40
		}
		if op.Int("short") > 0 {
			data = data[:len(data)-min(len(data), op.Int("short"))]
		}
		was := slices.Clone(data)
		// what the file says, according to the library
		want, bad := []int{}, false
		rate, ch, peak := 0, 0, 0
		p := guard(func() {
			d, f, err := oggvorbis.ReadAll(bytes.NewReader(data))
			if err != nil {
				bad = true
				return
			}
			rate, ch = f.SampleRate, f.Channels
			for _, v := range d {
				want = append(want, int(float64(v)*0x7fff))
				peak = max(peak, abs(want[len(want)-1]))
			}
		})
		bad = bad || p != nil
		lens := []int{}
		far, total := 0, 0
		p = guard(func() {
			for _, f := range res.ReadOggAudioFile(data, op.Int("ask"), op.Int("askch")) {
				lens = append(lens, len(f))
				for _, v := range f {
					if total < len(want) {
						far = max(far, abs(int(v)-want[total]))
					}
					total++
				}
			}
		})
		o := M{"refused": p != nil, "bad": bad, "rate": rate, "channels": ch, "want": len(want), "lens": lens, "total": total, "far": far, "in": bytes.Equal(was, data), "peak": peak}
		if p != nil {
			o["why"] = fmt.Sprint(p)
		}
		r.Event(op, o)
	}
}
