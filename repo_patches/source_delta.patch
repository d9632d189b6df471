From 9de2d2bbd79f5e45589af2489b40f93cbee930ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:49 +0000
Subject: [PATCH 01/34] fix: drop duplicates of packets still held in the
 jitter buffer

---
 jitter/buffer.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/jitter/buffer.go b/jitter/buffer.go
index ee0de74..00fcdde 100644
--- a/jitter/buffer.go
+++ b/jitter/buffer.go
@@ -212,6 +212,19 @@ func (b *Buffer) push(pkt *rtp.Packet, receivedAt time.Time) {
 		return
 	}
 
+	for c := b.tail; c != nil; c = c.prev {
+		if c.extPacket.SequenceNumber == pkt.SequenceNumber {
+			// duplicate of a packet that is still buffered
+			if !pkt.Padding {
+				b.stats.PacketsDropped++
+				if b.onPacketLoss != nil {
+					b.onPacketLoss(b.stats.PacketsLost, b.stats.PacketsDropped)
+				}
+			}
+			return
+		}
+	}
+
 	p := b.newPacket(pkt, receivedAt)
 
 	discont := !b.initialized || !withinRange(pkt.SequenceNumber, b.prevSN)
-- 
2.43.0


From 1d5ab768b8b4a86cc997c5d25dcbaa0116b5980c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:58 +0000
Subject: [PATCH 02/34] fix: drop incomplete jitter buffer packets exactly at
 their deadline

---
 jitter/buffer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jitter/buffer.go b/jitter/buffer.go
index 00fcdde..3a8266c 100644
--- a/jitter/buffer.go
+++ b/jitter/buffer.go
@@ -337,11 +337,11 @@ func (b *Buffer) dropIncompleteExpired(expiry time.Time) {
 }
 
 // dropIncomplete drops incomplete packets at the head of the buffer.
-// If force is false, only drops packets that arrived before expiry.
+// If force is false, only drops packets that arrived at or before expiry.
 func (b *Buffer) dropIncomplete(expiry time.Time, force bool) bool {
 	dropped := false
 
-	for b.head != nil && !b.head.isComplete() && (force || b.head.extPacket.ReceivedAt.Before(expiry)) {
+	for b.head != nil && !b.head.isComplete() && (force || !expiry.Before(b.head.extPacket.ReceivedAt)) {
 		if b.initialized && !b.head.discont {
 			b.stats.PacketsLost += uint64(b.head.extPacket.SequenceNumber - b.prevSN - 1)
 		}
-- 
2.43.0


From a06faaa287082b2595a4b10a5f6c9af74270ecea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:07 +0000
Subject: [PATCH 03/34] fix: accept payload type 255 in CodecByPayloadType

---
 rtp/codecs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rtp/codecs.go b/rtp/codecs.go
index 7b0db70..e0adf85 100644
--- a/rtp/codecs.go
+++ b/rtp/codecs.go
@@ -28,7 +28,7 @@ var (
 )
 
 var (
-	codecByType [0xff]media.Codec
+	codecByType [0x100]media.Codec
 )
 
 func init() {
-- 
2.43.0


From 2c9fb1f7bb71197bc99e4dc2d6a94bc67fa13e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:16 +0000
Subject: [PATCH 04/34] fix: reject too short SDES keys instead of panicking

---
 sdp/offer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sdp/offer.go b/sdp/offer.go
index 3bb1809..2312f54 100644
--- a/sdp/offer.go
+++ b/sdp/offer.go
@@ -498,6 +498,9 @@ func parseSRTPProfile(val string) (*srtp.Profile, error) {
 		if err != nil {
 			return nil, err
 		}
+		if len(keys) < keyLen {
+			return nil, fmt.Errorf("crypto key is too short: expected at least %d bytes, got %d", keyLen, len(keys))
+		}
 		keys, salt = keys[:keyLen], keys[keyLen:]
 	}
 	return &srtp.Profile{
-- 
2.43.0


From 85dbce7435bfa81a34478cd214d5d75b59787b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:25 +0000
Subject: [PATCH 05/34] fix: accept 8 byte MKI values

---
 sdp/offer.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/sdp/offer.go b/sdp/offer.go
index 2312f54..f144543 100644
--- a/sdp/offer.go
+++ b/sdp/offer.go
@@ -434,8 +434,7 @@ func parseMKI(s string) ([]byte, error) {
 	if length == 0 || length > 8 {
 		return nil, fmt.Errorf("supported MKI length between 1 and 8 bytes, got %d", length)
 	}
-	maxValue := uint64(1) << (length * 8)
-	if value >= maxValue {
+	if length < 8 && value >= uint64(1)<<(length*8) {
 		return nil, fmt.Errorf("value %d is too large for %d bytes", value, length)
 	}
 
-- 
2.43.0


From 32bc5e46ad4ed918b95559c3e02c7e1c3772cdfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:34 +0000
Subject: [PATCH 06/34] fix: ignore SDP payload types that do not fit in a byte

---
 sdp/offer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sdp/offer.go b/sdp/offer.go
index f144543..5fd6ba9 100644
--- a/sdp/offer.go
+++ b/sdp/offer.go
@@ -521,7 +521,7 @@ func ParseMedia(d *sdp.MediaDescription) (*MediaDesc, error) {
 			if len(sub) != 2 {
 				continue
 			}
-			typ, err := strconv.Atoi(sub[0])
+			typ, err := strconv.ParseUint(sub[0], 10, 8)
 			if err != nil {
 				continue
 			}
@@ -546,7 +546,7 @@ func ParseMedia(d *sdp.MediaDescription) (*MediaDesc, error) {
 		}
 	}
 	for _, f := range d.MediaName.Formats {
-		typ, err := strconv.Atoi(f)
+		typ, err := strconv.ParseUint(f, 10, 8)
 		if err != nil {
 			continue
 		}
-- 
2.43.0


From fc7f1e62ac800612d1a70f342fd777299b955cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:48 +0000
Subject: [PATCH 07/34] fix: avoid int16 overflow in StereoToMono

---
 pcm.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pcm.go b/pcm.go
index 7e374ab..635862f 100644
--- a/pcm.go
+++ b/pcm.go
@@ -228,6 +228,6 @@ func StereoToMono(dst, src PCM16Sample) {
 	}
 	// average stereo samples to mono
 	for i := range n {
-		dst[i] = (src[i*2+0] + src[i*2+1]) / 2
+		dst[i] = int16((int32(src[i*2+0]) + int32(src[i*2+1])) / 2)
 	}
 }
-- 
2.43.0


From 38fefbd3d827fe1d954a5624d0483ae60ca133fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:57 +0000
Subject: [PATCH 08/34] fix: allow nil events stream in dtmf.Write

---
 dtmf/dtmf.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dtmf/dtmf.go b/dtmf/dtmf.go
index b9d0e86..2b7849e 100644
--- a/dtmf/dtmf.go
+++ b/dtmf/dtmf.go
@@ -223,7 +223,9 @@ func Write(ctx context.Context, audio media.Writer[media.PCM16Sample], events *r
 		}
 	}
 
-	events.ResetTimestamp(startTs)
+	if events != nil {
+		events.ResetTimestamp(startTs)
+	}
 
 	for {
 		select {
-- 
2.43.0


From bed2ff4574f20dec811a2d2d6e3e00b3da1139a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:05 +0000
Subject: [PATCH 09/34] fix: do not block mixer on output channel after Stop

---
 mixer/mixer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mixer/mixer.go b/mixer/mixer.go
index 9ed82e8..4e73587 100644
--- a/mixer/mixer.go
+++ b/mixer/mixer.go
@@ -226,7 +226,11 @@ func (m *Mixer) mixOnce() {
 			m.stats.BlockedMixes.Add(1)
 			// Blocking, mimics behavior witohut channel
 			// TODO: Consider, carefully, dropping when blocked
-			m.outchan <- out
+			select {
+			case m.outchan <- out:
+			case <-m.stopped.Watch():
+				// writer is gone, nobody will read this frame
+			}
 		}
 	}
 }
-- 
2.43.0


From be16ecf7842a1bb3d20b25a9c744f2ff4005d055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:08 +0000
Subject: [PATCH 10/34] fix: do not lose, reorder or corrupt RTP packets in
 zero-copy reads

---
 rtp/session.go | 48 +++++++++++++++++++++---------------------------
 1 file changed, 21 insertions(+), 27 deletions(-)

diff --git a/rtp/session.go b/rtp/session.go
index 9cfcbee..ed9511e 100644
--- a/rtp/session.go
+++ b/rtp/session.go
@@ -106,7 +106,7 @@ func (s *session) AcceptStream() (ReadStream, uint32, error) {
 			r = &readStream{
 				ssrc:   p.SSRC,
 				closed: closed,
-				copied: make(chan int),
+				copied: make(chan int, 1),
 				recv:   make(chan *rtp.Packet, 10),
 			}
 			s.bySSRC[p.SSRC] = r
@@ -168,21 +168,17 @@ type readStream struct {
 }
 
 func (r *readStream) write(p *rtp.Packet) {
-	if enableZeroCopy {
-		r.mu.Lock()
-		h, payload := r.hdr, r.payload
+	// Header extensions reference the read buffer of the session.
+	p.Header = p.Header.Clone()
+	r.mu.Lock()
+	defer r.mu.Unlock()
+	if enableZeroCopy && r.hdr != nil {
+		// zero copy; the lock protects reader's buffers, see ReadRTP
+		*r.hdr = p.Header
+		n := copy(r.payload, p.Payload)
 		r.hdr, r.payload = nil, nil
-		r.mu.Unlock()
-		if h != nil {
-			// zero copy
-			*h = p.Header
-			n := copy(payload, p.Payload)
-			select {
-			case <-r.closed:
-			case r.copied <- n:
-			}
-			return
-		}
+		r.copied <- n // never blocks: each direct read waits for this value
+		return
 	}
 	p.Payload = slices.Clone(p.Payload)
 	select {
@@ -195,7 +191,9 @@ func (r *readStream) ReadRTP(h *rtp.Header, payload []byte) (int, error) {
 	direct := false
 	if enableZeroCopy {
 		r.mu.Lock()
-		if r.hdr == nil {
+		// Packets that are already queued must be delivered first.
+		// Previous direct read must also receive its result before we can start a new one.
+		if r.hdr == nil && len(r.recv) == 0 && len(r.copied) == 0 {
 			r.hdr = h
 			r.payload = payload
 			direct = true
@@ -212,21 +210,17 @@ func (r *readStream) ReadRTP(h *rtp.Header, payload []byte) (int, error) {
 		}
 		return 0, io.EOF
 	}
-	defer func() {
-		r.mu.Lock()
-		defer r.mu.Unlock()
-		if r.hdr == h {
-			r.hdr, r.payload = nil, nil
-		}
-	}()
 	select {
 	case n := <-r.copied:
 		return n, nil
-	case p := <-r.recv:
-		*h = p.Header
-		n := copy(payload, p.Payload)
-		return n, nil
 	case <-r.closed:
 	}
+	r.mu.Lock()
+	defer r.mu.Unlock()
+	if r.hdr == nil {
+		// Packet was already written to our buffers.
+		return <-r.copied, nil
+	}
+	r.hdr, r.payload = nil, nil
 	return 0, io.EOF
 }
-- 
2.43.0


From 3b47f978053ee4052ca9892052c09446f78a7dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:16 +0000
Subject: [PATCH 11/34] fix: preserve RTP header extensions in SRTP ReadRTP

---
 srtp/srtp.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/srtp/srtp.go b/srtp/srtp.go
index 09de8e6..456436f 100644
--- a/srtp/srtp.go
+++ b/srtp/srtp.go
@@ -166,7 +166,8 @@ func (r readStream) ReadRTP(h *prtp.Header, payload []byte) (int, error) {
 	if err = p.Unmarshal(buf[:n]); err != nil {
 		return 0, err
 	}
-	*h = p.Header
+	// Header extensions reference the same buffer, and would be overwritten below.
+	*h = p.Header.Clone()
 	n = copy(payload, p.Payload)
 	return n, nil
 }
-- 
2.43.0


From f2c5e6351a2c509de981d5914a1f6a5265fa79c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:25 +0000
Subject: [PATCH 12/34] fix: copy packets held by the RTP jitter handler

---
 rtp/jitter.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rtp/jitter.go b/rtp/jitter.go
index a081891..ec4afb6 100644
--- a/rtp/jitter.go
+++ b/rtp/jitter.go
@@ -15,6 +15,7 @@
 package rtp
 
 import (
+	"slices"
 	"time"
 
 	"github.com/pion/rtp"
@@ -64,7 +65,8 @@ func (r *jitterHandler) handleRTP(p *rtp.Packet) {
 
 func (r *jitterHandler) HandleRTP(h *rtp.Header, payload []byte) error {
 	// This may call handleRTP, possibly multiple times.
-	r.buf.Push(&rtp.Packet{Header: *h, Payload: payload})
+	// Packet may be kept in the buffer, while the caller is allowed to reuse the header and payload.
+	r.buf.Push(&rtp.Packet{Header: h.Clone(), Payload: slices.Clone(payload)})
 	select {
 	case err := <-r.err:
 		return err
-- 
2.43.0


From de4f4171239166a5bfd9c239e50d76f676c3ea92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:34 +0000
Subject: [PATCH 13/34] fix: compare telephone-event encoding name
 case-insensitively

---
 sdp/offer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdp/offer.go b/sdp/offer.go
index 5fd6ba9..c801c4b 100644
--- a/sdp/offer.go
+++ b/sdp/offer.go
@@ -526,7 +526,7 @@ func ParseMedia(d *sdp.MediaDescription) (*MediaDesc, error) {
 				continue
 			}
 			name := sub[1]
-			if name == dtmf.SDPName || name == dtmf.SDPName+"/1" {
+			if strings.EqualFold(name, dtmf.SDPName) || strings.EqualFold(name, dtmf.SDPName+"/1") {
 				out.DTMFType = byte(typ)
 				continue
 			}
-- 
2.43.0


From 341700653f60fb1402f845fb959b97373cba53d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:43 +0000
Subject: [PATCH 14/34] fix: do not panic on SDP connection line without an
 address

---
 sdp/helpers.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sdp/helpers.go b/sdp/helpers.go
index dc00686..f199b48 100644
--- a/sdp/helpers.go
+++ b/sdp/helpers.go
@@ -45,7 +45,9 @@ func GetAudioDest(s *sdp.SessionDescription, audio *sdp.MediaDescription) (netip
 	}
 	var addr string
 	if ci != nil && ci.NetworkType == "IN" {
-		addr = ci.Address.Address
+		if ci.Address != nil {
+			addr = ci.Address.Address
+		}
 	} else if s.Origin.NetworkType == "IN" {
 		addr = s.Origin.UnicastAddress
 	}
-- 
2.43.0


From daa6149437f9703ee98424c9fcca4dbb367d51fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:10 +0000
Subject: [PATCH 15/34] fix: do not lose samples in the resampler

---
 resample_soxr.go | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/resample_soxr.go b/resample_soxr.go
index c290992..0389420 100644
--- a/resample_soxr.go
+++ b/resample_soxr.go
@@ -162,6 +162,7 @@ type soxrResampler struct {
 	srcRate int
 	dstRate int
 	maxIn   int
+	in, out int // total number of samples consumed and produced
 	done    *atomic.Bool
 }
 
@@ -230,13 +231,15 @@ func (r *soxrResampler) Resample(out PCM16Sample, in PCM16Sample) (PCM16Sample,
 			1024,
 		)
 	}
-	// Make sure output has space for new samples. Length is still unchanged.
-	out = slices.Grow(out, dstN)
-	// Slice for the unused capacity, which we will write into.
-	dst := out[len(out) : len(out)+dstN]
 	total := 0
+	flush := len(in) == 0
+	r.in += len(in)
 	// Always call at least once (for flush to work), thus not considering len(in) here.
-	for len(dst) > 0 {
+	for {
+		// Make sure output has space for new samples. Length is still unchanged.
+		out = slices.Grow(out, dstN)
+		// Slice for the unused capacity, which we will write into.
+		dst := out[len(out) : len(out)+dstN]
 		var read, done C.size_t
 		var e C.soxr_error_t
 		if len(in) != 0 {
@@ -251,13 +254,22 @@ func (r *soxrResampler) Resample(out PCM16Sample, in PCM16Sample) (PCM16Sample,
 			return out, 0, err
 		}
 		total += int(done)
-		dst = dst[done:]
+		// Adjust the length to cover written data.
+		out = out[:len(out)+int(done)]
 		in = in[read:]
-		if len(in) == 0 {
+		// The output space limits how much input is consumed and how much is flushed at once.
+		if len(in) == 0 && (!flush || done == 0) {
 			break
 		}
 	}
-	// Finally adjust the length to cover written data.
-	out = out[:len(out)+total]
+	r.out += total
+	if flush {
+		// Don't emit the last sample if there was not enough input for it.
+		if extra := min(r.out-(r.in*r.dstRate)/r.srcRate, total); extra > 0 {
+			out = out[:len(out)-extra]
+			total -= extra
+			r.out -= extra
+		}
+	}
 	return out, total, nil
 }
-- 
2.43.0


From fdae41755a61957d48b21ef7d27bebfcdf79f9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:41 +0000
Subject: [PATCH 16/34] fix: reset the discontinuity flag of reused jitter
 buffer packets

---
 jitter/packet.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jitter/packet.go b/jitter/packet.go
index 31e3181..60aee32 100644
--- a/jitter/packet.go
+++ b/jitter/packet.go
@@ -38,6 +38,7 @@ func (b *Buffer) newPacket(pkt *rtp.Packet, receivedAt time.Time) *packet {
 
 	p.prev = nil
 	p.next = nil
+	p.discont = false
 	p.start = b.depacketizer.IsPartitionHead(pkt.Payload)
 	p.end = b.depacketizer.IsPartitionTail(pkt.Marker, pkt.Payload)
 	p.extPacket = ExtPacket{receivedAt, pkt}
-- 
2.43.0


From 8dc4ab97f50f4f359df66bf4d610edf6a1e01892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:48 +0000
Subject: [PATCH 17/34] fix: do not mix for a pending tick after the mixer is
 stopped

---
 mixer/mixer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mixer/mixer.go b/mixer/mixer.go
index 4e73587..20a76db 100644
--- a/mixer/mixer.go
+++ b/mixer/mixer.go
@@ -296,6 +296,9 @@ func (m *Mixer) start() {
 	for {
 		select {
 		case <-m.ticker.C:
+			if m.stopped.IsBroken() {
+				return // a tick was pending while we were stopped
+			}
 			m.mixUpdate()
 		case <-m.stopped.Watch():
 			return
-- 
2.43.0


From 8196dbd5f3e0b084f80b3b5988ec0f2a3f469657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:51 +0000
Subject: [PATCH 18/34] fix: clone CSRC and extensions of packets kept in
 rtp.Buffer

---
 rtp/rtp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rtp/rtp.go b/rtp/rtp.go
index 9e8de21..ad2ab41 100644
--- a/rtp/rtp.go
+++ b/rtp/rtp.go
@@ -100,7 +100,7 @@ func (b *Buffer) String() string {
 
 func (b *Buffer) WriteRTP(h *rtp.Header, payload []byte) (int, error) {
 	*b = append(*b, &rtp.Packet{
-		Header:  *h,
+		Header:  h.Clone(),
 		Payload: slices.Clone(payload),
 	})
 	return len(payload), nil
-- 
2.43.0


From fd67c82686a96d47a2d0ccd4b8712ba12fc81c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:01 +0000
Subject: [PATCH 19/34] fix: listen on IPv6 addresses in
 ListenUDPPortRangeWithConfig

---
 rtp/listen.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rtp/listen.go b/rtp/listen.go
index 3c0084a..fb617b7 100644
--- a/rtp/listen.go
+++ b/rtp/listen.go
@@ -17,10 +17,10 @@ package rtp
 import (
 	"context"
 	"errors"
-	"fmt"
 	"math/rand"
 	"net"
 	"net/netip"
+	"strconv"
 	"syscall"
 )
 
@@ -73,7 +73,7 @@ func ListenUDPPortRangeWithConfig(portMin, portMax int, ip netip.Addr, lc *net.L
 	ctx := context.Background() // ctx is only used to resolve domain names, which we don't use here.
 	ipStr := ip.String()
 	return bindRange(portMin, portMax, ip, func(port int, ip netip.Addr) (*net.UDPConn, error) {
-		conn, err := lc.ListenPacket(ctx, "udp", fmt.Sprintf("%s:%d", ipStr, port))
+		conn, err := lc.ListenPacket(ctx, "udp", net.JoinHostPort(ipStr, strconv.Itoa(port)))
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From f37fdb90513d7415d3f4f4b60548e5319ad9bbff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:38 +0000
Subject: [PATCH 20/34] fix: use IP6 address type for IPv6 addresses in SDP

---
 sdp/offer.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/sdp/offer.go b/sdp/offer.go
index c801c4b..5c86dd7 100644
--- a/sdp/offer.go
+++ b/sdp/offer.go
@@ -212,6 +212,14 @@ type Offer Description
 
 type Answer Description
 
+// addressType returns an SDP address type for a given IP.
+func addressType(ip netip.Addr) string {
+	if ip.Is6() {
+		return "IP6"
+	}
+	return "IP4"
+}
+
 func NewOffer(publicIp netip.Addr, rtpListenerPort int, encrypted Encryption) (*Offer, error) {
 	sessId := rand.Uint64() // TODO: do we need to track these?
 
@@ -226,13 +234,13 @@ func NewOffer(publicIp netip.Addr, rtpListenerPort int, encrypted Encryption) (*
 			SessionID:      sessId,
 			SessionVersion: sessId,
 			NetworkType:    "IN",
-			AddressType:    "IP4",
+			AddressType:    addressType(publicIp),
 			UnicastAddress: publicIp.String(),
 		},
 		SessionName: "LiveKit",
 		ConnectionInformation: &sdp.ConnectionInformation{
 			NetworkType: "IN",
-			AddressType: "IP4",
+			AddressType: addressType(publicIp),
 			Address:     &sdp.Address{Address: publicIp.String()},
 		},
 		TimeDescriptions: []sdp.TimeDescription{
@@ -284,13 +292,13 @@ func (d *Offer) Answer(publicIp netip.Addr, rtpListenerPort int, enc Encryption)
 			SessionID:      d.SDP.Origin.SessionID,
 			SessionVersion: d.SDP.Origin.SessionID + 2,
 			NetworkType:    "IN",
-			AddressType:    "IP4",
+			AddressType:    addressType(publicIp),
 			UnicastAddress: publicIp.String(),
 		},
 		SessionName: "LiveKit",
 		ConnectionInformation: &sdp.ConnectionInformation{
 			NetworkType: "IN",
-			AddressType: "IP4",
+			AddressType: addressType(publicIp),
 			Address:     &sdp.Address{Address: publicIp.String()},
 		},
 		TimeDescriptions: []sdp.TimeDescription{
-- 
2.43.0


From 002a33bbc3d5bd441a74614055838a4aa92b8544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:26 +0000
Subject: [PATCH 21/34] fix: accept SDES keys with MKI and no lifetime

---
 sdp/offer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sdp/offer.go b/sdp/offer.go
index 5c86dd7..02774f9 100644
--- a/sdp/offer.go
+++ b/sdp/offer.go
@@ -473,6 +473,10 @@ func parseSRTPProfile(val string) (*srtp.Profile, error) {
 	// Split by '|' per RFC 4568 6.1
 	parts := strings.Split(skey, "|")
 	keyMaterial := parts[0] // First part is always the base64-encoded key+salt
+	if len(parts) == 2 && strings.Contains(parts[1], ":") {
+		// Lifetime is optional, this is the MKI
+		parts = []string{keyMaterial, "", parts[1]}
+	}
 
 	keys, err := base64.RawStdEncoding.DecodeString(keyMaterial)
 	if err != nil {
-- 
2.43.0


From ad0f9e625a99427ee01b1123c732f9ddd781fc03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:47 +0000
Subject: [PATCH 22/34] fix: ignore SDES attributes with session parameters or
 multiple keys

---
 sdp/offer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sdp/offer.go b/sdp/offer.go
index 02774f9..5e4a3f7 100644
--- a/sdp/offer.go
+++ b/sdp/offer.go
@@ -470,6 +470,10 @@ func parseSRTPProfile(val string) (*srtp.Profile, error) {
 		return nil, nil // ignore
 	}
 
+	if strings.ContainsAny(skey, " ;") {
+		return nil, nil // session parameters and multiple keys are not supported, ignore
+	}
+
 	// Split by '|' per RFC 4568 6.1
 	parts := strings.Split(skey, "|")
 	keyMaterial := parts[0] // First part is always the base64-encoded key+salt
-- 
2.43.0


From 235affc76aed3ffac551d68fe4dab33135a53942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:09 +0000
Subject: [PATCH 23/34] fix: opus decoder fails on packets longer than 20ms

---
 opus/opus.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/opus/opus.go b/opus/opus.go
index b0dfb0a..f5af3bc 100644
--- a/opus/opus.go
+++ b/opus/opus.go
@@ -35,6 +35,9 @@ import (
 */
 import "C"
 
+// maxPacketDur is the longest duration of audio in a single Opus packet.
+const maxPacketDur = 120 * time.Millisecond
+
 type Sample []byte
 
 func (s Sample) Size() int {
@@ -150,7 +153,7 @@ func (d *decoder) resetForSample(in Sample) (int, error) {
 		}
 		d.dec = dec
 
-		d.buf = make([]int16, d.w.SampleRate()/rtp.DefFramesPerSec*channels)
+		d.buf = make([]int16, d.w.SampleRate()*int(maxPacketDur/time.Millisecond)/1000*channels)
 		d.lastChannels = channels
 	}
 
-- 
2.43.0


From 249612de44a3a95d62052ef795d1db5508ba7ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:11 +0000
Subject: [PATCH 24/34] fix: webm timestamps drift when the frame duration is
 not a whole number of milliseconds

---
 webm/writer.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/webm/writer.go b/webm/writer.go
index e07cc03..32835ee 100644
--- a/webm/writer.go
+++ b/webm/writer.go
@@ -57,7 +57,7 @@ type writer[T media.Frame] struct {
 	channels   int
 	sampleRate int
 	dur        time.Duration
-	ts         int64
+	ts         time.Duration
 	buf        []byte
 }
 
@@ -79,8 +79,8 @@ func (w *writer[T]) WriteSample(sample T) error {
 	if err != nil {
 		return err
 	}
-	_, err = w.ws.Write(true, w.ts, slices.Clone(w.buf[:n]))
-	w.ts += w.dur.Milliseconds()
+	_, err = w.ws.Write(true, w.ts.Milliseconds(), slices.Clone(w.buf[:n]))
+	w.ts += w.dur
 	return err
 }
 
-- 
2.43.0


From 8d92a233689e8717cb928b6db5899790f3288887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:56 +0000
Subject: [PATCH 25/34] fix: g722 encoder panicked on an odd number of samples

---
 g722/g722.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/g722/g722.go b/g722/g722.go
index 0030fc7..de3f2d1 100644
--- a/g722/g722.go
+++ b/g722/g722.go
@@ -135,6 +135,7 @@ func Decode(w media.PCM16Writer) (w2 Writer) {
 type Encoder struct {
 	f   g722.Flags
 	e   *g722.Encoder
+	pcm media.PCM16Sample // sample that waits for the second one of its byte
 	buf Sample
 	w   Writer
 }
@@ -152,6 +153,18 @@ func (e *Encoder) Close() error {
 }
 
 func (e *Encoder) WriteSample(in media.PCM16Sample) error {
+	if e.f&g722.FlagSampleRate8000 == 0 && (len(e.pcm) != 0 || len(in)%2 != 0) {
+		// A byte holds two samples, the encoder can't handle an odd number of them.
+		e.pcm = append(e.pcm, in...)
+		in = e.pcm[:len(e.pcm)-len(e.pcm)%2]
+		defer func() {
+			n := copy(e.pcm, e.pcm[len(in):])
+			e.pcm = e.pcm[:n]
+		}()
+		if len(in) == 0 {
+			return nil
+		}
+	}
 	sz := encodeSize(e.f, len(in))
 	if cap(e.buf) < sz {
 		e.buf = make(Sample, sz)
-- 
2.43.0


From 4d0f5307736d725d40e66a320884340f5284f125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:00 +0000
Subject: [PATCH 26/34] fix: readers of an srtp session were never woken up by
 Close

---
 srtp/srtp.go | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/srtp/srtp.go b/srtp/srtp.go
index 456436f..ad23413 100644
--- a/srtp/srtp.go
+++ b/srtp/srtp.go
@@ -18,6 +18,7 @@ import (
 	"crypto/rand"
 	"fmt"
 	"net"
+	"sync"
 
 	prtp "github.com/pion/rtp"
 	"github.com/pion/srtp/v3"
@@ -118,6 +119,10 @@ func NewSession(log logger.Logger, conn net.Conn, conf *Config) (rtp.Session, er
 type session struct {
 	log logger.Logger
 	s   *srtp.SessionSRTP
+
+	mu      sync.Mutex
+	closed  bool
+	streams []*srtp.ReadStreamSRTP
 }
 
 func (s *session) OpenWriteStream() (rtp.WriteStream, error) {
@@ -133,11 +138,36 @@ func (s *session) AcceptStream() (rtp.ReadStream, uint32, error) {
 	if err != nil {
 		return nil, 0, err
 	}
+	s.mu.Lock()
+	defer s.mu.Unlock()
+	if s.closed {
+		_ = r.Close()
+	} else {
+		s.streams = append(s.streams, r)
+	}
 	return readStream{r: r}, ssrc, nil
 }
 
 func (s *session) Close() error {
-	return s.s.Close()
+	s.mu.Lock()
+	s.closed = true
+	streams := s.streams
+	s.streams = nil
+	s.mu.Unlock()
+	// A stream that is never accepted would block the session, and it would never close.
+	go func() {
+		for {
+			if _, _, err := s.AcceptStream(); err != nil {
+				return
+			}
+		}
+	}()
+	err := s.s.Close()
+	// Readers are not interrupted when the session is closed.
+	for _, r := range streams {
+		_ = r.Close()
+	}
+	return err
 }
 
 type writeStream struct {
-- 
2.43.0


From 9336537828a8bf59d49f4fe16620addaf209fcd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:20 +0000
Subject: [PATCH 27/34] fix: read stereo Ogg files in 20ms frames

---
 res/embed.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/res/embed.go b/res/embed.go
index 7701362..2d2b03d 100644
--- a/res/embed.go
+++ b/res/embed.go
@@ -37,7 +37,7 @@ var WrongPinOgg []byte
 const SampleRate = 48000
 
 func ReadOggAudioFile(data []byte, sampleRate int, channels int) []media.PCM16Sample {
-	perFrame := sampleRate / media.DefFramesPerSec
+	perFrame := sampleRate / media.DefFramesPerSec * channels
 	r, err := oggvorbis.NewReader(bytes.NewReader(data))
 	if err != nil {
 		panic(err)
-- 
2.43.0


From 37506efde1d47c664dae05d7503eacc17c79f5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:09 +0000
Subject: [PATCH 28/34] fix: webm: report write errors to the caller instead of
 panicking in the background

The block writer of ebml-go panics in its goroutine when a write to the
underlying writer fails, which ended the whole process (disk full, closed
file). The first error is now returned by later writes and by Close.
---
 webm/writer.go | 51 +++++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 48 insertions(+), 3 deletions(-)

diff --git a/webm/writer.go b/webm/writer.go
index 32835ee..d1b2dd8 100644
--- a/webm/writer.go
+++ b/webm/writer.go
@@ -19,6 +19,7 @@ import (
 	"io"
 	"math/rand"
 	"slices"
+	"sync"
 	"time"
 
 	"github.com/at-wat/ebml-go/webm"
@@ -31,7 +32,8 @@ func NewPCM16Writer(w io.WriteCloser, sampleRate int, channels int, sampleDur ti
 }
 
 func NewWriter[T media.Frame](w io.WriteCloser, codec string, channels, sampleRate int, sampleDur time.Duration) media.WriteCloser[T] {
-	ws, err := webm.NewSimpleBlockWriter(w, []webm.TrackEntry{
+	out := &output{w: w}
+	ws, err := webm.NewSimpleBlockWriter(out, []webm.TrackEntry{
 		{
 			Name:            "Audio",
 			TrackNumber:     1,
@@ -45,14 +47,51 @@ func NewWriter[T media.Frame](w io.WriteCloser, codec string, channels, sampleRa
 			},
 		},
 	})
+	if err == nil {
+		err = out.Err()
+	}
 	if err != nil {
 		panic(err)
 	}
-	return &writer[T]{codec: codec, ws: ws[0], channels: channels, sampleRate: sampleRate, dur: sampleDur}
+	return &writer[T]{codec: codec, out: out, ws: ws[0], channels: channels, sampleRate: sampleRate, dur: sampleDur}
+}
+
+// output remembers the first error of the underlying writer and writes nothing after it.
+// Blocks are written by a background goroutine, which panics if it sees an error.
+type output struct {
+	w   io.WriteCloser
+	mu  sync.Mutex
+	err error
+}
+
+func (o *output) Write(p []byte) (int, error) {
+	o.mu.Lock()
+	defer o.mu.Unlock()
+	if o.err == nil {
+		_, o.err = o.w.Write(p)
+	}
+	return len(p), nil
+}
+
+func (o *output) Close() error {
+	err := o.w.Close()
+	o.mu.Lock()
+	defer o.mu.Unlock()
+	if o.err == nil {
+		o.err = err
+	}
+	return nil
+}
+
+func (o *output) Err() error {
+	o.mu.Lock()
+	defer o.mu.Unlock()
+	return o.err
 }
 
 type writer[T media.Frame] struct {
 	codec      string
+	out        *output
 	ws         webm.BlockWriteCloser
 	channels   int
 	sampleRate int
@@ -70,6 +109,9 @@ func (w *writer[T]) SampleRate() int {
 }
 
 func (w *writer[T]) WriteSample(sample T) error {
+	if err := w.out.Err(); err != nil {
+		return err
+	}
 	if sz := sample.Size(); cap(w.buf) < sz {
 		w.buf = make([]byte, sz)
 	} else {
@@ -85,5 +127,8 @@ func (w *writer[T]) WriteSample(sample T) error {
 }
 
 func (w *writer[T]) Close() error {
-	return w.ws.Close()
+	if err := w.ws.Close(); err != nil {
+		return err
+	}
+	return w.out.Err()
 }
-- 
2.43.0


From 9ca7a796856a148511265dac1fd04c7fa332776f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:30 +0000
Subject: [PATCH 29/34] fix: lock the RTP mux while describing it

---
 rtp/mux.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rtp/mux.go b/rtp/mux.go
index feaf724..893c55a 100644
--- a/rtp/mux.go
+++ b/rtp/mux.go
@@ -38,6 +38,8 @@ type Mux struct {
 }
 
 func (m *Mux) String() string {
+	m.mu.RLock()
+	defer m.mu.RUnlock()
 	var buf strings.Builder
 	buf.WriteString("Mux")
 	for t, h := range m.static {
-- 
2.43.0


From 8bfc1d1e40da79c9f8a44db013c658f782e8f647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:37 +0000
Subject: [PATCH 30/34] fix: include the selected crypto profile in the
 returned SDP answer

---
 sdp/offer.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sdp/offer.go b/sdp/offer.go
index 5e4a3f7..16a1c41 100644
--- a/sdp/offer.go
+++ b/sdp/offer.go
@@ -284,6 +284,10 @@ func (d *Offer) Answer(publicIp netip.Addr, rtpListenerPort int, enc Encryption)
 		return nil, nil, ErrNoCommonCrypto
 	}
 
+	var profiles []srtp.Profile
+	if sprof != nil {
+		profiles = []srtp.Profile{*sprof}
+	}
 	mediaDesc := AnswerMedia(rtpListenerPort, audio, sprof)
 	answer := sdp.SessionDescription{
 		Version: 0,
@@ -319,7 +323,8 @@ func (d *Offer) Answer(publicIp netip.Addr, rtpListenerPort int, enc Encryption)
 				Codecs: []CodecInfo{
 					{Type: audio.Type, Codec: audio.Codec},
 				},
-				DTMFType: audio.DTMFType,
+				DTMFType:       audio.DTMFType,
+				CryptoProfiles: profiles,
 			},
 		}, &MediaConfig{
 			Local:  src,
-- 
2.43.0


From 2d98a45a0be0ea608dfb5391a649bc09c1499c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:33 +0000
Subject: [PATCH 31/34] fix: do not free the static error strings of soxr

---
 resample_soxr.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/resample_soxr.go b/resample_soxr.go
index 0389420..194f583 100644
--- a/resample_soxr.go
+++ b/resample_soxr.go
@@ -18,7 +18,6 @@ package media
 
 /*
 #cgo pkg-config: soxr
-#include <stdlib.h>
 #include <soxr.h>
 */
 import "C"
@@ -167,10 +166,10 @@ type soxrResampler struct {
 }
 
 func soxrErr(e C.soxr_error_t) error {
+	// Errors of soxr are static strings, which must not be freed.
 	if e == nil {
 		return nil
 	}
-	defer C.free(unsafe.Pointer(e))
 	estr := C.GoString(e)
 	switch estr {
 	case "", "0":
-- 
2.43.0


From 9f608a66250d9da5dddbf010296b3f21e239aded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:09 +0000
Subject: [PATCH 32/34] fix: make the resampler without cgo build again

---
 resample_beep.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/resample_beep.go b/resample_beep.go
index 796fc24..6419ffe 100644
--- a/resample_beep.go
+++ b/resample_beep.go
@@ -16,6 +16,8 @@
 
 package media
 
+import "fmt"
+
 const quality = 3
 
 func resampleBuffer(dst PCM16Sample, dstSampleRate int, src PCM16Sample, srcSampleRate int) PCM16Sample {
@@ -54,6 +56,10 @@ type resampleWriter struct {
 	buf     PCM16Sample
 }
 
+func (w *resampleWriter) String() string {
+	return fmt.Sprintf("Resample(%d->%d) -> %s", w.srcRate, w.dstRate, w.w.String())
+}
+
 func (w *resampleWriter) SampleRate() int {
 	return w.srcRate
 }
-- 
2.43.0


From 06feabd95c577321a4462a5192c14ba972376eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:02 +0000
Subject: [PATCH 33/34] fix: resample streams without cgo as they are written

The resampler used without cgo expected its source to be at hand when its first sample was asked for. Fed by writes, it
panicked after a short or empty first write, took the samples after each write for zeros, and lost the end of the sound
when the destination rate is not a multiple of the source rate (8000 to 44100), as did the function for whole buffers.
---
 resample_beep.go  |  87 +++++++++++++-----------
 resampler_beep.go | 169 +++++++++++-----------------------------------
 2 files changed, 89 insertions(+), 167 deletions(-)

diff --git a/resample_beep.go b/resample_beep.go
index 6419ffe..ad9d7c6 100644
--- a/resample_beep.go
+++ b/resample_beep.go
@@ -16,44 +16,39 @@
 
 package media
 
-import "fmt"
+import (
+	"errors"
+	"fmt"
+	"sync"
+)
 
 const quality = 3
 
 func resampleBuffer(dst PCM16Sample, dstSampleRate int, src PCM16Sample, srcSampleRate int) PCM16Sample {
-	r := beepResample(quality, srcSampleRate, dstSampleRate, NewPCM16BufferReader(src))
-	sz := 0
-	if dstSampleRate < srcSampleRate {
-		div := srcSampleRate / dstSampleRate
-		sz = len(src) / div
-	} else {
-		mul := dstSampleRate / srcSampleRate
-		sz = len(src) * mul
-	}
-	out := make(PCM16Sample, sz)
-	n, _ := r.Stream(out)
-	return append(dst, out[:n]...)
+	r := newBeepResampler(quality, dstSampleRate, srcSampleRate)
+	return r.Resample(dst, src, true)
 }
 
 func newResampleWriter(w WriteCloser[PCM16Sample], sampleRate int) WriteCloser[PCM16Sample] {
 	srcRate := sampleRate
 	dstRate := w.SampleRate()
-	r := &resampleWriter{
+	return &resampleWriter{
 		w:       w,
 		srcRate: srcRate,
 		dstRate: dstRate,
+		r:       newBeepResampler(quality, dstRate, srcRate),
 	}
-	r.r = beepResample(quality, srcRate, dstRate, r)
-	return r
 }
 
 type resampleWriter struct {
-	w       WriteCloser[PCM16Sample]
-	r       *beepResampler
-	inbuf   PCM16Sample
-	srcRate int
-	dstRate int
-	buf     PCM16Sample
+	mu       sync.Mutex
+	w        WriteCloser[PCM16Sample]
+	r        *beepResampler
+	srcRate  int
+	dstRate  int
+	dstFrame int
+	buf      PCM16Sample
+	closed   bool
 }
 
 func (w *resampleWriter) String() string {
@@ -65,28 +60,44 @@ func (w *resampleWriter) SampleRate() int {
 }
 
 func (w *resampleWriter) Close() error {
+	w.mu.Lock()
+	defer w.mu.Unlock()
+	if w.closed {
+		return errors.New("resampler is closed")
+	}
+	w.closed = true
+	// Flush the resampler and our own PCM frame buffer to the underlying writer.
+	w.buf = w.r.Resample(w.buf, nil, true)
+	_ = w.flush(0)
 	return w.w.Close()
 }
 
-func (w *resampleWriter) ReadSample(data PCM16Sample) (int, error) {
-	n := copy(data, w.inbuf)
-	w.inbuf = w.inbuf[n:]
-	return n, nil
+func (w *resampleWriter) flush(minSize int) error {
+	var last error
+	for len(w.buf) > 0 && len(w.buf) >= minSize {
+		sz := len(w.buf)
+		if w.dstFrame > 0 {
+			sz = min(sz, w.dstFrame)
+		}
+		if err := w.w.WriteSample(w.buf[:sz]); err != nil {
+			last = err
+		}
+		w.buf = w.buf[:copy(w.buf, w.buf[sz:])]
+	}
+	return last
 }
 
 func (w *resampleWriter) WriteSample(data PCM16Sample) error {
-	w.inbuf = append(w.inbuf, data...)
-	var sz int
-	if w.srcRate > w.dstRate {
-		sz = len(data) / (w.srcRate / w.dstRate)
-	} else {
-		sz = len(data) * (w.dstRate / w.srcRate)
+	if len(data) == 0 {
+		return nil
 	}
-	if cap(w.buf) < sz {
-		w.buf = make(PCM16Sample, sz)
-	} else {
-		w.buf = w.buf[:sz]
+	w.mu.Lock()
+	defer w.mu.Unlock()
+	if w.closed {
+		return errors.New("resampler is closed")
 	}
-	n, _ := w.r.Stream(w.buf)
-	return w.w.WriteSample(w.buf[:n])
+	// The resampler holds back the last samples until the next write, so the first frame may be delayed by one write.
+	w.buf = w.r.Resample(w.buf, data, false)
+	w.dstFrame = max(w.dstFrame, len(data)*w.dstRate/w.srcRate)
+	return w.flush(w.dstFrame)
 }
diff --git a/resampler_beep.go b/resampler_beep.go
index 706d344..e4d5450 100644
--- a/resampler_beep.go
+++ b/resampler_beep.go
@@ -32,157 +32,68 @@ import (
 	"math"
 )
 
-// Resample takes a Streamer which is assumed to stream at the old sample rate and returns a
-// Streamer, which streams the data from the original Streamer resampled to the new sample rate.
-//
-// This is, for example, useful when mixing multiple Streamer with different sample rates, either
-// through a beep.Mixer, or through a speaker. Speaker has a constant sample rate. Thus, playing
-// Streamer which stream at a different sample rate will lead to a changed speed and pitch of the
-// playback.
-//
-//	sr := beep.SampleRate(48000)
-//	speaker.Init(sr, sr.N(time.Second/2))
-//	speaker.Play(beep.Resample(3, format.SampleRate, sr, s))
-//
-// In the example above, the original sample rate of the source is format.SampleRate. We want to play
-// it at the speaker's native sample rate and thus we need to resample.
-//
-// The quality argument specifies the quality of the resampling process. Higher quality implies
-// worse performance. Values below 1 or above 64 are invalid and Resample will panic. Here's a table
-// for deciding which quality to pick.
-//
-//	quality | use case
-//	--------|---------
-//	1       | very high performance, on-the-fly resampling, low quality
-//	3-4     | good performance, on-the-fly resampling, good quality
-//	6       | higher CPU usage, usually not suitable for on-the-fly resampling, very good quality
-//	>6      | even higher CPU usage, for offline resampling, very good quality
-//
-// Sane quality values are usually below 16. Higher values will consume too much CPU, giving
-// negligible quality improvements.
-//
-// Resample propagates errors from s.
-func beepResample(quality int, old, new int, s Reader[PCM16Sample]) *beepResampler {
-	return beepResampleRatio(quality, float64(old)/float64(new), s)
+// beepResampler changes the sample rate of a stream that is given to it piece by piece.
+type beepResampler struct {
+	srcRate, dstRate int64
+	pts              []point     // pts is for points used for interpolation
+	buf              PCM16Sample // buf has the source samples that interpolation might still require
+	off              int64       // off is the position of the start of buf in the original data
+	pos              int64       // pos is the current position in the resampled data
 }
 
-// ResampleRatio is same as Resample, except it takes the ratio of the old and the new sample rate,
-// specifically, the old sample rate divided by the new sample rate. Aside from correcting the
-// sample rate, this can be used to change the speed of the audio. For example, resampling at the
-// ratio of 2 and playing at the original sample rate will cause doubled speed in playback.
-func beepResampleRatio(quality int, ratio float64, s Reader[PCM16Sample]) *beepResampler {
+func newBeepResampler(quality int, dstRate, srcRate int) *beepResampler {
 	if quality < 1 || 64 < quality {
 		panic(fmt.Errorf("resample: invalid quality: %d", quality))
 	}
-	if math.IsInf(ratio, 0) || math.IsNaN(ratio) {
-		panic(fmt.Errorf("resample: invalid ratio: %f", ratio))
+	if srcRate <= 0 || dstRate <= 0 {
+		panic(fmt.Errorf("resample: invalid sample rates: %d, %d", srcRate, dstRate))
 	}
 	return &beepResampler{
-		s:     s,
-		ratio: ratio,
-		first: true,
-		buf1:  make(PCM16Sample, 512),
-		buf2:  make(PCM16Sample, 512),
-		pts:   make([]point, quality*2),
-		off:   0,
-		pos:   0,
+		srcRate: int64(srcRate),
+		dstRate: int64(dstRate),
+		pts:     make([]point, quality*2),
 	}
 }
 
-// Resampler is a Streamer created by Resample and ResampleRatio functions. It allows dynamic
-// changing of the resampling ratio, which can be useful for dynamically changing the speed of
-// streaming.
-type beepResampler struct {
-	s          Reader[PCM16Sample] // the orignal streamer
-	ratio      float64             // old sample rate / new sample rate
-	first      bool                // true when Stream was not called before
-	buf1, buf2 PCM16Sample         // buf1 contains previous buf2, new data goes into buf2, buf1 is because interpolation might require old samples
-	pts        []point             // pts is for points used for interpolation
-	off        int                 // off is the position of the start of buf2 in the original data
-	pos        int                 // pos is the current position in the resampled data
-}
-
-// Stream streams the original audio resampled according to the current ratio.
-func (r *beepResampler) Stream(samples PCM16Sample) (n int, ok bool) {
-	// if it's the first time, we need to fill buf2 with initial data, buf1 remains zeroed
-	if r.first {
-		sn, _ := r.s.ReadSample(r.buf2)
-		r.buf2 = r.buf2[:sn]
-		r.first = false
-	}
-	// we start resampling, sample by sample
-	for len(samples) > 0 {
-	again:
+// Resample consumes the next source samples and appends the resampled ones to out.
+// Samples that depend on source samples still to come are held back, unless this is the end of the stream.
+func (r *beepResampler) Resample(out PCM16Sample, in PCM16Sample, end bool) PCM16Sample {
+	r.buf = append(r.buf, in...)
+	srcEnd := r.off + int64(len(r.buf))
+	dstEnd := srcEnd * r.dstRate / r.srcRate
+	half := len(r.pts) / 2
+	// we resample, sample by sample
+	for r.pos < dstEnd {
 		// calculate the current position in the original data
-		j := float64(r.pos) * r.ratio
-
-		// find quality*2 closest samples to j and translate them to points for interpolation
+		j := r.pos * r.srcRate / r.dstRate
+		x := float64(r.pos*r.srcRate%r.dstRate) / float64(r.dstRate)
+		if !end && j+int64(half) >= srcEnd {
+			break
+		}
+		// find quality*2 closest samples to j and translate them to points for interpolation;
+		// samples before the start or after the end of the original data are zero
 		for pi := range r.pts {
-			// calculate the index of one of the closest samples
-			k := int(j) + pi - len(r.pts)/2 + 1
-
+			d := pi - half + 1
 			var y int16
-			switch {
-			// the sample is in buf1
-			case k < r.off:
-				y = r.buf1[len(r.buf1)+k-r.off]
-			// the sample is in buf2
-			case k < r.off+len(r.buf2):
-				y = r.buf2[k-r.off]
-			// the sample is beyond buf2, so we need to load new data
-			case k >= r.off+len(r.buf2):
-				// we load into buf1
-				sn, _ := r.s.ReadSample(r.buf1)
-				// this condition happens when the original Streamer got
-				// drained and j is after the end of the
-				// original data
-				if int(j) >= r.off+len(r.buf2)+sn {
-					return n, n > 0
-				}
-				// this condition happens when the original Streamer got
-				// drained and this one of the closest samples is after the
-				// end of the original data
-				if k >= r.off+len(r.buf2)+sn {
-					y = 0
-					break
-				}
-				// otherwise everything is fine, we swap buffers and start
-				// calculating the sample again
-				r.off += len(r.buf2)
-				r.buf1 = r.buf1[:sn]
-				r.buf1, r.buf2 = r.buf2, r.buf1
-				goto again
+			if k := int(j-r.off) + d; k >= 0 && k < len(r.buf) {
+				y = r.buf[k]
 			}
-
-			r.pts[pi] = point{float64(k), float64(y) / 0x7fff}
+			r.pts[pi] = point{float64(d), float64(y)}
 		}
-
 		// calculate the resampled sample using polynomial interpolation from the
 		// quality*2 closest samples
-		samples[0] = int16(lagrange(r.pts, j) * 0x7fff)
-		samples = samples[1:]
-		n++
+		y := math.Round(lagrange(r.pts, x))
+		out = append(out, int16(max(math.MinInt16, min(math.MaxInt16, y))))
 		r.pos++
 	}
-	return n, true
-}
-
-// Ratio returns the current resampling ratio.
-func (r *beepResampler) Ratio() float64 {
-	return r.ratio
-}
-
-// SetRatio sets the resampling ratio. This does not cause any glitches in the stream.
-func (r *beepResampler) SetRatio(ratio float64) {
-	if math.IsInf(ratio, 0) || math.IsNaN(ratio) {
-		panic(fmt.Errorf("resample: invalid ratio: %f", ratio))
+	// drop the samples that are no longer required
+	if n := min(int(r.pos*r.srcRate/r.dstRate-r.off)-half+1, len(r.buf)); n > 0 {
+		r.buf = r.buf[:copy(r.buf, r.buf[n:])]
+		r.off += int64(n)
 	}
-	r.pos = int(float64(r.pos) * r.ratio / ratio)
-	r.ratio = ratio
+	return out
 }
 
-// lagrange calculates the value at x of a polynomial of order len(pts)+1 which goes through all
-// points in pts
 func lagrange(pts []point, x float64) (y float64) {
 	y = 0.0
 	for j := range pts {
-- 
2.43.0


From 349584f0f4ada527a1ed28d194f8449495f763f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:23 +0000
Subject: [PATCH 34/34] fix: lock the mixer while describing it

---
 mixer/mixer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mixer/mixer.go b/mixer/mixer.go
index 20a76db..beccb0a 100644
--- a/mixer/mixer.go
+++ b/mixer/mixer.go
@@ -350,7 +350,10 @@ func (m *Mixer) RemoveInput(inp *Input) {
 }
 
 func (m *Mixer) String() string {
-	return fmt.Sprintf("Mixer(%d) -> %s", len(m.inputs), m.out.String())
+	m.mu.Lock()
+	n := len(m.inputs)
+	m.mu.Unlock()
+	return fmt.Sprintf("Mixer(%d) -> %s", n, m.out.String())
 }
 
 func (m *Mixer) SampleRate() int {
-- 
2.43.0

