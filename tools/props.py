"""Source of properties.jsonl: python3 tools/props.py rewrites it (and checks the lengths)."""
import json, os
P = []


def p(id, title, statement, over, quant, why, files, mech, observe, state=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=hook)))


I, S, H, C, F = "inputs", "schedules", "histories", "configurations", "fault_sequences"

p("C01", "Jitter buffer delivers whole samples, once, in sequence order",
  "Whatever order RTP packets arrive in (reordered, duplicated, lost, across the 16-bit sequence wrap-around), the jitter buffer hands out only complete samples (first to last packet, consecutive sequence numbers, media payload only), each packet at most once, and in sequence order as long as the stream does not jump to an unrelated sequence number. "
  "A sample that is complete and next in sequence is handed out at once, one behind a gap as soon as the gap closes or is given up on. After a jump of the sequence number (a restarted sender) delivery goes on with the new numbering.",
  [H, S, I], "all sequences of pushed packets (sequence numbers incl. wrap-around and jumps, sample start/end flags, padding), flushes, latency changes and timer firings",
  "Tests push a few hand-written sequences; reordering x loss x duplication x wrap-around x multi-packet samples x timing is a product they sample at a handful of points.",
  ["jitter/buffer.go", "jitter/packet.go", "rtp/jitter.go"],
  [("ordered insertion, duplicate rejection", "jitter/buffer.go Buffer.push"), ("release of complete in-order samples", "jitter/buffer.go popReady/popSample"), ("discontinuity detection", "jitter/buffer.go withinRange/before16")],
  ["samples given to the onPacket callback of jitter.NewBuffer"],
  [("head/tail list", "packets waiting, in sequence order", "jitter/buffer.go Buffer"), ("prevSN", "last sequence number that left", "jitter/buffer.go Buffer")])
p("C02", "Jitter buffer accounts for every packet",
  "Every packet pushed into the jitter buffer ends up counted exactly once: delivered, dropped (late, duplicate, or part of a sample that never became complete), still buffered, or ignored padding; the number of lost packets is the number of sequence numbers that were skipped over. "
  "Statistics report these numbers truthfully at any time, and the packet loss callback is called whenever the lost or dropped counters grow, never otherwise. The buffer's size is the number of packets it really holds.",
  [H, S], "all sequences of pushes, flushes, latency changes, timer firings",
  "Tests look at counters after a few fixed sequences; conservation must hold after every prefix of every history.",
  ["jitter/buffer.go", "jitter/packet.go"],
  [("stats counters updated at each removal", "jitter/buffer.go push/dropIncompleteExpired/popReady/Flush"), ("loss callback", "jitter/buffer.go onPacketLoss")],
  ["Buffer.Stats", "Buffer.Size", "onPacketLoss callback"])
p("C03", "Jitter buffer never holds a packet beyond its latency",
  "While the jitter buffer is open no packet stays at the head of its queue longer than the configured latency after its arrival: at the deadline its sample is delivered (missing predecessors given up) or dropped as incomplete, driven by a timer even when nothing arrives any more, and never before the deadline if a missing packet could still come. "
  "A latency change applies to packets already waiting; a flush empties the queue of all complete samples at once. After Close the timer delivers nothing more and no goroutine remains.",
  [S, H, C], "all arrival times, latencies, latency changes and close points",
  "Tests use real sleeps with a fixed latency and one or two gaps; the deadline must hold for every arrival pattern relative to every timer state.",
  ["jitter/buffer.go"],
  [("timer re-armed for the head packet", "jitter/buffer.go popReady/Timer"), ("expiry test against arrival time", "jitter/buffer.go dropIncompleteExpired/popReady")],
  ["time stamps of onPacket callbacks in virtual time", "Buffer.Size"])
p("C04", "Ring buffer is a bounded FIFO that drops only its oldest elements",
  "For every capacity and every sequence of push, write, pop, read, peek and their try variants the ring buffer behaves as a FIFO queue of at most its capacity: elements come out in the order they went in, and an overflow discards exactly the oldest ones. "
  "Length, emptiness and fullness are always those of that queue; a try-push into a full buffer and a try-pop or read from an empty one change nothing and say so. Elements of large single writes beyond the capacity keep the newest ones.",
  [H, C, I], "all capacities and all operation sequences",
  "Tests use one or two capacities and a few wrap positions; wrap-around x partial reads x oversized writes is a product.",
  ["ring/buffer.go"], [("read/write positions modulo the capacity", "ring/buffer.go")],
  ["return values of all methods, Len, Cap"], [("read position, length", "content of the ring", "ring/buffer.go Buffer")])
p("C05", "Mixer output is the saturated sum of its live inputs",
  "Each output frame of the mixer has exactly the configured number of samples and every sample is the sum of the corresponding samples of all inputs that are playing, clipped to the 16-bit range (never wrapped around). "
  "An input starts to play only after more than half of its queue is filled, and again after it ran dry; its samples are played in order, once each, with the oldest dropped on overflow. Removed inputs contribute nothing.",
  [H, I, S], "all interleavings of input creation, removal, writes of any size, and ticks; all sample values",
  "Tests mix a few constant frames; buffering restarts, partial frames and saturation depend on the history of writes relative to ticks.",
  ["mixer/mixer.go", "ring/buffer.go"], [("int32 accumulation and clipping", "mixer/mixer.go mixInputs"), ("per input ring and buffering flag", "mixer/mixer.go Input.readSample")],
  ["frames written to the output writer"])
p("C06", "Mixer keeps pace with the clock",
  "The mixer produces one frame per tick interval of elapsed time: a late or missed tick is made up for by mixing several frames at once, up to the depth of the input queues, beyond which the surplus is skipped and the clock restarts. "
  "A slow output delays frames but does not change their number within that bound, never reorders them, and does not stop the mixer. With an output channel up to its capacity of frames are decoupled from the output.",
  [S, H, C], "all delays of the output and of the ticker",
  "Wall-clock tests cannot create precise lateness; they check the average on an idle machine.",
  ["mixer/mixer.go"], [("frame count from elapsed time", "mixer/mixer.go mixUpdate"), ("output channel and writer goroutine", "mixer/mixer.go start/writer")],
  ["time stamps and number of frames at the output, in virtual time"])
p("C07", "Mixer starts and stops cleanly",
  "Stopping the mixer ends its goroutines whatever they are doing (also when the output or its channel is blocked), is idempotent and does not wait for a new tick; after it no further frame is mixed beyond the update that was in progress. "
  "Inputs can be created, closed twice, written to after removal, and used after Stop without panic, deadlock or effect on the output. Creating an input on a stopped mixer reports that there is none.",
  [S, H], "all orders of stop, input creation, removal, writes and ticks",
  "Tests stop an idle mixer once; blocked outputs and racing stop/tick need particular schedules.",
  ["mixer/mixer.go"], [("stopped fuse observed by all goroutines", "mixer/mixer.go start/Stop"), ("input list under lock", "mixer/mixer.go NewInput/RemoveInput")],
  ["goroutines left, frames after Stop, return values"])
p("C08", "Mixer statistics are exact",
  "The mixer's statistics (tracks and total tracks, restarts, mixes by kind, input, dropped, mixed and output frames and samples, write errors, blocked writes) equal at all times what actually happened. "
  "In particular written input samples are dropped, mixed or still queued, and output samples are frames times frame size.",
  [H, S], "all histories of mixer operations and ticks",
  "Existing tests do not look at most counters; conservation must hold after each history.",
  ["mixer/mixer.go"], [("atomic counters updated at each step", "mixer/mixer.go Stats")], ["mixer.Stats fields"])
p("C09", "Outgoing RTP packets carry gap-free sequence numbers",
  "All packets written to one connection writer carry consecutive sequence numbers modulo 65536 and one fixed SSRC, whichever stream or goroutine wrote them, and a failed write consumes no number. "
  "Header fields (payload type, timestamp, marker) and payload arrive unchanged. Packets collected by the RTP buffer are independent copies.",
  [S, H, F, I], "all interleavings of concurrent writers, all write failures",
  "A test with one stream cannot see numbering races or gaps after failed writes.",
  ["rtp/rtp.go"], [("sequence counter under lock", "rtp/rtp.go SeqWriter.WriteEvent"), ("copy on buffering", "rtp/rtp.go Buffer.WriteRTP")], ["packets given to the underlying Writer"])
p("C10", "RTP stream timestamps advance by media time and never go back",
  "A stream's timestamp advances by its frame duration per payload written and by the requested amount per delay; packets written at the current timestamp share it. "
  "Up to the end of the 32-bit range (whose wrap-around is not supported) it never decreases within a stream unless reset, and a stream that fell more than 25 frames behind the newest timestamp of its connection catches up to it. A failed write does not advance the timestamp. All of this holds when several goroutines use the streams, each write or delay taking effect as a whole.",
  [H, F, C], "all sequences of writes, current-timestamp writes, delays and resets over several streams",
  "Tests cover one stream with a few packets; catch-up and shared state between streams need histories.",
  ["rtp/rtp.go"], [("shared newest timestamp", "rtp/rtp.go SeqWriter.CurrentTS"), ("per-stream timestamp under lock", "rtp/rtp.go Stream")], ["packet headers, Stream.GetCurrentTimestamp"])
p("C11", "RTP session routes every packet to the stream of its SSRC",
  "Every RTP packet received on a session's connection is given to the stream of its SSRC, unchanged and in order of arrival; the first packet of an unknown SSRC creates exactly one stream, which is announced with that SSRC. "
  "Only when a stream has 10 packets queued is the newest dropped; datagrams that are not RTP are skipped without disturbing anything. A reader's buffer too small for the payload receives the prefix that fits.",
  [S, H, I], "all interleavings of arrivals, accepts and reads over several SSRCs",
  "Tests read one or two packets of one stream; who gets which packet depends on the interleaving of accept and read calls.",
  ["rtp/session.go"], [("stream table by SSRC", "rtp/session.go session.AcceptStream"), ("bounded queue per stream and zero-copy hand-over", "rtp/session.go readStream")], ["ReadRTP results, AcceptStream results"])
p("C12", "Closing an RTP session ends all blocked calls",
  "Closing a session unblocks every pending accept and read promptly with an error or end-of-file, at any point; later accepts and reads do not block, and closing again is harmless. "
  "A connection error ends the accept that met it with that error. No goroutine remains after Close.",
  [S, F, H], "all points in time for Close and for connection errors",
  "Tests close an idle session; liveness needs close at each point of accept, delivery and read.",
  ["rtp/session.go"], [("closed signal seen by readers", "rtp/session.go session.Close/readStream.ReadRTP")], ["return of AcceptStream/ReadRTP after Close"])
p("C13", "RTP mux hands a packet to exactly the handler of its payload type",
  "The mux passes each packet unchanged to the handler registered last for its payload type, to the default handler if there is none, and to nobody (without error) if there is no default either; at most one handler sees a packet. "
  "The handler's error is returned to the caller. Registering nil for a type makes the default handle it again; a nil mux ignores packets. Registrations may change while packets are handled: each packet meets the handlers of one moment between call and return, and so does a description of the mux (String), which names each type with its handler, and the default.",
  [H, I], "all registration histories and payload types 0..255",
  "Tests register one or two types; table ranges and re-registration are histories.",
  ["rtp/mux.go"], [("handler table for static, dynamic and other types", "rtp/mux.go Mux")], ["handler invocations"])
p("C14", "UDP listening respects the port range and finds a free port",
  "Listening on a port range only ever tries ports of that range (clamped to 1..65535, any port for an empty range), each at most once, and skips those in use; it succeeds exactly if a free one is met and fails with an error only when all are in use or another error occurs, which ends the search at once. "
  "Invalid ranges are refused without trying a port. The connection returned is bound to a port of the range on the requested address.",
  [C, F, I], "all ranges incl. degenerate ones, all subsets of ports in use or refused",
  "Tests listen on a free wide range; exhaustion, wrap-around from the random start and range edges are not reached.",
  ["rtp/listen.go"], [("random start, wrap-around search", "rtp/listen.go ListenUDPPortRange")], ["ports passed to net.ListenConfig, result"])
p("C15", "RTP handler loops deliver, report errors and close exactly once",
  "The read loop gives every packet read, whole and in order, to the handler until the reader or the handler fails, returns that error and closes the handler exactly once. "
  "Behind the jitter handler packets reach the handler one by one, in the order and at the time the jitter buffer releases them, intact although the caller reuses its buffer, and a handler error is returned by the next call. Nothing is delivered after Close.",
  [S, F, H, I], "all packet orders, handler failures at any packet, close at any point",
  "Tests run loops without failures and with private buffers.",
  ["rtp/rtp.go", "rtp/jitter.go"], [("loop with deferred close", "rtp/rtp.go HandleLoop"), ("copy into the buffer, stored error", "rtp/jitter.go")], ["HandleRTP calls on the wrapped handler"])
p("C16", "DTMF sender produces RFC 4733 event sequences and matching audio",
  "Sending a digit string produces, for each digit in order, event packets of that digit every 20 ms sharing one timestamp, with the marker set on the first only, durations growing by one frame, and the end event sent three times; the stream's timestamp afterwards advances by the digit and pause durations. "
  "In the audio stream the same digit sounds for 250 ms (rounded up to frames) followed by 250 ms of silence, 'w' pauses half a second, and exactly one frame is written per 20 ms. Cancellation or an error of any single write, of audio or of an event packet, ends it at once with that error.",
  [I, F, C, S], "all digit strings, presence of each output, start timestamps, cancellation and failure points",
  "Tests send one fixed string; the timeline must hold for each string, combination of outputs and interruption point.",
  ["dtmf/dtmf.go", "tones/tones.go"], [("20 ms state machine over digits", "dtmf/dtmf.go Write")], ["RTP packets and PCM frames written, in virtual time"])
p("C17", "DTMF event encoding and decoding are exact inverses",
  "Decoding an encoded telephone event returns the same code, digit, end flag, volume (6 bits) and duration for every event of the 16 DTMF digits and for unknown codes; encoding by digit and by code agree. "
  "Short buffers and short payloads are refused with an error instead of a panic or partial result, and packets without the marker are not reported as events. Each digit maps to its standard pair of frequencies.",
  [I], "all events (code, digit, end, volume, duration), all payloads",
  "Tests encode a few events.",
  ["dtmf/dtmf.go"], [("bit packing", "dtmf/dtmf.go Encode/Decode"), ("digit tables", "dtmf/dtmf.go charToEvent/eventToChar/eventFreq")], ["Encode, Decode, DecodeRTP, Tone results"])
p("C18", "Tone player follows its cadence in real time",
  "Playing a tone list writes one frame of 20 ms per 20 ms, alternating each tone's sound and silence for their durations and cycling through the list until cancelled; a tone without silence is followed directly by the next tone. "
  "The sound's phase is continuous with elapsed time, its amplitude never exceeds the volume, and a write error or cancellation ends playing immediately with that error.",
  [C, I, S, F], "all tone lists, sample rates, volumes, cancellation and failure points",
  "Existing tests play one dial tone for a short time.",
  ["tones/tones.go"], [("cadence state machine", "tones/tones.go Play"), ("sine synthesis", "tones/tones.go Generate")], ["frames written in virtual time"])
p("C19", "Pipe transfers samples exactly, synchronously, and closes cleanly",
  "What is written to a pipe is read from it in order without loss, duplication or invention, whatever the sizes of reads and writes, and a write returns successfully only when all of it was read. "
  "Concurrent writes do not interleave their samples. Closing either end unblocks both with the documented error (end-of-file or the given error for readers, closed-pipe or the given error for writers), the first error given to an end winning.",
  [S, H, I], "all interleavings of concurrent writes, reads and closes, all sizes",
  "Tests read and write in lock-step; blocked calls racing with close depend on the schedule.",
  ["pipe.go"], [("rendezvous channels", "pipe.go pipe.read/write"), ("sticky close errors", "pipe.go onceError")], ["ReadSample/WriteSample/Close results"])
p("C20", "Frame splitter emits exact frames and loses no samples",
  "The frame splitter turns writes of any sizes into frames of exactly the configured size, in order, as soon as a frame is complete; on Close the remainder is written as one short last frame and the writer below is closed once. "
  "Concatenated output equals concatenated input. A downstream error is reported to the caller whose write met it and consumes only the frame it was for.",
  [I, H, F, S], "all write size sequences, frame sizes, failure points",
  "Tests use few sizes and never fail downstream.",
  ["buffers.go"], [("accumulate and flush", "buffers.go frameBuffer.flush")], ["frames written downstream"])
p("C21", "Switch writer routes to exactly the current writer",
  "A switch writer passes each sample to the writer attached last, resampled if the rates differ, and to nobody while there is none or it is disabled; swapping returns the previous writer exactly once and never closes it, closing detaches and closes the current one once. Errors of the writer attached are returned by the call that met them. "
  "The sample rate can be set exactly once when left open at creation and any misuse panics rather than passing audio at a wrong rate.",
  [S, H, C], "all sequences and interleavings of swap, write, enable, disable, close",
  "Tests do not cover switch writers beyond construction.",
  ["media.go", "resample.go"], [("atomic writer pointer", "media.go SwitchWriter.Swap"), ("single rate initialisation", "media.go SetSampleRate")], ["calls on attached writers, return values"])
p("C22", "Fan-out and recording writers store every sample unaltered",
  "A multi-writer passes each sample and close to every writer even if some fail and reports an error if any did; file writers store the exact little-endian bytes of all samples in order, complete after Close; frame and buffer writers keep copies which later changes to the caller's slice do not affect. "
  "After Close a buffer writer stores nothing more. When several goroutines write, every sample is stored whole and each goroutine's in its order.",
  [I, H, F], "all sample sequences, writer failures, buffer reuse by the caller",
  "Tests write once with intact writers.",
  ["media.go", "pcm.go", "dump.go"], [("loop without early exit", "media.go MultiWriter"), ("buffered file writer with flush on close", "media.go fileWriter"), ("copying", "pcm.go")], ["stored bytes and samples, errors"])
p("C23", "Codec registry is consistent for any registration and enable history",
  "After any history of registrations and enable/disable calls the list of enabled codecs is the list of registered ones, in order, without those whose name is disabled, names being compared without regard to case; a codec registered as disabled starts disabled. "
  "Every registration callback is called exactly once for every codec, whether registered before or after it. Lookups by name and static payload type find the codec registered for them, by name only while it is enabled.",
  [H, C], "all sequences of register, on-register, enable and disable",
  "Package state is built by init functions; tests see one registration history.",
  ["codecs.go", "rtp/codecs.go", "sdp/codecs.go"], [("lower-cased disable set", "codecs.go CodecSetEnabled"), ("replay on OnRegister", "codecs.go OnRegister")], ["Codecs, EnabledCodecs, CodecByName, CodecByPayloadType"])
p("C24", "Channel conversion and sample serialisation are exact",
  "Mono to stereo duplicates every sample to both channels, stereo to mono yields the average of each pair for all 16-bit values (no overflow), also in place; destinations too small panic without partial surprises. "
  "Serialising frames writes exactly their bytes (little-endian for PCM), reports their number, and refuses short buffers with an error without writing beyond them.",
  [I], "all 16-bit values, lengths and buffer sizes",
  "Tests use a few small values and exactly fitting buffers.",
  ["pcm.go", "g711/alaw.go", "g711/ulaw.go", "g722/g722.go", "opus/opus.go"], [("32-bit average", "pcm.go StereoToMono"), ("length checks", "pcm.go CopyTo")], ["dst contents and return values"])
p("C25", "Resampler preserves duration and loses no samples",
  "For all supported rates and any division of the input into writes, a resampling writer emits after Close exactly floor(input samples x destination rate / source rate) samples in total, in frames in stream order, never more than the input written so far accounts for plus its internal delay. "
  "The one-shot function gives the same number, appends to its destination and leaves equal rates untouched. The sound does not depend on how the input is divided into writes; silence stays silent, and Close flushes and closes the writer below once, returning its error. Writes of several goroutines are taken one after the other. A rate that is none (zero, negative) is refused by a panic that can be recovered. All of this holds for the resampler used without cgo as well.",
  [I, H, C], "all rate pairs, input lengths and chunkings",
  "Tests resample a few rates with whole frames; odd chunk sizes and ratios are where samples get lost.",
  ["resample.go", "resample_soxr.go", "resample_beep.go", "resampler_beep.go"], [("output sizing and flush", "resample_soxr.go Resample/flush")], ["samples written downstream"])
p("C26", "PlayAudio writes each frame once, paced, until done or cancelled",
  "PlayAudio writes the given frames in order, one per sample duration, and returns when the last one was written, without touching the list given. "
  "Cancellation or a write error ends it at once with that error and nothing is written afterwards; an empty list returns at once.",
  [S, F, I], "all frame lists, durations, cancellation and failure points",
  "Not covered by tests.",
  ["pcm.go"], [("ticker loop", "pcm.go PlayAudio")], ["WriteSample calls in virtual time"])
p("C27", "SDP negotiation always agrees on one codec both sides offered",
  "For every offer and set of enabled codecs, the answerer picks the highest priority codec it supports among those offered (first one on ties), answers with exactly that codec, its payload type from the offer and the offered DTMF type, and the offerer applying the answer arrives at the same codec, payload type and DTMF type. "
  "Codec names match without regard to case, static payload types need no rtpmap, disabled and unknown codecs are never chosen, and no common codec is an error. Offers list the enabled codecs by priority with unique payload types.",
  [I, C], "all rtpmap/format lists, orders, payload types, enabled codec sets",
  "Tests contain a handful of captured SDPs; the agreement of both sides is a property of pairs of lists.",
  ["sdp/offer.go", "sdp/codecs.go", "rtp/codecs.go"], [("priority selection", "sdp/offer.go SelectAudio"), ("media parsing", "sdp/offer.go ParseMedia"), ("offer ordering", "sdp/offer.go OfferCodecs")], ["MediaConfig on both sides, SDP text"])
p("C28", "SDP crypto negotiation gives both sides the same keys",
  "If an offer carries SRTP profiles and encryption is allowed on both sides, offerer and answerer agree on the same suite, each one's local key, salt and key identifier being the other's remote ones, and the answer echoes the tag of the offered profile. "
  "Of any two lists of profiles the first one of the answer is taken that can be used and was offered, leaving the lists alone. If encryption is required and no suite is common, negotiation fails instead of silently using plain RTP; if it is disabled, none is used.",
  [I, C], "all profile lists, orders, tags, key identifiers and encryption policies",
  "Tests use one fixed offer; key direction and tag echo depend on the lists of both sides.",
  ["sdp/offer.go", "srtp/srtp.go"], [("profile selection and swap", "sdp/offer.go SelectCrypto"), ("policies", "sdp/offer.go Answer/Apply")], ["srtp.Config of both sides, crypto attributes"])
p("C29", "SDP parsing accepts valid input exactly and never panics",
  "Parsing an arbitrary SDP text either returns a description or an error, and never panics. "
  "For accepted texts the destination address and port are those of the audio media (its connection line, else the session's, else the origin), codecs, DTMF type and crypto parameters (tag, suite, key and salt split, lifetime, key identifier) are exactly those written; malformed keys, lifetimes and identifiers are errors, unknown attributes are ignored.",
  [I], "all SDP texts",
  "Tests parse a handful of good SDPs.",
  ["sdp/offer.go", "sdp/helpers.go"], [("crypto attribute grammar", "sdp/offer.go parseSRTPProfile/parseLifetime/parseMKI"), ("address selection", "sdp/helpers.go GetAudioDest")], ["Parse results"])
p("C30", "G.711 coding is idempotent, monotonic and within half a step",
  "For both laws decoding gives the standard value for all 256 codes, and encoding any 16-bit sample gives the code whose value is nearest to it up to the codec's quantisation, monotonically, symmetrically in sign, and reproducing every code exactly except the two zeros. "
  "Encoders and decoders convert each sample independently, keep frame lengths and order, and resample when the writer's rate is not 8 kHz. Errors of the writer below are returned and change nothing else.",
  [I], "all 65536 samples and 256 codes, all frame lengths",
  "Tests check one recording.",
  ["g711/g711.go", "g711/alaw.go", "g711/ulaw.go"], [("lookup tables built at start", "g711/g711.go buildLawTable")], ["EncodeALawTo, DecodeALawTo, EncodeULawTo, DecodeULawTo, writers"])
p("C31", "Opus decoder adapts channels, survives spurious corruption and frame sizes",
  "Each decodable Opus packet yields its full duration of PCM in the requested number of channels, whatever channel count the packet has and however it changes from packet to packet; empty packets are ignored. "
  "Up to five invalid packets in a row are skipped without error and the next one is reported; a good packet resets the count. Packets up to the longest there are (120 ms) decode whole; an encoder for a rate or channel count that Opus does not have is refused with an error.",
  [H, I], "all sequences of mono, stereo, empty and corrupt packets of any duration",
  "Tests decode one file.",
  ["opus/opus.go", "pcm.go"], [("decoder reset on channel change", "opus/opus.go resetForSample"), ("error tolerance", "opus/opus.go WriteSample")], ["frames written downstream, errors"])
p("C32", "WebM recordings keep every frame at its place on the timeline",
  "A WebM recording contains every written frame once, in order, byte for byte, as key blocks of the one track, the k-th with the time of k frame durations from the start, for any recording length. "
  "The track header states the codec, rate, channels and frame duration given. Close finishes the file and closes the writer below. When a write to it fails, every later call returns an error, nothing is written any more and Close still closes it; the process goes on.",
  [H, C, I], "all frame sequences and durations, long recordings (cluster changes)",
  "Tests write a few frames.",
  ["webm/writer.go", "opus/opus.go"], [("running time stamp", "webm/writer.go WriteSample")], ["EBML parsed from the written bytes"])
p("C33", "G.722 coding keeps frame sizes, state and independence of chunking",
  "At 16 kHz a frame of 2n samples becomes n bytes and back 2n samples (n and n at 8 kHz), for all frame sizes; the coded stream depends only on the sample stream, not on how it is divided into frames (of an odd number of samples the last one waits for the next frame), and every encoder and decoder keeps its own state. "
  "Decoding into a writer of another rate resamples; silence decodes to near silence. Errors of the writer below are returned and change nothing else.",
  [I, H], "all frame size sequences and sample values, several instances",
  "Tests code one recording with one frame size.",
  ["g722/g722.go"], [("buffer sizing", "g722/g722.go encodeSize/decodeSize"), ("codec state per instance", "g722/g722.go Encoder/Decoder")], ["bytes and samples written downstream"])
p("C34", "SRTP sessions deliver only authentic packets, unaltered",
  "A packet written to one end of an SRTP session with matching keys arrives at the other end with the same header (including extensions, CSRC, marker) and payload, for all profiles, with or without key identifiers, and whatever the order in which the network delivers it. "
  "Packets that were altered, replayed, or protected with other keys are never delivered. Closing a session always succeeds, even with streams nobody accepted, and ends all its readers. Generated default profiles have the key and salt lengths of their suite.",
  [I, H, F, C], "all profiles, headers, payloads; reordering, duplication, corruption in transit",
  "Tests send one packet.",
  ["srtp/srtp.go"], [("session wrapper around the SRTP contexts", "srtp/srtp.go NewSession/readStream")], ["ReadRTP results"])

p("C35", "SDP offers and answers describe their endpoint and read back the same",
  "The text of every offer and answer states the given address (with its address family) and port, plain RTP or SRTP according to what was agreed, one format and one name for each codec of the description, the DTMF events, and packets of 20 ms in both directions; parsing the text gives back the same codecs, DTMF type, keys and address as the offer or answer itself has. "
  "Both sides of a call end up with each other's address and port as the remote one.",
  [I, C], "all enabled codec sets, encryption policies, IPv4 and IPv6 addresses, ports, offers",
  "Tests compare a few texts with IPv4 addresses.",
  ["sdp/offer.go", "sdp/helpers.go"], [("text generation", "sdp/offer.go OfferMedia/AnswerMedia/NewOffer/Answer")], ["marshalled SDP text, Offer/Answer fields, MediaConfig"])

p("C36", "Ogg sound files are read completely, in frames of 20 ms",
  "Reading an Ogg Vorbis file gives all of its values, in order, each as the nearest 16-bit value (within one), whatever pieces the decoder delivers them in: every frame but the last holds exactly the interleaved values of 20 ms at the rate and the number of channels of the file, the last is not empty and not longer. "
  "A file that cannot be read to its end, or whose rate or number of channels is not that asked for, is refused (with a panic), and the given data is not changed.",
  [I, C], "all files, rates, mono and stereo, packet and page divisions, damaged and cut files",
  "Tests only check one embedded mono file.",
  ["res/embed.go"], [("reading", "res/embed.go ReadOggAudioFile")], ["frames, panics"])

p("C37", "A negotiated call carries sound and digits from end to end",
  "For all codec sets and encryption policies of two ends that negotiate, each end, set up from its own MediaConfig alone (session or SRTP session, RTP streams, the codec's EncodeRTP and DecodeRTP behind a mux and the jitter handler), sends every 20 ms frame of sound as one RTP packet of the agreed payload type, holding that frame in the agreed codec, consecutively numbered across sound and digits, with time stamps advancing by 20 ms of the codec's RTP clock. "
  "Whatever packets the network loses, repeats, reorders or delays, the other end hears each packet that comes in within the jitter buffer's time once and in order, decoded from the right codec state at the listener's sample rate, and each digit once, by its first packet. Hanging up ends the reader and its handlers once, and what is written afterwards is an error.",
  [I, C, S, F], "all codec sets, policies, sample rates of speakers and listeners, both directions; loss, duplication, reordering, delay, times of hanging up",
  "Tests exercise the parts one by one; no test runs a call.",
  ["rtp/codecs.go", "rtp/rtp.go", "rtp/jitter.go", "rtp/mux.go", "rtp/session.go", "srtp/srtp.go", "sdp/offer.go", "media.go", "dtmf/dtmf.go"],
  [("codec behind RTP", "rtp/codecs.go EncodeRTP/DecodeRTP"), ("reading loop and handlers", "rtp/rtp.go HandleLoop")],
  ["packets written, packets and digits handed to the listener's handlers in virtual time, PCM heard"])

p("C38", "Diagnostic dumps record codec chains without changing them",
  "For every codec information with a positive sample rate, NewAudioCodec makes a codec with that information (the RTP clock rate being the sample rate unless one is given); otherwise it panics. "
  "For every codec, direction, sample rate and sequence of writes, and every subset of LK_DUMP_MEDIA, LK_DUMP_G722 and LK_DUMP_RESAMPLE being true, the chain between PCM and RTP transfers the same as without dumps, with the same errors and its input unaltered; "
  "there is exactly one file per dumped place, named after the kind, the rate and the format of what passes there, holding exactly the bytes that passed there, in order - all of them once the chain is closed - so that files of one place are equal.",
  [I, S, F], "all codecs (also the user's own), both directions, sample rates, sizes of writes, failures of the far end, sets of dumps",
  "The switches are read at start from the environment; no test sets one.",
  ["rtp/codecs.go", "dump.go", "resample.go", "g722/g722.go", "media.go"],
  [("taps", "rtp/codecs.go EncodeRTP/DecodeRTP, g722/g722.go Encode/Decode, resample.go ResampleWriter"), ("file writer", "dump.go DumpWriter")],
  ["Info", "payloads, PCM, errors", "files in the working directory"])

p("C39", "A conference mixes what its callers send, in time, into one RTP stream",
  "For every set of callers that join and leave a room at any time and send sound by their own clocks in RTP packets of any number of 10 ms units, over networks that lose, repeat, reorder and delay packets, with each caller behind its own jitter handler, mux and G.711 decoder at an input of one mixer: the room sends exactly one RTP packet every tick of 20 ms from its start until it is stopped, consecutively numbered, with time stamps 160 apart, whose sound is the G.711 code of the saturated sum of the callers' frames. "
  "Every packet handed over in time is heard once and in order unless its input's queue overflowed (then the oldest sound is dropped and counted), a caller is heard again only after half of the queue filled after it ran dry, packets of other payload types change nothing, and a caller who left is not heard any more and disturbs nobody.",
  [I, C, S], "any numbers of callers, laws, queue depths, packet sizes, arrival schedules, joins, leaves, stop",
  "Tests exercise the mixer, the jitter buffer and the codec one by one, with one input or two.",
  ["mixer/mixer.go", "rtp/jitter.go", "rtp/mux.go", "rtp/codecs.go", "rtp/rtp.go", "jitter/jitter.go", "g711/g711.go"],
  [("room", "mixer/mixer.go NewMixer/NewInput, rtp/jitter.go HandleJitter, rtp/codecs.go EncodeRTP/DecodeRTP")],
  ["packets sent, in virtual time", "Stats"])
p("C40", "Chains of writers transfer what their stages transfer",
  "For every chain or tree of writers put together from the library's stages (FullFrames, MultiWriter, SwitchWriter, NopCloser, pairs of G.711 encoders and decoders, resamplers between equal rates) over writers which record, write to files or fail: each writer at the end is given exactly the samples that its path lets through, in order, in frames of the size that the path asks for, whatever the sizes of the writes, and regardless of what other branches do or fail to do. "
  "The caller's slice is left unaltered and may be used again at once. A write or a Close fails if and only if a stage that it reached failed. Closing the root reaches every attached writer after all of its samples, including held partial frames, and is not passed on by NopCloser; a SwitchWriter closes what it holds once and forgets it. Every tree has the sample rate of its leaves.",
  [I, C, F], "any trees of stages, write sizes, failures, switching and swapping between the writes",
  "Tests exercise single stages; how stages combine is exercised for one or two fixed chains.",
  ["media.go", "buffers.go", "pcm.go", "resample.go", "g711/ulaw.go", "g711/alaw.go", "g711/g711.go"],
  [("chain", "buffers.go FullFrames, media.go MultiWriter/SwitchWriter/NopCloser/NewFileWriter, g711 Encode*/Decode*")],
  ["frames given to the leaves", "errors", "Closes"])

if __name__ == "__main__":
    d = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(d, "properties.jsonl"), "w") as f:
        for x in P:
            f.write(json.dumps(x) + "\n")
    print(len(P), "properties")
