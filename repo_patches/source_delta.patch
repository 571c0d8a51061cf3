From 86daf10064e6600218f6c3a6372c2e9e7a524261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:03 +0000
Subject: [PATCH 01/47] fix: bits: reading zero bits at the end of the buffer
 panics

ReadBits(buf, pos, 0) passes the space check when the position is at the
end of the buffer, then indexes past it.
---
 pkg/bits/read.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/bits/read.go b/pkg/bits/read.go
index e6bf762..bd03c21 100644
--- a/pkg/bits/read.go
+++ b/pkg/bits/read.go
@@ -25,6 +25,11 @@ func ReadBits(buf []byte, pos *int, n int) (uint64, error) {
 
 // ReadBitsUnsafe reads N bits.
 func ReadBitsUnsafe(buf []byte, pos *int, n int) uint64 {
+	// there might be no byte to read from when the position is at the end of the buffer
+	if n == 0 {
+		return 0
+	}
+
 	res := 8 - (*pos & 0x07)
 	if n < res {
 		v := uint64((buf[*pos>>0x03] >> (res - n)) & (1<<n - 1))
-- 
2.43.0


From 8cda70e1fec57c6be2ccbc6654660ed70f132fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:03 +0000
Subject: [PATCH 02/47] fix: bits: wrong values of long Golomb codes

Codes with 32 leading zeros do not fit into 32 bits and were silently
wrapped around; signed codes greater than 2^31-1 had the wrong sign.
---
 pkg/bits/read.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/bits/read.go b/pkg/bits/read.go
index bd03c21..d749f00 100644
--- a/pkg/bits/read.go
+++ b/pkg/bits/read.go
@@ -72,7 +72,7 @@ func ReadGolombUnsigned(buf []byte, pos *int) (uint32, error) {
 		}
 
 		leadingZeros++
-		if leadingZeros > 32 {
+		if leadingZeros > 31 {
 			return 0, fmt.Errorf("invalid value")
 		}
 	}
@@ -101,11 +101,11 @@ func ReadGolombSigned(buf []byte, pos *int) (int32, error) {
 		return 0, err
 	}
 
-	vi := int32(v)
+	vi := int64(v)
 	if (vi & 0x01) != 0 {
-		return (vi + 1) / 2, nil
+		return int32((vi + 1) / 2), nil
 	}
-	return -vi / 2, nil
+	return int32(-vi / 2), nil
 }
 
 // ReadFlag reads a boolean flag.
-- 
2.43.0


From 3a16a90b9b498a436c60d4bd689703853f5539bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:12 +0000
Subject: [PATCH 03/47] fix: IsRandomAccess panics on empty NAL units and OBUs

---
 pkg/codecs/av1/is_random_access.go  | 4 ++++
 pkg/codecs/h264/is_random_access.go | 4 ++++
 pkg/codecs/h265/is_random_access.go | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/pkg/codecs/av1/is_random_access.go b/pkg/codecs/av1/is_random_access.go
index 56935c4..b1a8c33 100644
--- a/pkg/codecs/av1/is_random_access.go
+++ b/pkg/codecs/av1/is_random_access.go
@@ -27,6 +27,10 @@ func IsRandomAccess(tu [][]byte) (bool, error) {
 		return false, fmt.Errorf("temporal unit is empty")
 	}
 
+	if len(tu[0]) == 0 {
+		return false, fmt.Errorf("OBU is empty")
+	}
+
 	typ := OBUType((tu[0][0] >> 3) & 0b1111)
 
 	return (typ == OBUTypeSequenceHeader), nil
diff --git a/pkg/codecs/h264/is_random_access.go b/pkg/codecs/h264/is_random_access.go
index c1f1744..4ece4e1 100644
--- a/pkg/codecs/h264/is_random_access.go
+++ b/pkg/codecs/h264/is_random_access.go
@@ -3,6 +3,10 @@ package h264
 // IsRandomAccess checks whether the access unit can be randomly accessed.
 func IsRandomAccess(au [][]byte) bool {
 	for _, nalu := range au {
+		if len(nalu) == 0 {
+			continue
+		}
+
 		typ := NALUType(nalu[0] & 0x1F)
 		if typ == NALUTypeIDR {
 			return true
diff --git a/pkg/codecs/h265/is_random_access.go b/pkg/codecs/h265/is_random_access.go
index 837a0aa..6df36a0 100644
--- a/pkg/codecs/h265/is_random_access.go
+++ b/pkg/codecs/h265/is_random_access.go
@@ -3,6 +3,10 @@ package h265
 // IsRandomAccess checks whether the access unit can be randomly accessed.
 func IsRandomAccess(au [][]byte) bool {
 	for _, nalu := range au {
+		if len(nalu) == 0 {
+			continue
+		}
+
 		typ := NALUType((nalu[0] >> 1) & 0b111111)
 		switch typ {
 		case NALUType_IDR_W_RADL, NALUType_IDR_N_LP, NALUType_CRA_NUT:
-- 
2.43.0


From f39ea8af63deedd53d06017a9a877f8ea466a697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:25 +0000
Subject: [PATCH 04/47] fix: DTS extractors panic on empty NAL units

---
 pkg/codecs/h264/dts_extractor.go | 4 ++++
 pkg/codecs/h265/dts_extractor.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/pkg/codecs/h264/dts_extractor.go b/pkg/codecs/h264/dts_extractor.go
index 2d0f288..0f76298 100644
--- a/pkg/codecs/h264/dts_extractor.go
+++ b/pkg/codecs/h264/dts_extractor.go
@@ -112,6 +112,10 @@ func (d *DTSExtractor) extractInner(au [][]byte, pts int64) (int64, bool, error)
 
 outer:
 	for _, nalu := range au {
+		if len(nalu) == 0 {
+			continue
+		}
+
 		typ := NALUType(nalu[0] & 0x1F)
 		nonZeroNalRefIDFound = nonZeroNalRefIDFound || ((nalu[0] & 0x60) > 0)
 
diff --git a/pkg/codecs/h265/dts_extractor.go b/pkg/codecs/h265/dts_extractor.go
index ca52e6c..d5fdc36 100644
--- a/pkg/codecs/h265/dts_extractor.go
+++ b/pkg/codecs/h265/dts_extractor.go
@@ -158,6 +158,10 @@ func (d *DTSExtractor) extractInner(au [][]byte, pts int64) (int64, error) {
 
 outer:
 	for _, nalu := range au {
+		if len(nalu) == 0 {
+			continue
+		}
+
 		typ := NALUType((nalu[0] >> 1) & 0b111111)
 
 		switch typ {
-- 
2.43.0


From 3b0d52f33ba1ac6a314e2bd05bf4c40d5ad7ac79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:05 +0000
Subject: [PATCH 05/47] fix: av1: LEB128 values that exceed 32 bits are
 silently truncated

---
 pkg/codecs/av1/leb128.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pkg/codecs/av1/leb128.go b/pkg/codecs/av1/leb128.go
index fbb2783..6521971 100644
--- a/pkg/codecs/av1/leb128.go
+++ b/pkg/codecs/av1/leb128.go
@@ -2,6 +2,7 @@ package av1
 
 import (
 	"fmt"
+	"math"
 )
 
 // LEB128 is a unsigned integer that can be decoded/encoded from/to the LEB128 format.
@@ -12,6 +13,7 @@ type LEB128 uint32
 // It returns the number of consumed bytes.
 func (l *LEB128) Unmarshal(buf []byte) (int, error) {
 	*l = 0
+	v := uint64(0)
 	n := 0
 
 	for i := range 8 {
@@ -22,15 +24,20 @@ func (l *LEB128) Unmarshal(buf []byte) (int, error) {
 		var b byte
 		b, buf = buf[0], buf[1:]
 
-		*l |= (LEB128(b&0b01111111) << (i * 7))
+		v |= (uint64(b&0b01111111) << (i * 7))
 		n++
 
 		if (b & 0b10000000) == 0 {
-			break
+			if v > math.MaxUint32 {
+				return 0, fmt.Errorf("value exceeds 32 bits")
+			}
+
+			*l = LEB128(v)
+			return n, nil
 		}
 	}
 
-	return n, nil
+	return 0, fmt.Errorf("value exceeds 8 bytes")
 }
 
 // MarshalSize returns the marshal size in bytes of the unsigned integer in LEB128 format.
-- 
2.43.0


From b929c4ef9890cfe6434f86b5cd8c0fbdc6942195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:56 +0000
Subject: [PATCH 06/47] fix: h264: SPS.Width() ignores horizontal cropping when
 ChromaArrayType is zero

---
 pkg/codecs/h264/sps.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/codecs/h264/sps.go b/pkg/codecs/h264/sps.go
index 616c25e..4384947 100644
--- a/pkg/codecs/h264/sps.go
+++ b/pkg/codecs/h264/sps.go
@@ -740,7 +740,7 @@ func (s SPS) Width() int {
 
 	var cropUnitX uint32
 	if chromaArrayType == 0 {
-		cropUnitX = 0
+		cropUnitX = 1
 	} else {
 		cropUnitX = subWidthC
 	}
-- 
2.43.0


From a7394409e6a9cbc7640596a25b5599f4ce4e28e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:00 +0000
Subject: [PATCH 07/47] fix: av1: film_grain_params_present is read from the
 separate_uv_delta_q bit

---
 pkg/codecs/av1/sequence_header.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/codecs/av1/sequence_header.go b/pkg/codecs/av1/sequence_header.go
index 54129f2..e859afb 100644
--- a/pkg/codecs/av1/sequence_header.go
+++ b/pkg/codecs/av1/sequence_header.go
@@ -184,6 +184,13 @@ func (c *SequenceHeader_ColorConfig) unmarshal(seqProfile uint8, buf []byte, pos
 		}
 	}
 
+	if !c.MonoChrome {
+		_, err = bits.ReadFlag(buf, pos) // separate_uv_delta_q
+		if err != nil {
+			return err
+		}
+	}
+
 	return nil
 }
 
-- 
2.43.0


From a98e75f74edb3bb09ec1184a0f7e417d9c98086d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:00 +0000
Subject: [PATCH 08/47] fix: vp9: frames that show an existing frame are
 reported as random access points

---
 pkg/codecs/vp9/is_random_access.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/codecs/vp9/is_random_access.go b/pkg/codecs/vp9/is_random_access.go
index f8dfd3c..7208c0a 100644
--- a/pkg/codecs/vp9/is_random_access.go
+++ b/pkg/codecs/vp9/is_random_access.go
@@ -7,5 +7,5 @@ func IsRandomAccess(frame []byte) bool {
 	if err != nil {
 		return false
 	}
-	return !h.NonKeyFrame
+	return !h.ShowExistingFrame && !h.NonKeyFrame
 }
-- 
2.43.0


From d98f83d016390261d5a7794f732e5183d6335125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:10 +0000
Subject: [PATCH 09/47] fix: mpeg4audio: do not count channels in a truncated
 raw_data_block

---
 pkg/codecs/mpeg4audio/count_channels.go | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/pkg/codecs/mpeg4audio/count_channels.go b/pkg/codecs/mpeg4audio/count_channels.go
index 267b442..a70db4c 100644
--- a/pkg/codecs/mpeg4audio/count_channels.go
+++ b/pkg/codecs/mpeg4audio/count_channels.go
@@ -37,12 +37,13 @@ func CountChannelsFromRawDataBlock(au []byte) (int, error) {
 	channels := 0
 
 	// Parse elements until we hit END or run out of data
+loop:
 	for pos < len(au)*8 {
 		// Read id_syn_ele (3 bits)
 		idSynEle, err := bits.ReadBits(au, &pos, 3)
 		if err != nil {
 			// Ran out of bits - use what we've counted
-			break
+			break loop
 		}
 
 		switch idSynEle {
@@ -51,7 +52,7 @@ func CountChannelsFromRawDataBlock(au []byte) (int, error) {
 			// Skip element_instance_tag (4 bits)
 			_, err = bits.ReadBits(au, &pos, 4)
 			if err != nil {
-				break
+				break loop
 			}
 			channels++
 			// We can't easily skip the rest of the SCE without fully parsing it,
@@ -63,7 +64,7 @@ func CountChannelsFromRawDataBlock(au []byte) (int, error) {
 			// Skip element_instance_tag (4 bits)
 			_, err = bits.ReadBits(au, &pos, 4)
 			if err != nil {
-				break
+				break loop
 			}
 			channels += 2
 			return channels, nil
@@ -73,7 +74,7 @@ func CountChannelsFromRawDataBlock(au []byte) (int, error) {
 			// Skip element_instance_tag (4 bits)
 			_, err = bits.ReadBits(au, &pos, 4)
 			if err != nil {
-				break
+				break loop
 			}
 			channels++
 			return channels, nil
@@ -94,19 +95,19 @@ func CountChannelsFromRawDataBlock(au []byte) (int, error) {
 			// Skip element_instance_tag (4 bits)
 			_, err = bits.ReadBits(au, &pos, 4)
 			if err != nil {
-				break
+				break loop
 			}
 			// data_byte_align_flag (1 bit)
 			var alignFlag bool
 			alignFlag, err = bits.ReadFlag(au, &pos)
 			if err != nil {
-				break
+				break loop
 			}
 			// count (8 bits)
 			var count uint64
 			count, err = bits.ReadBits(au, &pos, 8)
 			if err != nil {
-				break
+				break loop
 			}
 			totalCount := int(count)
 			// If count == 255, read esc_count
@@ -114,7 +115,7 @@ func CountChannelsFromRawDataBlock(au []byte) (int, error) {
 				var escCount uint64
 				escCount, err = bits.ReadBits(au, &pos, 8)
 				if err != nil {
-					break
+					break loop
 				}
 				totalCount += int(escCount)
 			}
@@ -133,14 +134,14 @@ func CountChannelsFromRawDataBlock(au []byte) (int, error) {
 			var count uint64
 			count, err = bits.ReadBits(au, &pos, 4)
 			if err != nil {
-				break
+				break loop
 			}
 			totalCount := int(count)
 			if count == 15 {
 				var escCount uint64
 				escCount, err = bits.ReadBits(au, &pos, 8)
 				if err != nil {
-					break
+					break loop
 				}
 				totalCount += int(escCount) - 1
 			}
-- 
2.43.0


From 2393939d65e6f0050e5ee1e2c405ef8a02b336f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:10 +0000
Subject: [PATCH 10/47] fix: mpeg4audio: refuse access units that do not fit
 the ADTS and LATM length fields

---
 pkg/codecs/mpeg4audio/adts.go              | 5 +++++
 pkg/codecs/mpeg4audio/audio_sync_stream.go | 6 ++++++
 2 files changed, 11 insertions(+)

diff --git a/pkg/codecs/mpeg4audio/adts.go b/pkg/codecs/mpeg4audio/adts.go
index 4d661a9..9a636b8 100644
--- a/pkg/codecs/mpeg4audio/adts.go
+++ b/pkg/codecs/mpeg4audio/adts.go
@@ -161,6 +161,11 @@ func (ps ADTSPackets) Marshal() ([]byte, error) {
 
 		frameLen := len(pkt.AU) + 7
 
+		// frame length is encoded with 13 bits
+		if frameLen > 8191 {
+			return nil, fmt.Errorf("access unit size (%d) is too big", len(pkt.AU))
+		}
+
 		const fullness = 0x07FF // like ffmpeg does
 
 		buf[pos+0] = 0xFF
diff --git a/pkg/codecs/mpeg4audio/audio_sync_stream.go b/pkg/codecs/mpeg4audio/audio_sync_stream.go
index 2adb6f4..13ffad7 100644
--- a/pkg/codecs/mpeg4audio/audio_sync_stream.go
+++ b/pkg/codecs/mpeg4audio/audio_sync_stream.go
@@ -53,6 +53,12 @@ func (s AudioSyncStream) Marshal() ([]byte, error) {
 	for _, el := range s.AudioMuxElements {
 		shiftedSyncWord := 0x2B7 << 5
 		le := len(el)
+
+		// length is encoded with 13 bits
+		if le > 8191 {
+			return nil, fmt.Errorf("AudioMuxElement size (%d) is too big", le)
+		}
+
 		buf[n] = byte(shiftedSyncWord >> 8)
 		buf[n+1] = byte(shiftedSyncWord) | byte(le>>8)
 		buf[n+2] = byte(le)
-- 
2.43.0


From 1ebe54e8ab6c4cedd71c5d2c59c8dd2a734eb40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:23 +0000
Subject: [PATCH 11/47] fix: mpeg1audio: compute frame length of MPEG-2 layer 3
 frames from their sample count

---
 pkg/codecs/mpeg1audio/frame_header.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/codecs/mpeg1audio/frame_header.go b/pkg/codecs/mpeg1audio/frame_header.go
index 5e4c7a1..f5bd789 100644
--- a/pkg/codecs/mpeg1audio/frame_header.go
+++ b/pkg/codecs/mpeg1audio/frame_header.go
@@ -183,10 +183,13 @@ func (h *FrameHeader) Unmarshal(buf []byte) error {
 
 // FrameLen returns the length of the frame associated with the header.
 func (h FrameHeader) FrameLen() int {
+	// 8 bits per byte
+	factor := h.SampleCount() / 8
+
 	if h.Padding {
-		return (144 * h.Bitrate / h.SampleRate) + 1
+		return (factor * h.Bitrate / h.SampleRate) + 1
 	}
-	return (144 * h.Bitrate / h.SampleRate)
+	return (factor * h.Bitrate / h.SampleRate)
 }
 
 // SampleCount returns the number of samples contained into the frame.
-- 
2.43.0


From 6525338022fde136f72798fa2430f4fc8a1ab221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:23 +0000
Subject: [PATCH 12/47] fix: mpeg4video: do not panic when a configuration ends
 with a start code prefix

---
 pkg/codecs/mpeg4video/is_valid_config.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/codecs/mpeg4video/is_valid_config.go b/pkg/codecs/mpeg4video/is_valid_config.go
index 556e245..0e679f9 100644
--- a/pkg/codecs/mpeg4video/is_valid_config.go
+++ b/pkg/codecs/mpeg4video/is_valid_config.go
@@ -24,6 +24,11 @@ func IsValidConfig(config []byte) error {
 		}
 
 		pos += i
+
+		if pos+3 >= len(config) {
+			return fmt.Errorf("truncated start code")
+		}
+
 		startCode := StartCode(config[pos+3])
 
 		switch {
-- 
2.43.0


From 14b11aacd094cf020063d15836e8881fde86e2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:52 +0000
Subject: [PATCH 13/47] fix: keep coupled streams and channel mapping of mono
 Opus descriptors

Marshal wrote zeros in place of CoupledStreamCount and ChannelMapping when the
explicit channel count was 1, so that a descriptor did not survive a round trip.
---
 pkg/formats/mpegts/substructs/opus_audio_descriptor.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pkg/formats/mpegts/substructs/opus_audio_descriptor.go b/pkg/formats/mpegts/substructs/opus_audio_descriptor.go
index 94b0222..83b0572 100644
--- a/pkg/formats/mpegts/substructs/opus_audio_descriptor.go
+++ b/pkg/formats/mpegts/substructs/opus_audio_descriptor.go
@@ -136,7 +136,7 @@ func (d OpusAudioDescriptor) marshalSize() int {
 		}
 
 		if d.ExplicitChannelCount == 1 {
-			return 4
+			d.StreamCount = 1
 		}
 
 		bitsForStreamCountMinus1 := ceilLog2(d.ExplicitChannelCount)
@@ -166,8 +166,7 @@ func (d OpusAudioDescriptor) Marshal() ([]byte, error) {
 		}
 
 		if d.ExplicitChannelCount == 1 {
-			out[3] = 0
-			return out, nil
+			d.StreamCount = 1
 		}
 
 		bitsForStreamCountMinus1 := ceilLog2(d.ExplicitChannelCount)
@@ -185,7 +184,7 @@ func (d OpusAudioDescriptor) Marshal() ([]byte, error) {
 		}
 
 		for i := 0; i < d.ExplicitChannelCount; i++ {
-			if bitsPerMapping > 0 {
+			if bitsPerMapping > 0 && i < len(d.ChannelMapping) {
 				bits.WriteBitsUnsafe(out[packedOffset:], &pos, uint64(d.ChannelMapping[i]), bitsPerMapping)
 			}
 		}
-- 
2.43.0


From edab6c82a283ed4b99c3d60e1c5a7d1c34346853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:26 +0000
Subject: [PATCH 14/47] fix: PCR of asynchronous KLV leading tracks follows the
 PTS

WriteKLV passed a PTS of zero for asynchronous tracks, therefore the PCR of
a leading track never advanced.
---
 pkg/formats/mpegts/writer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/formats/mpegts/writer.go b/pkg/formats/mpegts/writer.go
index 56d0ee1..de11ac3 100644
--- a/pkg/formats/mpegts/writer.go
+++ b/pkg/formats/mpegts/writer.go
@@ -326,7 +326,7 @@ func (w *Writer) WriteKLV(
 		return w.writeData(track, true, pts, streamIDMetadata, out)
 	}
 
-	return w.writeData(track, false, 0, streamIDPrivate, unit)
+	return w.writeData(track, false, pts, streamIDPrivate, unit)
 }
 
 // WriteDVBSubtitle writes DVB subtitle data.
-- 
2.43.0


From 086dec552cd0ddd8c0cf3df9a964aa5bd3445766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:16 +0000
Subject: [PATCH 15/47] fix: BufferedReader lost the data returned by the
 source together with an error

---
 pkg/formats/mpegts/buffered_reader.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pkg/formats/mpegts/buffered_reader.go b/pkg/formats/mpegts/buffered_reader.go
index 87f9613..30d0701 100644
--- a/pkg/formats/mpegts/buffered_reader.go
+++ b/pkg/formats/mpegts/buffered_reader.go
@@ -12,6 +12,7 @@ type BufferedReader struct {
 	r         io.Reader
 	midbuf    []byte
 	midbufpos int
+	err       error
 }
 
 // NewBufferedReader allocates a BufferedReader.
@@ -32,11 +33,21 @@ func (r *BufferedReader) Read(p []byte) (int, error) {
 		return n, nil
 	}
 
+	if r.err != nil {
+		err := r.err
+		r.err = nil
+		return 0, err
+	}
+
 	mn, err := r.r.Read(r.midbuf[:cap(r.midbuf)])
-	if err != nil {
+	if mn == 0 && err != nil {
 		return 0, err
 	}
 
+	// data can be returned together with an error.
+	// in this case, return the error after the data.
+	r.err = err
+
 	if (mn % packetSize) != 0 {
 		return 0, fmt.Errorf("received packet with size %d not multiple of %d", mn, packetSize)
 	}
-- 
2.43.0


From 2efb3266c906e98f1792feae74b3e13e1c6c82b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:45 +0000
Subject: [PATCH 16/47] fix: mpegts: the reader failed to open streams when the
 first units of audio tracks are not in the order of the program map

---
 pkg/formats/mpegts/robust_demuxer.go |  25 +++++++
 pkg/formats/mpegts/track.go          | 100 +++++++++++----------------
 2 files changed, 66 insertions(+), 59 deletions(-)

diff --git a/pkg/formats/mpegts/robust_demuxer.go b/pkg/formats/mpegts/robust_demuxer.go
index c3fd978..11b5f03 100644
--- a/pkg/formats/mpegts/robust_demuxer.go
+++ b/pkg/formats/mpegts/robust_demuxer.go
@@ -125,6 +125,7 @@ type robustDemuxer struct {
 
 	dem            *astits.Demuxer
 	ptsInterceptor *ptsInterceptor
+	firstPESs      map[uint16]*astits.PESData
 }
 
 func (d *robustDemuxer) initialize() {
@@ -176,3 +177,27 @@ func (d *robustDemuxer) nextData() (*robustDemuxerData, error) {
 		}, nil
 	}
 }
+
+// firstPES returns the first unit of a track.
+// tracks can be asked in any order, therefore the first unit of each track is kept.
+func (d *robustDemuxer) firstPES(pid uint16) (*astits.PESData, error) {
+	for {
+		if pes, ok := d.firstPESs[pid]; ok {
+			return pes, nil
+		}
+
+		data, err := d.nextData()
+		if err != nil {
+			return nil, err
+		}
+
+		if data.PES != nil {
+			if _, ok := d.firstPESs[data.PID]; !ok {
+				if d.firstPESs == nil {
+					d.firstPESs = make(map[uint16]*astits.PESData)
+				}
+				d.firstPESs[data.PID] = data.PES
+			}
+		}
+	}
+}
diff --git a/pkg/formats/mpegts/track.go b/pkg/formats/mpegts/track.go
index 6ea285e..b646ce8 100644
--- a/pkg/formats/mpegts/track.go
+++ b/pkg/formats/mpegts/track.go
@@ -26,78 +26,60 @@ const (
 )
 
 func findMPEG4AudioConfig(dem *robustDemuxer, pid uint16) (*mpeg4audio.AudioSpecificConfig, error) {
-	for {
-		data, err := dem.nextData()
-		if err != nil {
-			return nil, err
-		}
-
-		if data.PES == nil || data.PID != pid {
-			continue
-		}
-
-		var adtsPkts mpeg4audio.ADTSPackets
-		err = adtsPkts.Unmarshal(data.PES.Data)
-		if err != nil {
-			return nil, fmt.Errorf("unable to decode ADTS: %w", err)
-		}
+	pes, err := dem.firstPES(pid)
+	if err != nil {
+		return nil, err
+	}
 
-		pkt := adtsPkts[0]
-		return &mpeg4audio.AudioSpecificConfig{
-			Type:          pkt.Type,
-			SampleRate:    pkt.SampleRate,
-			ChannelConfig: pkt.ChannelConfig,
-			ChannelCount:  pkt.ChannelCount, //nolint:staticcheck
-		}, nil
+	var adtsPkts mpeg4audio.ADTSPackets
+	err = adtsPkts.Unmarshal(pes.Data)
+	if err != nil {
+		return nil, fmt.Errorf("unable to decode ADTS: %w", err)
 	}
+
+	pkt := adtsPkts[0]
+	return &mpeg4audio.AudioSpecificConfig{
+		Type:          pkt.Type,
+		SampleRate:    pkt.SampleRate,
+		ChannelConfig: pkt.ChannelConfig,
+		ChannelCount:  pkt.ChannelCount, //nolint:staticcheck
+	}, nil
 }
 
 func findAC3Parameters(dem *robustDemuxer, pid uint16) (int, int, error) {
-	for {
-		data, err := dem.nextData()
-		if err != nil {
-			return 0, 0, err
-		}
-
-		if data.PES == nil || data.PID != pid {
-			continue
-		}
-
-		var syncInfo ac3.SyncInfo
-		err = syncInfo.Unmarshal(data.PES.Data)
-		if err != nil {
-			return 0, 0, fmt.Errorf("invalid AC-3 frame: %w", err)
-		}
+	pes, err := dem.firstPES(pid)
+	if err != nil {
+		return 0, 0, err
+	}
 
-		var bsi ac3.BSI
-		err = bsi.Unmarshal(data.PES.Data[5:])
-		if err != nil {
-			return 0, 0, fmt.Errorf("invalid AC-3 frame: %w", err)
-		}
+	var syncInfo ac3.SyncInfo
+	err = syncInfo.Unmarshal(pes.Data)
+	if err != nil {
+		return 0, 0, fmt.Errorf("invalid AC-3 frame: %w", err)
+	}
 
-		return syncInfo.SampleRate(), bsi.ChannelCount(), nil
+	var bsi ac3.BSI
+	err = bsi.Unmarshal(pes.Data[5:])
+	if err != nil {
+		return 0, 0, fmt.Errorf("invalid AC-3 frame: %w", err)
 	}
+
+	return syncInfo.SampleRate(), bsi.ChannelCount(), nil
 }
 
 func findEAC3Parameters(dem *robustDemuxer, pid uint16) (int, int, error) {
-	for {
-		data, err := dem.nextData()
-		if err != nil {
-			return 0, 0, err
-		}
-
-		if data.PES == nil || data.PID != pid {
-			continue
-		}
-
-		var syncInfo eac3.SyncInfo
-		err = syncInfo.Unmarshal(data.PES.Data)
-		if err != nil {
-			return 0, 0, fmt.Errorf("invalid E-AC-3 frame: %w", err)
-		}
+	pes, err := dem.firstPES(pid)
+	if err != nil {
+		return 0, 0, err
+	}
 
-		return syncInfo.SampleRate(), syncInfo.ChannelCount(), nil
+	var syncInfo eac3.SyncInfo
+	err = syncInfo.Unmarshal(pes.Data)
+	if err != nil {
+		return 0, 0, fmt.Errorf("invalid E-AC-3 frame: %w", err)
 	}
+
+	return syncInfo.SampleRate(), syncInfo.ChannelCount(), nil
 }
 
 func findRegistrationIdentifier(descriptors []*astits.Descriptor) (uint32, bool) {
-- 
2.43.0


From ef0660c5a6d9680d0a5bb8aa006ba19100aca04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:17 +0000
Subject: [PATCH 17/47] fix: fmp4: initialization files with user data boxes of
 unsupported types could not be read

---
 pkg/formats/fmp4/init.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/formats/fmp4/init.go b/pkg/formats/fmp4/init.go
index f4b46d7..4433c28 100644
--- a/pkg/formats/fmp4/init.go
+++ b/pkg/formats/fmp4/init.go
@@ -42,6 +42,10 @@ func (i *Init) Unmarshal(r io.ReadSeeker) error {
 			if len(h.Path) < 3 {
 				state = waitingTrak
 			} else {
+				if !h.BoxInfo.IsSupportedType() {
+					return nil, nil
+				}
+
 				box, _, err := h.ReadPayload()
 				if err != nil {
 					return nil, err
-- 
2.43.0


From 1d265a7aa73c82a32ae7e64645c14640c74179b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:19 +0000
Subject: [PATCH 18/47] fix: mp4: profile space and tier of H265 tracks were
 not written

---
 internal/mp4/codec_boxes.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/mp4/codec_boxes.go b/internal/mp4/codec_boxes.go
index eb04178..668a81e 100644
--- a/internal/mp4/codec_boxes.go
+++ b/internal/mp4/codec_boxes.go
@@ -753,6 +753,8 @@ func WriteCodecBoxes(w *Writer, codec codecs.Codec, trackID int, info *CodecInfo
 
 		_, err = w.WriteBox(&amp4.HvcC{ // <hvcC/>
 			ConfigurationVersion:        1,
+			GeneralProfileSpace:         info.H265SPS.ProfileTierLevel.GeneralProfileSpace,
+			GeneralTierFlag:             info.H265SPS.ProfileTierLevel.GeneralTierFlag == 1,
 			GeneralProfileIdc:           info.H265SPS.ProfileTierLevel.GeneralProfileIdc,
 			GeneralProfileCompatibility: info.H265SPS.ProfileTierLevel.GeneralProfileCompatibilityFlag,
 			GeneralConstraintIndicator: [6]uint8{
-- 
2.43.0


From 989fb398e4d9d44c36911abefbd22c40b1498821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:20 +0000
Subject: [PATCH 19/47] fix: mp4: writing FLAC tracks without stream
 information panicked

---
 internal/mp4/codec_info.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/mp4/codec_info.go b/internal/mp4/codec_info.go
index b92d13b..911a06b 100644
--- a/internal/mp4/codec_info.go
+++ b/internal/mp4/codec_info.go
@@ -103,7 +103,13 @@ func (ci *CodecInfo) Fill(codec codecs.Codec) error {
 		ci.Height = codec.Height
 		return nil
 
-	case *codecs.Opus, *codecs.MPEG4Audio, *codecs.MPEG1Audio, *codecs.AC3, *codecs.EAC3, *codecs.LPCM, *codecs.FLAC:
+	case *codecs.FLAC:
+		if codec.StreamInfo == nil {
+			return fmt.Errorf("FLAC parameters not provided")
+		}
+		return nil
+
+	case *codecs.Opus, *codecs.MPEG4Audio, *codecs.MPEG1Audio, *codecs.AC3, *codecs.EAC3, *codecs.LPCM:
 		return nil
 
 	default:
-- 
2.43.0


From 78584c653648d1218edb3ab05d2abc72614317dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:37 +0000
Subject: [PATCH 20/47] fix: fmp4: initialization files with user data boxes
 that are only valid inside udta could not be written

---
 internal/mp4/writer.go   | 21 ++++++++++++++++++++-
 pkg/formats/fmp4/init.go |  2 +-
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/internal/mp4/writer.go b/internal/mp4/writer.go
index e6b4875..5d066dd 100644
--- a/internal/mp4/writer.go
+++ b/internal/mp4/writer.go
@@ -21,6 +21,10 @@ func (w *Writer) Initialize() {
 
 // WriteBoxStart writes a box start.
 func (w *Writer) WriteBoxStart(box amp4.IImmutableBox) (int, error) {
+	return w.writeBoxStart(box, amp4.Context{})
+}
+
+func (w *Writer) writeBoxStart(box amp4.IImmutableBox, ctx amp4.Context) (int, error) {
 	bi := &amp4.BoxInfo{
 		Type: box.GetType(),
 	}
@@ -30,7 +34,7 @@ func (w *Writer) WriteBoxStart(box amp4.IImmutableBox) (int, error) {
 		return 0, err
 	}
 
-	_, err = amp4.Marshal(w.mw, box, amp4.Context{})
+	_, err = amp4.Marshal(w.mw, box, ctx)
 	if err != nil {
 		return 0, err
 	}
@@ -59,6 +63,21 @@ func (w *Writer) WriteBox(box amp4.IImmutableBox) (int, error) {
 	return off, nil
 }
 
+// WriteUserDataBox writes a box that is inside an udta box.
+func (w *Writer) WriteUserDataBox(box amp4.IImmutableBox) (int, error) {
+	off, err := w.writeBoxStart(box, amp4.Context{UnderUdta: true})
+	if err != nil {
+		return 0, err
+	}
+
+	err = w.WriteBoxEnd()
+	if err != nil {
+		return 0, err
+	}
+
+	return off, nil
+}
+
 // RewriteBox rewrites a box.
 func (w *Writer) RewriteBox(off int, box amp4.IImmutableBox) error {
 	prevOff, err := w.mw.Seek(0, io.SeekCurrent)
diff --git a/pkg/formats/fmp4/init.go b/pkg/formats/fmp4/init.go
index 4433c28..7cbcb7d 100644
--- a/pkg/formats/fmp4/init.go
+++ b/pkg/formats/fmp4/init.go
@@ -272,7 +272,7 @@ func (i Init) Marshal(w io.WriteSeeker) error {
 		}
 
 		for _, box := range i.UserData {
-			_, err = mw.WriteBox(box)
+			_, err = mw.WriteUserDataBox(box)
 			if err != nil {
 				return err
 			}
-- 
2.43.0


From 957ec1622a0753eb51b577c306337590b46738f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:51 +0000
Subject: [PATCH 21/47] fix: fmp4: the limit on the number of samples was not
 applied to trun boxes with a 64-bit header

---
 pkg/formats/fmp4/parts.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pkg/formats/fmp4/parts.go b/pkg/formats/fmp4/parts.go
index e055ac8..1888f1c 100644
--- a/pkg/formats/fmp4/parts.go
+++ b/pkg/formats/fmp4/parts.go
@@ -111,9 +111,11 @@ func (ps *Parts) Unmarshal(byts []byte) error {
 				}
 
 				// prevent RAM exhaustion due to unlimited Trun unmarshaling
-				rawBox := byts[h.BoxInfo.Offset:]
-				if len(rawBox) >= 16 {
-					sampleCount := uint32(rawBox[12])<<24 | uint32(rawBox[13])<<16 | uint32(rawBox[14])<<8 | uint32(rawBox[15])
+				// (the sample count follows the header and version / flags)
+				rawPayload := byts[h.BoxInfo.Offset+h.BoxInfo.HeaderSize:]
+				if len(rawPayload) >= 8 {
+					sampleCount := uint32(rawPayload[4])<<24 | uint32(rawPayload[5])<<16 |
+						uint32(rawPayload[6])<<8 | uint32(rawPayload[7])
 					if sampleCount > maxSamplesPerTrun {
 						return nil, fmt.Errorf("sample count (%d) exceeds maximum (%d)", sampleCount, maxSamplesPerTrun)
 					}
-- 
2.43.0


From dbd06857a1e94cbbc63fc53331c785827dc3ce16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:52 +0000
Subject: [PATCH 22/47] fix: fmp4: flags of the first sample of a trun box were
 ignored

---
 pkg/formats/fmp4/part.go  | 1 +
 pkg/formats/fmp4/parts.go | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/pkg/formats/fmp4/part.go b/pkg/formats/fmp4/part.go
index 349f262..8372c23 100644
--- a/pkg/formats/fmp4/part.go
+++ b/pkg/formats/fmp4/part.go
@@ -10,6 +10,7 @@ import (
 
 const (
 	trunFlagDataOffsetPreset                       = 0x01
+	trunFlagFirstSampleFlagsPresent                = 0x04
 	trunFlagSampleDurationPresent                  = 0x100
 	trunFlagSampleSizePresent                      = 0x200
 	trunFlagSampleFlagsPresent                     = 0x400
diff --git a/pkg/formats/fmp4/parts.go b/pkg/formats/fmp4/parts.go
index 1888f1c..13d364b 100644
--- a/pkg/formats/fmp4/parts.go
+++ b/pkg/formats/fmp4/parts.go
@@ -163,6 +163,8 @@ func (ps *Parts) Unmarshal(byts []byte) error {
 						var sampleFlags uint32
 						if (trunFlags & trunFlagSampleFlagsPresent) != 0 {
 							sampleFlags = e.SampleFlags
+						} else if i == 0 && (trunFlags&trunFlagFirstSampleFlagsPresent) != 0 {
+							sampleFlags = trun.FirstSampleFlags
 						} else {
 							sampleFlags = tfhd.DefaultSampleFlags
 						}
-- 
2.43.0


From c307b73319e111970b07f419dba907aab90ba067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:58 +0000
Subject: [PATCH 23/47] fix: pmp4: division by zero with invalid stsc boxes

---
 pkg/formats/pmp4/presentation.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/formats/pmp4/presentation.go b/pkg/formats/pmp4/presentation.go
index bb7466f..f73b07d 100644
--- a/pkg/formats/pmp4/presentation.go
+++ b/pkg/formats/pmp4/presentation.go
@@ -280,6 +280,10 @@ func (p *Presentation) Unmarshal(r io.ReadSeeker) error {
 				sampleCount := 0
 
 				for i, entry := range stsc.Entries {
+					if entry.SamplesPerChunk == 0 {
+						return nil, fmt.Errorf("invalid stsc")
+					}
+
 					var chunkCount uint32
 					if i != (len(stsc.Entries) - 1) {
 						chunkCount = stsc.Entries[i+1].FirstChunk - entry.FirstChunk
@@ -295,10 +299,6 @@ func (p *Presentation) Unmarshal(r io.ReadSeeker) error {
 						return nil, fmt.Errorf("invalid stsc")
 					}
 
-					if entry.SamplesPerChunk == 0 {
-						return nil, fmt.Errorf("invalid stsc")
-					}
-
 					for range chunkCount {
 						if (sampleCount + int(entry.SamplesPerChunk)) > len(curTrack.Samples) {
 							return nil, fmt.Errorf("invalid stsc")
-- 
2.43.0


From d28c4419cf50389c283aec44ae4919332de17cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:59 +0000
Subject: [PATCH 24/47] fix: pmp4: index out of range when there is more than
 one stsc box

---
 pkg/formats/pmp4/presentation.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/formats/pmp4/presentation.go b/pkg/formats/pmp4/presentation.go
index f73b07d..241a79c 100644
--- a/pkg/formats/pmp4/presentation.go
+++ b/pkg/formats/pmp4/presentation.go
@@ -276,6 +276,10 @@ func (p *Presentation) Unmarshal(r io.ReadSeeker) error {
 			}
 			stsc := box.(*amp4.Stsc)
 
+			if curChunks != nil {
+				return nil, fmt.Errorf("unexpected box '%v'", h.BoxInfo.Type)
+			}
+
 			if len(stsc.Entries) != 0 {
 				sampleCount := 0
 
-- 
2.43.0


From 89f882422340ad5c245f395690753267cd7d0bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:00 +0000
Subject: [PATCH 25/47] fix: pmp4: samples without a chunk offset had no
 payload getter

---
 pkg/formats/pmp4/presentation.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/formats/pmp4/presentation.go b/pkg/formats/pmp4/presentation.go
index 241a79c..99defc8 100644
--- a/pkg/formats/pmp4/presentation.go
+++ b/pkg/formats/pmp4/presentation.go
@@ -395,6 +395,14 @@ func (p *Presentation) Unmarshal(r io.ReadSeeker) error {
 		return fmt.Errorf("no tracks found")
 	}
 
+	for _, track := range p.Tracks {
+		for _, sample := range track.Samples {
+			if sample.GetPayload == nil {
+				return fmt.Errorf("chunk offsets not found")
+			}
+		}
+	}
+
 	return nil
 }
 
-- 
2.43.0


From ffdcfab388188db336cd8ac78dfc8dcf15b6f936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:01 +0000
Subject: [PATCH 26/47] fix: pmp4: seek errors were ignored when reading
 payloads

---
 pkg/formats/pmp4/presentation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/formats/pmp4/presentation.go b/pkg/formats/pmp4/presentation.go
index 99defc8..f3c7386 100644
--- a/pkg/formats/pmp4/presentation.go
+++ b/pkg/formats/pmp4/presentation.go
@@ -366,7 +366,7 @@ func (p *Presentation) Unmarshal(r io.ReadSeeker) error {
 
 					curTrack.Samples[i].GetPayload = func() ([]byte, error) {
 						_, err2 := r.Seek(int64(sampleOffset), io.SeekStart)
-						if err != nil {
+						if err2 != nil {
 							return nil, err2
 						}
 
-- 
2.43.0


From 337cd5077bddbc580b27b800ad7d6792320d567e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:02 +0000
Subject: [PATCH 27/47] fix: pmp4: time offset was wrong when the mdhd box is
 in its 64-bit version

---
 pkg/formats/pmp4/presentation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/formats/pmp4/presentation.go b/pkg/formats/pmp4/presentation.go
index f3c7386..b53ad6c 100644
--- a/pkg/formats/pmp4/presentation.go
+++ b/pkg/formats/pmp4/presentation.go
@@ -168,7 +168,7 @@ func (p *Presentation) Unmarshal(r io.ReadSeeker) error {
 			}
 
 			curTrack.TimeScale = mdhd.Timescale
-			trackDuration = mdhd.DurationV0
+			trackDuration = uint32(mdhd.GetDuration())
 			state = waitingStsd
 
 		case "minf", "stbl":
-- 
2.43.0


From 386b8defd9914d0d5fbf7db0c619e2f9f49bde0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:03 +0000
Subject: [PATCH 28/47] fix: pmp4: presentations without edit lists could not
 be read

---
 pkg/formats/pmp4/presentation.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/formats/pmp4/presentation.go b/pkg/formats/pmp4/presentation.go
index b53ad6c..0ead4e6 100644
--- a/pkg/formats/pmp4/presentation.go
+++ b/pkg/formats/pmp4/presentation.go
@@ -146,10 +146,11 @@ func (p *Presentation) Unmarshal(r io.ReadSeeker) error {
 			state = waitingMdhd
 
 		case "mdia":
-			if state != waitingMdhd {
+			if state != waitingElst && state != waitingMdhd {
 				return nil, fmt.Errorf("unexpected box '%v'", h.BoxInfo.Type)
 			}
 
+			state = waitingMdhd
 			return h.Expand()
 
 		case "mdhd":
-- 
2.43.0


From 4d6d31a6a4b72a7a82c33cb70130bd7301a598d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:04 +0000
Subject: [PATCH 29/47] fix: pmp4: presentations with samples of the same size,
 declared once, could not be read

---
 pkg/formats/pmp4/presentation.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pkg/formats/pmp4/presentation.go b/pkg/formats/pmp4/presentation.go
index 0ead4e6..3a276bf 100644
--- a/pkg/formats/pmp4/presentation.go
+++ b/pkg/formats/pmp4/presentation.go
@@ -329,7 +329,18 @@ func (p *Presentation) Unmarshal(r io.ReadSeeker) error {
 			}
 			stsz := box.(*amp4.Stsz)
 
-			curSampleSizes = stsz.EntrySize
+			if stsz.SampleSize != 0 {
+				if int(stsz.SampleCount) != len(curTrack.Samples) {
+					return nil, fmt.Errorf("invalid stsz")
+				}
+
+				curSampleSizes = make([]uint32, stsz.SampleCount)
+				for i := range curSampleSizes {
+					curSampleSizes[i] = stsz.SampleSize
+				}
+			} else {
+				curSampleSizes = stsz.EntrySize
+			}
 
 		case "stco":
 			if state != waitingSampleProps {
-- 
2.43.0


From f2fa22ef40a13ac3668c17782a7f863a1173f511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:21 +0000
Subject: [PATCH 30/47] fix: pmp4: presentations that exceed 4 GB were written
 with wrong offsets

---
 pkg/formats/pmp4/presentation.go | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/pkg/formats/pmp4/presentation.go b/pkg/formats/pmp4/presentation.go
index 3a276bf..40179c1 100644
--- a/pkg/formats/pmp4/presentation.go
+++ b/pkg/formats/pmp4/presentation.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"math"
 	"time"
 
 	amp4 "github.com/abema/go-mp4"
@@ -430,9 +431,12 @@ func (p Presentation) Marshal(w io.Writer) error {
 		|mdat|
 	*/
 
-	dataSize, sortedSamples := p.sortSamples()
+	dataSize, sortedSamples, err := p.sortSamples()
+	if err != nil {
+		return err
+	}
 
-	err := p.marshalFtypAndMoov(w)
+	err = p.marshalFtypAndMoov(w, dataSize)
 	if err != nil {
 		return err
 	}
@@ -440,7 +444,7 @@ func (p Presentation) Marshal(w io.Writer) error {
 	return p.marshalMdat(w, dataSize, sortedSamples)
 }
 
-func (p *Presentation) sortSamples() (uint32, []*Sample) {
+func (p *Presentation) sortSamples() (uint32, []*Sample, error) {
 	sampleCount := 0
 	for _, track := range p.Tracks {
 		sampleCount += len(track.Samples)
@@ -478,6 +482,10 @@ func (p *Presentation) sortSamples() (uint32, []*Sample) {
 		sample := p.Tracks[bestTrack].Samples[processedSamples[bestTrack]]
 		sample.offset = offset
 
+		if uint64(offset)+uint64(sample.PayloadSize) > math.MaxUint32 {
+			return 0, nil, fmt.Errorf("presentation is too big")
+		}
+
 		processedSamples[bestTrack]++
 		elapsed[bestTrack] += int64(sample.Duration)
 		offset += sample.PayloadSize
@@ -485,10 +493,10 @@ func (p *Presentation) sortSamples() (uint32, []*Sample) {
 		pos++
 	}
 
-	return offset, sortedSamples
+	return offset, sortedSamples, nil
 }
 
-func (p *Presentation) marshalFtypAndMoov(w io.Writer) error {
+func (p *Presentation) marshalFtypAndMoov(w io.Writer, dataSize uint32) error {
 	var outBuf seekablebuffer.Buffer
 	mw := &imp4.Writer{W: &outBuf}
 	mw.Initialize()
@@ -559,6 +567,11 @@ func (p *Presentation) marshalFtypAndMoov(w io.Writer) error {
 
 	dataOffset := moovEndOffset + 8
 
+	// chunk offsets and the size of mdat are 32-bit
+	if dataOffset+int64(dataSize) > math.MaxUint32 {
+		return fmt.Errorf("presentation is too big")
+	}
+
 	for i := range p.Tracks {
 		for j := range stcos[i].ChunkOffset {
 			stcos[i].ChunkOffset[j] += uint32(dataOffset)
-- 
2.43.0


From 5d504bf041804121a0148638e38e4d55a1e89182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:05 +0000
Subject: [PATCH 31/47] fix: pmp4: samples that exceed the file caused memory
 exhaustion when reading their payload

---
 pkg/formats/pmp4/presentation.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pkg/formats/pmp4/presentation.go b/pkg/formats/pmp4/presentation.go
index 40179c1..125168c 100644
--- a/pkg/formats/pmp4/presentation.go
+++ b/pkg/formats/pmp4/presentation.go
@@ -378,7 +378,16 @@ func (p *Presentation) Unmarshal(r io.ReadSeeker) error {
 					curTrack.Samples[i].PayloadSize = sampleSize
 
 					curTrack.Samples[i].GetPayload = func() ([]byte, error) {
-						_, err2 := r.Seek(int64(sampleOffset), io.SeekStart)
+						// prevent RAM exhaustion due to invalid sample sizes
+						end, err2 := r.Seek(0, io.SeekEnd)
+						if err2 != nil {
+							return nil, err2
+						}
+						if sampleSize != 0 && (int64(sampleOffset)+int64(sampleSize)) > end {
+							return nil, io.ErrUnexpectedEOF
+						}
+
+						_, err2 = r.Seek(int64(sampleOffset), io.SeekStart)
 						if err2 != nil {
 							return nil, err2
 						}
-- 
2.43.0


From 938c186877462b8dccfa52688c0be2f076dfc2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:34 +0000
Subject: [PATCH 32/47] fix: mpegts: KLV units of more than 256 cells could not
 be read

---
 pkg/formats/mpegts/reader.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pkg/formats/mpegts/reader.go b/pkg/formats/mpegts/reader.go
index ee8b6fd..1bcc69b 100644
--- a/pkg/formats/mpegts/reader.go
+++ b/pkg/formats/mpegts/reader.go
@@ -67,7 +67,8 @@ func findPMT(dem *robustDemuxer) (*astits.PMTData, error) {
 }
 
 func readMetadataAUWrapper(in []byte) ([]byte, error) {
-	expectedSeqNum := 0
+	// sequence_number is 8-bit and wraps
+	expectedSeqNum := uint8(0)
 
 	var au substructs.MetadataAUCell
 	n, err := au.Unmarshal(in)
@@ -75,7 +76,7 @@ func readMetadataAUWrapper(in []byte) ([]byte, error) {
 		return nil, err
 	}
 
-	if int(au.SequenceNumber) != expectedSeqNum {
+	if au.SequenceNumber != expectedSeqNum {
 		return nil, fmt.Errorf("unexpected sequence number: %d, expected %d", au.SequenceNumber, expectedSeqNum)
 	}
 	expectedSeqNum++
@@ -103,7 +104,7 @@ func readMetadataAUWrapper(in []byte) ([]byte, error) {
 		}
 		n += n2
 
-		if int(au.SequenceNumber) != expectedSeqNum {
+		if au.SequenceNumber != expectedSeqNum {
 			return nil, fmt.Errorf("unexpected sequence number: %d, expected %d", au.SequenceNumber, expectedSeqNum)
 		}
 		expectedSeqNum++
-- 
2.43.0


From 6660a92d19ee456fff376de96bbf83aec5308a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:33 +0000
Subject: [PATCH 33/47] fix: h264: SPS decoded into a used object kept the
 scaling lists of the previous one

---
 pkg/codecs/h264/sps.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/codecs/h264/sps.go b/pkg/codecs/h264/sps.go
index 4384947..61da438 100644
--- a/pkg/codecs/h264/sps.go
+++ b/pkg/codecs/h264/sps.go
@@ -485,6 +485,11 @@ func (s *SPS) Unmarshal(buf []byte) error {
 		return err
 	}
 
+	s.ScalingList4x4 = nil
+	s.UseDefaultScalingMatrix4x4Flag = nil
+	s.ScalingList8x8 = nil
+	s.UseDefaultScalingMatrix8x8Flag = nil
+
 	switch s.ProfileIdc {
 	case 100, 110, 122, 244, 44, 83, 86, 118, 128, 138, 139, 134, 135:
 		s.ChromaFormatIdc, err = bits.ReadGolombUnsigned(buf, &pos)
-- 
2.43.0


From f1a045738c03414c439ad968fc56b45e4927dd00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:33 +0000
Subject: [PATCH 34/47] fix: h265: SPS decoded into a used object kept fields
 of the previous one

---
 pkg/codecs/h265/sps.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/codecs/h265/sps.go b/pkg/codecs/h265/sps.go
index 44fda20..7e3cf94 100644
--- a/pkg/codecs/h265/sps.go
+++ b/pkg/codecs/h265/sps.go
@@ -667,6 +667,8 @@ type SPS struct {
 
 // Unmarshal decodes a SPS from bytes.
 func (s *SPS) Unmarshal(buf []byte) error {
+	*s = SPS{}
+
 	if len(buf) < 2 {
 		return fmt.Errorf("not enough bits")
 	}
-- 
2.43.0


From f655ab9f00b56e494ae1fe3e9df83a8f654bea45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:33 +0000
Subject: [PATCH 35/47] fix: av1: bitstreams and sequence headers decoded into
 a used object kept parts of the previous one

---
 pkg/codecs/av1/bitstream.go       | 2 ++
 pkg/codecs/av1/sequence_header.go | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/pkg/codecs/av1/bitstream.go b/pkg/codecs/av1/bitstream.go
index dab3800..652ae83 100644
--- a/pkg/codecs/av1/bitstream.go
+++ b/pkg/codecs/av1/bitstream.go
@@ -10,6 +10,8 @@ type Bitstream [][]byte
 
 // Unmarshal decodes a Bitstream.
 func (bs *Bitstream) Unmarshal(buf []byte) error {
+	*bs = nil
+
 	for {
 		var h OBUHeader
 		err := h.Unmarshal(buf)
diff --git a/pkg/codecs/av1/sequence_header.go b/pkg/codecs/av1/sequence_header.go
index e859afb..f3c03f2 100644
--- a/pkg/codecs/av1/sequence_header.go
+++ b/pkg/codecs/av1/sequence_header.go
@@ -269,6 +269,8 @@ type SequenceHeader struct {
 
 // Unmarshal decodes a SequenceHeader.
 func (h *SequenceHeader) Unmarshal(buf []byte) error {
+	*h = SequenceHeader{}
+
 	var oh OBUHeader
 	err := oh.Unmarshal(buf)
 	if err != nil {
-- 
2.43.0


From 1ee0a9ea7451c7872e427a7abe5814b1f2f564b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:33 +0000
Subject: [PATCH 36/47] fix: vp9: headers decoded into a used object kept
 fields of the previous one

---
 pkg/codecs/vp9/header.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/codecs/vp9/header.go b/pkg/codecs/vp9/header.go
index c483792..6bea90d 100644
--- a/pkg/codecs/vp9/header.go
+++ b/pkg/codecs/vp9/header.go
@@ -108,6 +108,8 @@ type Header struct {
 
 // Unmarshal decodes a Header.
 func (h *Header) Unmarshal(buf []byte) error {
+	*h = Header{}
+
 	pos := 0
 
 	err := bits.HasSpace(buf, pos, 4)
-- 
2.43.0


From 2a09587b1d95f346581d5ac9178775cfb7eb0da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:33 +0000
Subject: [PATCH 37/47] fix: jpeg: quantization tables decoded into a used
 object were added to the previous ones

---
 pkg/codecs/jpeg/define_quantization_table.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/codecs/jpeg/define_quantization_table.go b/pkg/codecs/jpeg/define_quantization_table.go
index 6234c8c..ea32423 100644
--- a/pkg/codecs/jpeg/define_quantization_table.go
+++ b/pkg/codecs/jpeg/define_quantization_table.go
@@ -18,6 +18,8 @@ type DefineQuantizationTable struct {
 
 // Unmarshal decodes the marker.
 func (m *DefineQuantizationTable) Unmarshal(buf []byte) error {
+	m.Tables = nil
+
 	for len(buf) != 0 {
 		id := buf[0] & 0x0F
 		precision := buf[0] >> 4
-- 
2.43.0


From 0b8255a865183af5b138de04fc3014a7469d0bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:33 +0000
Subject: [PATCH 38/47] fix: eac3: sync information decoded into a used object
 kept fscod2 of the previous one

---
 pkg/codecs/eac3/sync_info.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/codecs/eac3/sync_info.go b/pkg/codecs/eac3/sync_info.go
index 2a0cd5e..a905d62 100644
--- a/pkg/codecs/eac3/sync_info.go
+++ b/pkg/codecs/eac3/sync_info.go
@@ -86,6 +86,8 @@ func (s *SyncInfo) Unmarshal(frame []byte) error {
 		// numblkscod is implicitly 0b11 (6 blocks) when fscod == 0b11
 		s.Numblkscod = 0b11
 	} else {
+		s.Fscod2 = 0
+
 		// numblkscod (2 bits)
 		s.Numblkscod = uint8(bits.ReadBitsUnsafe(frame, &pos, 2))
 	}
-- 
2.43.0


From 26036ccde8c88f22fa93335ba4db670531c9eec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:33 +0000
Subject: [PATCH 39/47] fix: mpeg4audio: objects that had been used kept parts
 of the previous content when decoding

---
 pkg/codecs/mpeg4audio/adts.go                  | 2 ++
 pkg/codecs/mpeg4audio/audio_specific_config.go | 2 ++
 pkg/codecs/mpeg4audio/audio_sync_stream.go     | 2 ++
 pkg/codecs/mpeg4audio/stream_mux_config.go     | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/pkg/codecs/mpeg4audio/adts.go b/pkg/codecs/mpeg4audio/adts.go
index 9a636b8..1f94281 100644
--- a/pkg/codecs/mpeg4audio/adts.go
+++ b/pkg/codecs/mpeg4audio/adts.go
@@ -27,6 +27,8 @@ type ADTSPackets []*ADTSPacket
 
 // Unmarshal decodes an ADTS stream into ADTS packets.
 func (ps *ADTSPackets) Unmarshal(buf []byte) error {
+	*ps = nil
+
 	bl := len(buf)
 	pos := 0
 
diff --git a/pkg/codecs/mpeg4audio/audio_specific_config.go b/pkg/codecs/mpeg4audio/audio_specific_config.go
index adb3528..11d6912 100644
--- a/pkg/codecs/mpeg4audio/audio_specific_config.go
+++ b/pkg/codecs/mpeg4audio/audio_specific_config.go
@@ -56,6 +56,8 @@ func (c *AudioSpecificConfig) UnmarshalFromPos(buf []byte, pos *int) error {
 
 // unmarshalBits decodes a AudioSpecificConfig.
 func (c *AudioSpecificConfig) unmarshalBits(buf []byte, pos *int) error {
+	*c = AudioSpecificConfig{}
+
 	tmp, err := bits.ReadBits(buf, pos, 5)
 	if err != nil {
 		return err
diff --git a/pkg/codecs/mpeg4audio/audio_sync_stream.go b/pkg/codecs/mpeg4audio/audio_sync_stream.go
index 13ffad7..b35dc3d 100644
--- a/pkg/codecs/mpeg4audio/audio_sync_stream.go
+++ b/pkg/codecs/mpeg4audio/audio_sync_stream.go
@@ -10,6 +10,8 @@ type AudioSyncStream struct {
 
 // Unmarshal decodes an AudioSyncStream.
 func (s *AudioSyncStream) Unmarshal(buf []byte) error {
+	s.AudioMuxElements = nil
+
 	for {
 		if len(buf) < 3 {
 			return fmt.Errorf("buffer is too short")
diff --git a/pkg/codecs/mpeg4audio/stream_mux_config.go b/pkg/codecs/mpeg4audio/stream_mux_config.go
index 6362170..3d5669d 100644
--- a/pkg/codecs/mpeg4audio/stream_mux_config.go
+++ b/pkg/codecs/mpeg4audio/stream_mux_config.go
@@ -54,6 +54,8 @@ func (c *StreamMuxConfig) Unmarshal(buf []byte) error {
 
 // unmarshalBits decodes a StreamMuxConfig.
 func (c *StreamMuxConfig) unmarshalBits(buf []byte, pos *int) error {
+	*c = StreamMuxConfig{}
+
 	err := bits.HasSpace(buf, *pos, 12)
 	if err != nil {
 		return err
-- 
2.43.0


From a1085c8624fbd1cfee0d4fad9f0c4dcdb29275b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:33 +0000
Subject: [PATCH 40/47] fix: mpegts: descriptors and Opus headers decoded into
 a used object kept fields of the previous one

---
 pkg/formats/mpegts/substructs/metadata_descriptor.go   | 2 ++
 pkg/formats/mpegts/substructs/opus_audio_descriptor.go | 2 ++
 pkg/formats/mpegts/substructs/opus_control_header.go   | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/pkg/formats/mpegts/substructs/metadata_descriptor.go b/pkg/formats/mpegts/substructs/metadata_descriptor.go
index 3deee9f..ea7b40c 100644
--- a/pkg/formats/mpegts/substructs/metadata_descriptor.go
+++ b/pkg/formats/mpegts/substructs/metadata_descriptor.go
@@ -48,6 +48,8 @@ type MetadataDescriptor struct {
 
 // Unmarshal decodes a MetadataDescriptor.
 func (d *MetadataDescriptor) Unmarshal(buf []byte) error {
+	*d = MetadataDescriptor{}
+
 	n := 0
 
 	if len(buf[n:]) < 2 {
diff --git a/pkg/formats/mpegts/substructs/opus_audio_descriptor.go b/pkg/formats/mpegts/substructs/opus_audio_descriptor.go
index 83b0572..9e64417 100644
--- a/pkg/formats/mpegts/substructs/opus_audio_descriptor.go
+++ b/pkg/formats/mpegts/substructs/opus_audio_descriptor.go
@@ -61,6 +61,8 @@ type OpusAudioDescriptor struct {
 
 // Unmarshal decodes an AudioDescriptor.
 func (d *OpusAudioDescriptor) Unmarshal(buf []byte) error {
+	*d = OpusAudioDescriptor{}
+
 	if len(buf) < 1 {
 		return fmt.Errorf("buffer is too short")
 	}
diff --git a/pkg/formats/mpegts/substructs/opus_control_header.go b/pkg/formats/mpegts/substructs/opus_control_header.go
index 76d40ba..19595c9 100644
--- a/pkg/formats/mpegts/substructs/opus_control_header.go
+++ b/pkg/formats/mpegts/substructs/opus_control_header.go
@@ -49,6 +49,8 @@ type OpusControlHeader struct {
 }
 
 func (h *OpusControlHeader) unmarshal(buf []byte) (int, error) {
+	*h = OpusControlHeader{}
+
 	pos := 0
 
 	err := bits.HasSpace(buf, pos, 16)
-- 
2.43.0


From 31cb519292c8bc618bacfcfdb095c135150a1ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:33 +0000
Subject: [PATCH 41/47] fix: fmp4: initialization blocks and parts decoded into
 a used object were added to the previous ones

---
 pkg/formats/fmp4/init.go  | 2 ++
 pkg/formats/fmp4/parts.go | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/pkg/formats/fmp4/init.go b/pkg/formats/fmp4/init.go
index 7cbcb7d..61d4891 100644
--- a/pkg/formats/fmp4/init.go
+++ b/pkg/formats/fmp4/init.go
@@ -18,6 +18,8 @@ type Init struct {
 
 // Unmarshal decodes a fMP4 initialization block.
 func (i *Init) Unmarshal(r io.ReadSeeker) error {
+	*i = Init{}
+
 	type readState int
 
 	const (
diff --git a/pkg/formats/fmp4/parts.go b/pkg/formats/fmp4/parts.go
index 13d364b..9a67a6c 100644
--- a/pkg/formats/fmp4/parts.go
+++ b/pkg/formats/fmp4/parts.go
@@ -17,6 +17,8 @@ type Parts []*Part
 
 // Unmarshal decodes one or more fMP4 parts.
 func (ps *Parts) Unmarshal(byts []byte) error {
+	*ps = nil
+
 	type readState int
 
 	const (
-- 
2.43.0


From c9fca5d3d27f2fe1e2a02229619484fc67d258a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:33 +0000
Subject: [PATCH 42/47] fix: pmp4: presentations decoded into a used object
 were added to the previous ones

---
 pkg/formats/pmp4/presentation.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/formats/pmp4/presentation.go b/pkg/formats/pmp4/presentation.go
index 125168c..a5b1ad5 100644
--- a/pkg/formats/pmp4/presentation.go
+++ b/pkg/formats/pmp4/presentation.go
@@ -34,6 +34,8 @@ type Presentation struct {
 
 // Unmarshal decodes a Presentation.
 func (p *Presentation) Unmarshal(r io.ReadSeeker) error {
+	*p = Presentation{}
+
 	type readState int
 
 	const (
-- 
2.43.0


From bae1551fe92e58b7c209347c10abd68813060e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:27 +0000
Subject: [PATCH 43/47] fix: mpeg4audio: encoding ADTS packets changed the
 channel configuration of the packets

---
 pkg/codecs/mpeg4audio/adts.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pkg/codecs/mpeg4audio/adts.go b/pkg/codecs/mpeg4audio/adts.go
index 1f94281..2b51a75 100644
--- a/pkg/codecs/mpeg4audio/adts.go
+++ b/pkg/codecs/mpeg4audio/adts.go
@@ -145,16 +145,18 @@ func (ps ADTSPackets) Marshal() ([]byte, error) {
 			return nil, fmt.Errorf("invalid sample rate: %d", pkt.SampleRate)
 		}
 
-		if pkt.ChannelConfig == 0 {
+		channelConfig := pkt.ChannelConfig
+
+		if channelConfig == 0 {
 			switch {
 			case pkt.ChannelCount == 0:
-				pkt.ChannelConfig = 0
+				channelConfig = 0
 
 			case pkt.ChannelCount >= 1 && pkt.ChannelCount <= 6:
-				pkt.ChannelConfig = uint8(pkt.ChannelCount)
+				channelConfig = uint8(pkt.ChannelCount)
 
 			case pkt.ChannelCount == 8:
-				pkt.ChannelConfig = 7
+				channelConfig = 7
 
 			default:
 				return nil, fmt.Errorf("invalid channel count (%d)", pkt.ChannelCount)
@@ -172,8 +174,8 @@ func (ps ADTSPackets) Marshal() ([]byte, error) {
 
 		buf[pos+0] = 0xFF
 		buf[pos+1] = 0xF1
-		buf[pos+2] = byte(pkt.Type-1)<<6 | byte(sampleRateIndex)<<2 | (pkt.ChannelConfig >> 2)
-		buf[pos+3] = (pkt.ChannelConfig&0x03)<<6 | byte(frameLen>>11)
+		buf[pos+2] = byte(pkt.Type-1)<<6 | byte(sampleRateIndex)<<2 | (channelConfig >> 2)
+		buf[pos+3] = (channelConfig&0x03)<<6 | byte(frameLen>>11)
 		buf[pos+4] = byte(frameLen >> 3)
 		buf[pos+5] = byte(frameLen&0x07)<<5 | byte(fullness>>6)
 		buf[pos+6] = byte(fullness&0x3F) << 2
-- 
2.43.0


From 3533bebee13848dfe8e6369fe902227973b989d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:40 +0000
Subject: [PATCH 44/47] fix: decode MP4 files from sources that return the last
 bytes together with io.EOF

a io.Reader is allowed to do that, but go-mp4 treats it as an error, so fmp4.Init.Unmarshal
and pmp4.Presentation.Unmarshal were failing.
---
 internal/mp4/reader.go           | 27 +++++++++++++++++++++++++++
 pkg/formats/fmp4/init.go         |  2 +-
 pkg/formats/pmp4/presentation.go |  2 +-
 3 files changed, 29 insertions(+), 2 deletions(-)
 create mode 100644 internal/mp4/reader.go

diff --git a/internal/mp4/reader.go b/internal/mp4/reader.go
new file mode 100644
index 0000000..82cec9c
--- /dev/null
+++ b/internal/mp4/reader.go
@@ -0,0 +1,27 @@
+package mp4
+
+import (
+	"io"
+)
+
+// Reader is a io.ReadSeeker that returns the end of the stream separately from the last bytes.
+//
+// a io.Reader is allowed to return a non-zero number of bytes together with io.EOF,
+// but go-mp4 treats this as an error.
+type Reader struct {
+	R io.ReadSeeker
+}
+
+// Read implements io.Reader.
+func (r *Reader) Read(p []byte) (int, error) {
+	n, err := r.R.Read(p)
+	if n > 0 && err == io.EOF { //nolint:errorlint
+		err = nil
+	}
+	return n, err
+}
+
+// Seek implements io.Seeker.
+func (r *Reader) Seek(offset int64, whence int) (int64, error) {
+	return r.R.Seek(offset, whence)
+}
diff --git a/pkg/formats/fmp4/init.go b/pkg/formats/fmp4/init.go
index 61d4891..73823e4 100644
--- a/pkg/formats/fmp4/init.go
+++ b/pkg/formats/fmp4/init.go
@@ -38,7 +38,7 @@ func (i *Init) Unmarshal(r io.ReadSeeker) error {
 	var curTrack *InitTrack
 	var codecBoxesReader *imp4.CodecBoxesReader
 
-	_, err := amp4.ReadBoxStructure(r, func(h *amp4.ReadHandle) (any, error) {
+	_, err := amp4.ReadBoxStructure(&imp4.Reader{R: r}, func(h *amp4.ReadHandle) (any, error) {
 		switch state {
 		case readingUserData:
 			if len(h.Path) < 3 {
diff --git a/pkg/formats/pmp4/presentation.go b/pkg/formats/pmp4/presentation.go
index a5b1ad5..d33c57d 100644
--- a/pkg/formats/pmp4/presentation.go
+++ b/pkg/formats/pmp4/presentation.go
@@ -65,7 +65,7 @@ func (p *Presentation) Unmarshal(r io.ReadSeeker) error {
 	var curChunks []*chunk
 	var curSampleSizes []uint32
 
-	_, err := amp4.ReadBoxStructure(r, func(h *amp4.ReadHandle) (any, error) {
+	_, err := amp4.ReadBoxStructure(&imp4.Reader{R: r}, func(h *amp4.ReadHandle) (any, error) {
 		if state == readingCodec {
 			ret, err := codecBoxesReader.Read(h)
 			if err != nil {
-- 
2.43.0


From f6078a17a5d2122d119e9860dc8d4dbe89ca1efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:18 +0000
Subject: [PATCH 45/47] fix: report write errors that occur while encoding some
 fields of MP4 boxes

go-mp4 ignores errors when writing arrays of structs, like the entries of trun, stts and
HEVC parameter sets; when only one of these writes was failing, Marshal was returning no
error and an invalid file.
---
 internal/mp4/writer.go | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/internal/mp4/writer.go b/internal/mp4/writer.go
index 5d066dd..18640db 100644
--- a/internal/mp4/writer.go
+++ b/internal/mp4/writer.go
@@ -7,6 +7,33 @@ import (
 	amp4 "github.com/abema/go-mp4"
 )
 
+// errWriter returns the first error again in all following calls.
+//
+// go-mp4 ignores errors when writing some fields, without this
+// a marshal operation might succeed after having skipped some bytes.
+type errWriter struct {
+	w   io.WriteSeeker
+	err error
+}
+
+func (w *errWriter) Write(p []byte) (int, error) {
+	if w.err != nil {
+		return 0, w.err
+	}
+	var n int
+	n, w.err = w.w.Write(p)
+	return n, w.err
+}
+
+func (w *errWriter) Seek(offset int64, whence int) (int64, error) {
+	if w.err != nil {
+		return 0, w.err
+	}
+	var pos int64
+	pos, w.err = w.w.Seek(offset, whence)
+	return pos, w.err
+}
+
 // Writer is a wrapper around abema/go-mp4.Writer.
 type Writer struct {
 	W io.WriteSeeker
@@ -16,7 +43,7 @@ type Writer struct {
 
 // Initialize initializes a Writer.
 func (w *Writer) Initialize() {
-	w.mw = amp4.NewWriter(w.W)
+	w.mw = amp4.NewWriter(&errWriter{w: w.W})
 }
 
 // WriteBoxStart writes a box start.
-- 
2.43.0


From 8cde74ac197079cb4d24484b95e812f23c722370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:31 +0000
Subject: [PATCH 46/47] fix: h264, h265: DTS extractors kept parameter sets in
 memory of the caller

when the caller was using its buffer again for the next access unit, changes of the parameter sets
were not noticed, and unchanged ones were resetting the state of the extractor.
---
 pkg/codecs/h264/dts_extractor.go | 2 +-
 pkg/codecs/h265/dts_extractor.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/codecs/h264/dts_extractor.go b/pkg/codecs/h264/dts_extractor.go
index 0f76298..bbe68d0 100644
--- a/pkg/codecs/h264/dts_extractor.go
+++ b/pkg/codecs/h264/dts_extractor.go
@@ -127,7 +127,7 @@ outer:
 				if err != nil {
 					return 0, false, fmt.Errorf("invalid SPS: %w", err)
 				}
-				d.sps = nalu
+				d.sps = bytes.Clone(nalu)
 				d.spsp = &spsp
 
 				// reset state
diff --git a/pkg/codecs/h265/dts_extractor.go b/pkg/codecs/h265/dts_extractor.go
index d5fdc36..39e827a 100644
--- a/pkg/codecs/h265/dts_extractor.go
+++ b/pkg/codecs/h265/dts_extractor.go
@@ -174,7 +174,7 @@ outer:
 				}
 
 				d.spsp = &spsp
-				d.sps = nalu
+				d.sps = bytes.Clone(nalu)
 
 				// reset state
 				d.randomReceived = false
@@ -195,7 +195,7 @@ outer:
 				}
 
 				d.ppsp = &ppsp
-				d.pps = nalu
+				d.pps = bytes.Clone(nalu)
 			}
 
 		case NALUType_IDR_W_RADL, NALUType_IDR_N_LP:
-- 
2.43.0


From 0aa588b0c903930bd3b13e67e15e5e02ca5ed261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:25 +0000
Subject: [PATCH 47/47] fix: mpeg4audio: refuse ADTS packets whose channel
 configuration does not fit 3 bits

ADTSPackets.Marshal wrote channel configurations above 7 into the private
bit of the header, producing a stream with another configuration.
---
 pkg/codecs/mpeg4audio/adts.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/codecs/mpeg4audio/adts.go b/pkg/codecs/mpeg4audio/adts.go
index 2b51a75..dad8282 100644
--- a/pkg/codecs/mpeg4audio/adts.go
+++ b/pkg/codecs/mpeg4audio/adts.go
@@ -163,6 +163,11 @@ func (ps ADTSPackets) Marshal() ([]byte, error) {
 			}
 		}
 
+		// channel configuration is encoded with 3 bits
+		if channelConfig > 7 {
+			return nil, fmt.Errorf("invalid channel configuration (%d)", channelConfig)
+		}
+
 		frameLen := len(pkt.AU) + 7
 
 		// frame length is encoded with 13 bits
-- 
2.43.0

