From 2a48a14b146d6fc6826a32326d65919d24838c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:43 +0000
Subject: [PATCH 01/33] fix: sgpd: count roll distance entries by entry_count
 and size entries with length at 48 bits

---
 box_types_iso14496_12.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/box_types_iso14496_12.go b/box_types_iso14496_12.go
index d258716..e7e0881 100644
--- a/box_types_iso14496_12.go
+++ b/box_types_iso14496_12.go
@@ -1553,8 +1553,8 @@ type Sgpd struct {
 	DefaultLength                 uint32                     `mp4:"2,size=32,ver=1"`
 	DefaultSampleDescriptionIndex uint32                     `mp4:"3,size=32,ver=2"`
 	EntryCount                    uint32                     `mp4:"4,size=32"`
-	RollDistances                 []int16                    `mp4:"5,size=16,opt=dynamic"`
-	RollDistancesL                []RollDistanceWithLength   `mp4:"6,size=16,opt=dynamic"`
+	RollDistances                 []int16                    `mp4:"5,size=16,len=dynamic,opt=dynamic"`
+	RollDistancesL                []RollDistanceWithLength   `mp4:"6,size=48,len=dynamic,opt=dynamic"`
 	AlternativeStartupEntries     []AlternativeStartupEntry  `mp4:"7,size=dynamic,len=dynamic,opt=dynamic"`
 	AlternativeStartupEntriesL    []AlternativeStartupEntryL `mp4:"8,len=dynamic,opt=dynamic"`
 	VisualRandomAccessEntries     []VisualRandomAccessEntry  `mp4:"9,len=dynamic,opt=dynamic"`
-- 
2.43.0


From edd28e3e33310918eba893d6247c4e5314069840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:17 +0000
Subject: [PATCH 02/33] fix: sgpd: compute entry sizes without 32-bit overflow

---
 box_types_iso14496_12.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/box_types_iso14496_12.go b/box_types_iso14496_12.go
index e7e0881..5847237 100644
--- a/box_types_iso14496_12.go
+++ b/box_types_iso14496_12.go
@@ -1610,7 +1610,7 @@ type TemporalLevelEntryL struct {
 func (sgpd *Sgpd) GetFieldSize(name string, ctx Context) uint {
 	switch name {
 	case "AlternativeStartupEntries":
-		return uint(sgpd.DefaultLength * 8)
+		return uint(sgpd.DefaultLength) * 8
 	}
 	return 0
 }
@@ -1675,7 +1675,7 @@ func (entry *AlternativeStartupEntry) GetFieldLength(name string, ctx Context) u
 func (entry *AlternativeStartupEntryL) GetFieldSize(name string, ctx Context) uint {
 	switch name {
 	case "AlternativeStartupEntry":
-		return uint(entry.DescriptionLength * 8)
+		return uint(entry.DescriptionLength) * 8
 	}
 	return 0
 }
-- 
2.43.0


From 3de024ec7a71c053a461167a02b23c2b320367b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:20 +0000
Subject: [PATCH 03/33] fix: report errors of list elements and variable-length
 integers when marshalling

---
 marshaller.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/marshaller.go b/marshaller.go
index 8dd9637..e6b7a2e 100644
--- a/marshaller.go
+++ b/marshaller.go
@@ -151,7 +151,9 @@ func (m *marshaller) marshalSlice(v reflect.Value, fi *fieldInstance) error {
 	}
 
 	for i := 0; i < int(length); i++ {
-		m.marshal(v.Index(i), fi)
+		if err := m.marshal(v.Index(i), fi); err != nil {
+			return err
+		}
 	}
 	return nil
 }
@@ -196,8 +198,7 @@ func (m *marshaller) marshalUint(v reflect.Value, fi *fieldInstance) error {
 	val := v.Uint()
 
 	if fi.is(fieldVarint) {
-		m.writeUvarint(val)
-		return nil
+		return m.writeUvarint(val)
 	}
 
 	for i := uint(0); i < fi.size; i += 8 {
-- 
2.43.0


From 60fe880469a634233cf1a01c1ed8a349e9e2ffbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:23 +0000
Subject: [PATCH 04/33] fix: refuse variable-length integers that do not fit in
 four octets

---
 marshaller.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/marshaller.go b/marshaller.go
index e6b7a2e..71a437d 100644
--- a/marshaller.go
+++ b/marshaller.go
@@ -252,6 +252,10 @@ func (m *marshaller) marshalString(v reflect.Value, fi *fieldInstance) error {
 }
 
 func (m *marshaller) writeUvarint(u uint64) error {
+	if u >= 1<<28 {
+		return fmt.Errorf("too large value for variable-length integer: %d", u)
+	}
+
 	for i := 21; i > 0; i -= 7 {
 		if err := m.writer.WriteBits([]byte{(byte(u >> uint(i))) | 0x80}, 8); err != nil {
 			return err
-- 
2.43.0


From 55f38cd72a458b8766d3edeabad22b390809d6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:26 +0000
Subject: [PATCH 05/33] fix: Samples.GetMaxBitrate: do not divide by zero when
 a window has no duration

---
 probe.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/probe.go b/probe.go
index 2ffaf7a..2924287 100644
--- a/probe.go
+++ b/probe.go
@@ -639,9 +639,11 @@ func (samples Samples) GetMaxBitrate(timescale uint32, timeDelta uint64) uint64
 				break
 			}
 		}
-		bitrate := 8 * size * uint64(timescale) / duration
-		if bitrate > maxBitrate {
-			maxBitrate = bitrate
+		if duration != 0 {
+			bitrate := 8 * size * uint64(timescale) / duration
+			if bitrate > maxBitrate {
+				maxBitrate = bitrate
+			}
 		}
 		for {
 			size -= uint64(samples[begin].Size)
-- 
2.43.0


From 51c23e7ab6f8470559e9464ae6798bf0382184c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:29 +0000
Subject: [PATCH 06/33] fix: FindIDRFrames: do not let the NAL unit offset wrap
 around

---
 probe.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/probe.go b/probe.go
index 2924287..56ab158 100644
--- a/probe.go
+++ b/probe.go
@@ -570,7 +570,7 @@ func FindIDRFrames(r io.ReadSeeker, trackInfo *TrackInfo) ([]int, error) {
 	if trackInfo.AVC == nil {
 		return nil, nil
 	}
-	lengthSize := uint32(trackInfo.AVC.LengthSize)
+	lengthSize := uint64(trackInfo.AVC.LengthSize)
 
 	var si int
 	idxs := make([]int, 0, 8)
@@ -582,17 +582,17 @@ func FindIDRFrames(r io.ReadSeeker, trackInfo *TrackInfo) ([]int, error) {
 			if sample.Size == 0 {
 				continue
 			}
-			for nalOffset := uint32(0); nalOffset+lengthSize+1 <= sample.Size; {
-				if _, err := r.Seek(int64(dataOffset+uint64(nalOffset)), io.SeekStart); err != nil {
+			for nalOffset := uint64(0); nalOffset+lengthSize+1 <= uint64(sample.Size); {
+				if _, err := r.Seek(int64(dataOffset+nalOffset), io.SeekStart); err != nil {
 					return nil, err
 				}
 				data := make([]byte, lengthSize+1)
 				if _, err := io.ReadFull(r, data); err != nil {
 					return nil, err
 				}
-				var length uint32
+				var length uint64
 				for i := 0; i < int(lengthSize); i++ {
-					length = (length << 8) + uint32(data[i])
+					length = (length << 8) + uint64(data[i])
 				}
 				nalHeader := data[lengthSize]
 				nalType := nalHeader & 0x1f
-- 
2.43.0


From ce0f89dfad2806679c5d48e5c8706be10e0d572b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:06 +0000
Subject: [PATCH 07/33] fix: ReadBoxInfo: refuse sizes smaller than the header
 or beyond the range of offsets

---
 box_info.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/box_info.go b/box_info.go
index 1cb4b8a..8f86c7a 100644
--- a/box_info.go
+++ b/box_info.go
@@ -142,7 +142,7 @@ func ReadBoxInfo(r io.ReadSeeker) (*BoxInfo, error) {
 		bi.Size = binary.BigEndian.Uint64(buf.Bytes())
 	}
 
-	if bi.Size == 0 {
+	if bi.Size < bi.HeaderSize || bi.Size > math.MaxInt64-bi.Offset {
 		return nil, fmt.Errorf("invalid size")
 	}
 
-- 
2.43.0


From f56113fa52dc7eafc8e0a1b15be07af4c09258db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:09 +0000
Subject: [PATCH 08/33] fix: Unmarshal: refuse payload sizes whose number of
 bits overflows

---
 marshaller.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/marshaller.go b/marshaller.go
index 71a437d..d1397e8 100644
--- a/marshaller.go
+++ b/marshaller.go
@@ -294,6 +294,10 @@ func Unmarshal(r io.ReadSeeker, payloadSize uint64, dst IBox, ctx Context) (n ui
 		return 0, ErrBoxInfoNotFound
 	}
 
+	if payloadSize > math.MaxUint64/8 {
+		return 0, fmt.Errorf("too large payload size: type=%s, size=%d", dst.GetType().String(), payloadSize)
+	}
+
 	v := reflect.ValueOf(dst).Elem()
 
 	dst.SetVersion(anyVersion)
-- 
2.43.0


From 4978065d12c4ed96c0e7f938b239af5216042233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:12 +0000
Subject: [PATCH 09/33] fix: ExtractBoxesWithPayload: decode each box in the
 context it was found in

---
 extract.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/extract.go b/extract.go
index 7de36b0..c8cb2ab 100644
--- a/extract.go
+++ b/extract.go
@@ -26,11 +26,7 @@ func ExtractBoxesWithPayload(r io.ReadSeeker, parent *BoxInfo, paths []BoxPath)
 			return nil, err
 		}
 
-		var ctx Context
-		if parent != nil {
-			ctx = parent.Context
-		}
-		box, _, err := UnmarshalAny(r, bi.Type, bi.Size-bi.HeaderSize, ctx)
+		box, _, err := UnmarshalAny(r, bi.Type, bi.Size-bi.HeaderSize, bi.Context)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 6b752098770692611b0d75cfbcaae80486e6f1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:15 +0000
Subject: [PATCH 10/33] fix: do not mistake a 32-bit element count of
 0xffffffff for an unlimited length

---
 box.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/box.go b/box.go
index c69e892..711d106 100644
--- a/box.go
+++ b/box.go
@@ -3,12 +3,11 @@ package mp4
 import (
 	"errors"
 	"io"
-	"math"
 
 	"github.com/abema/go-mp4/internal/bitio"
 )
 
-const LengthUnlimited = math.MaxUint32
+const LengthUnlimited = ^uint(0) >> 1
 
 type ICustomFieldObject interface {
 	// GetFieldSize returns size of dynamic field
-- 
2.43.0


From 8e87b41373a7248e9777a2742da330af68127126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:47 +0000
Subject: [PATCH 11/33] fix: do not lose the last byte of a reader that
 delivers it together with the end of stream

---
 internal/bitio/read.go | 2 +-
 internal/util/io.go    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/bitio/read.go b/internal/bitio/read.go
index 4da76ea..9fd65a2 100644
--- a/internal/bitio/read.go
+++ b/internal/bitio/read.go
@@ -59,7 +59,7 @@ func (r *reader) ReadBits(size uint) ([]byte, error) {
 func (r *reader) ReadBit() (bool, error) {
 	if r.width == 0 {
 		buf := make([]byte, 1)
-		if n, err := r.reader.Read(buf); err != nil {
+		if n, err := r.reader.Read(buf); err != nil && n != 1 {
 			return false, err
 		} else if n != 1 {
 			return false, ErrDiscouragedReader
diff --git a/internal/util/io.go b/internal/util/io.go
index 1e46811..b691662 100644
--- a/internal/util/io.go
+++ b/internal/util/io.go
@@ -9,7 +9,7 @@ func ReadString(r io.Reader) (string, error) {
 	b := make([]byte, 1)
 	buf := bytes.NewBuffer(nil)
 	for {
-		if _, err := r.Read(b); err != nil {
+		if _, err := io.ReadFull(r, b); err != nil {
 			return "", err
 		}
 		if b[0] == 0 {
-- 
2.43.0


From 0528ea584f06ba5ce54c90625fee84dcab1bfe34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:51 +0000
Subject: [PATCH 12/33] fix: Probe: report the constant sample size of stsz

---
 probe.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/probe.go b/probe.go
index 56ab158..52bb501 100644
--- a/probe.go
+++ b/probe.go
@@ -359,6 +359,11 @@ func probeTrak(r io.ReadSeeker, bi *BoxInfo) (*Track, error) {
 	}
 
 	if stsz != nil {
+		if stsz.SampleSize != 0 {
+			for i := 0; i < len(track.Samples) && uint64(i) < uint64(stsz.SampleCount); i++ {
+				track.Samples[i].Size = stsz.SampleSize
+			}
+		}
 		for i := 0; i < len(stsz.EntrySize) && i < len(track.Samples); i++ {
 			track.Samples[i].Size = stsz.EntrySize[i]
 		}
-- 
2.43.0


From e255e369960cf9f9efbb133e742f904d90948d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:25 +0000
Subject: [PATCH 13/33] fix: Stringify: show the value of Version fields of
 boxes that are not full boxes

---
 string.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/string.go b/string.go
index 4bc368e..5e5d532 100644
--- a/string.go
+++ b/string.go
@@ -110,8 +110,8 @@ func (m *stringifier) stringifyStruct(v reflect.Value, fs []*field, depth int, e
 			continue
 		}
 
-		if f.name == "Version" {
-			m.buf.WriteString(strconv.Itoa(int(m.src.GetVersion())))
+		if fv := v.FieldByName(f.name); f.name == "Version" && fv.Kind() == reflect.Uint8 {
+			m.buf.WriteString(strconv.Itoa(int(fv.Uint())))
 		} else if f.name == "Flags" {
 			fmt.Fprintf(m.buf, "0x%06x", m.src.GetFlags())
 		} else {
-- 
2.43.0


From accbbba75c364b8b9d594dfa04bd7f0a23d62831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:29 +0000
Subject: [PATCH 14/33] fix: hdlr: recognise counted names of 255 bytes

---
 box_types_iso14496_12.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/box_types_iso14496_12.go b/box_types_iso14496_12.go
index 5847237..488972f 100644
--- a/box_types_iso14496_12.go
+++ b/box_types_iso14496_12.go
@@ -648,8 +648,8 @@ func (hdlr *Hdlr) OnReadName(r bitio.ReadSeeker, leftBits uint64, ctx Context) (
 		return 0, false, err
 	}
 
-	plen := buf[0]
-	if hdlr.PreDefined != 0 && size >= 2 && size == uint64(plen+1) {
+	plen := uint64(buf[0])
+	if hdlr.PreDefined != 0 && size >= 2 && size == plen+1 {
 		// Pascal-style String
 		hdlr.Name = string(buf[1 : plen+1])
 	} else {
-- 
2.43.0


From a2f82ef057a0df0c76752f7405a8341da840c34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:30 +0000
Subject: [PATCH 15/33] fix: mp4tool dump, psshdump: do not allocate memory for
 box data that does not exist

---
 cmd/mp4tool/internal/dump/dump.go         | 2 +-
 cmd/mp4tool/internal/psshdump/psshdump.go | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/cmd/mp4tool/internal/dump/dump.go b/cmd/mp4tool/internal/dump/dump.go
index 42280b1..ccebc32 100644
--- a/cmd/mp4tool/internal/dump/dump.go
+++ b/cmd/mp4tool/internal/dump/dump.go
@@ -156,7 +156,7 @@ func (m *mp4dump) dump(r io.ReadSeeker) error {
 
 		// unsupported box type
 		if full {
-			buf := bytes.NewBuffer(make([]byte, 0, h.BoxInfo.Size-h.BoxInfo.HeaderSize))
+			buf := bytes.NewBuffer(nil)
 			if _, err := h.ReadData(buf); err != nil {
 				return nil, err
 			}
diff --git a/cmd/mp4tool/internal/psshdump/psshdump.go b/cmd/mp4tool/internal/psshdump/psshdump.go
index 368bf0e..8d3cfd5 100644
--- a/cmd/mp4tool/internal/psshdump/psshdump.go
+++ b/cmd/mp4tool/internal/psshdump/psshdump.go
@@ -1,6 +1,7 @@
 package psshdump
 
 import (
+	"bytes"
 	"encoding/base64"
 	"fmt"
 	"io"
@@ -54,8 +55,8 @@ func dump(inputFilePath string) error {
 		if _, err := bs[i].Info.SeekToStart(r); err != nil {
 			return err
 		}
-		rawData := make([]byte, bs[i].Info.Size)
-		if _, err := io.ReadFull(r, rawData); err != nil {
+		rawData := bytes.NewBuffer(nil)
+		if _, err := io.CopyN(rawData, r, int64(bs[i].Info.Size)); err != nil {
 			return err
 		}
 
@@ -66,7 +67,7 @@ func dump(inputFilePath string) error {
 		fmt.Printf("  flags: 0x%x\n", pssh.Flags)
 		fmt.Printf("  systemId: %s\n", sysid)
 		fmt.Printf("  dataSize: %d\n", pssh.DataSize)
-		fmt.Printf("  base64: \"%s\"\n", base64.StdEncoding.EncodeToString(rawData))
+		fmt.Printf("  base64: \"%s\"\n", base64.StdEncoding.EncodeToString(rawData.Bytes()))
 		fmt.Println()
 	}
 
-- 
2.43.0


From f236d3d3b09e516d3bdae0e6acc2552e576d1009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:42 +0000
Subject: [PATCH 16/33] fix: report seek errors of the source when checking the
 remaining size

---
 box_types_iso14496_12.go |  4 +++-
 marshaller.go            | 14 ++++++++------
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/box_types_iso14496_12.go b/box_types_iso14496_12.go
index 488972f..a030998 100644
--- a/box_types_iso14496_12.go
+++ b/box_types_iso14496_12.go
@@ -639,7 +639,9 @@ func (hdlr *Hdlr) OnReadName(r bitio.ReadSeeker, leftBits uint64, ctx Context) (
 		return 0, true, nil
 	}
 
-	if !readerHasSize(r, size) {
+	if ok, err := readerHasSize(r, size); err != nil {
+		return 0, false, err
+	} else if !ok {
 		return 0, false, fmt.Errorf("not enough bits")
 	}
 
diff --git a/marshaller.go b/marshaller.go
index d1397e8..d97ea3f 100644
--- a/marshaller.go
+++ b/marshaller.go
@@ -17,23 +17,23 @@ const (
 
 var ErrUnsupportedBoxVersion = errors.New("unsupported box version")
 
-func readerHasSize(reader bitio.ReadSeeker, size uint64) bool {
+func readerHasSize(reader bitio.ReadSeeker, size uint64) (bool, error) {
 	pre, err := reader.Seek(0, io.SeekCurrent)
 	if err != nil {
-		return false
+		return false, err
 	}
 
 	end, err := reader.Seek(0, io.SeekEnd)
 	if err != nil {
-		return false
+		return false, err
 	}
 
 	if uint64(end-pre) < size {
-		return false
+		return false, nil
 	}
 
 	_, err = reader.Seek(pre, io.SeekStart)
-	return err == nil
+	return err == nil, err
 }
 
 type marshaller struct {
@@ -449,7 +449,9 @@ func (u *unmarshaller) unmarshalSlice(v reflect.Value, fi *fieldInstance) error
 	if u.rbits%8 == 0 && elemType.Kind() == reflect.Uint8 && fi.size == 8 {
 		totalSize := length * uint64(fi.size) / 8
 
-		if !readerHasSize(u.reader, totalSize) {
+		if ok, err := readerHasSize(u.reader, totalSize); err != nil {
+			return err
+		} else if !ok {
 			return fmt.Errorf("not enough bits")
 		}
 
-- 
2.43.0


From 948eb93e1a03b09f3998223444dc59626eb9cdb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:45 +0000
Subject: [PATCH 17/33] fix: ReadBoxInfo: report a 64-bit header that is cut
 off instead of a clean end of file

---
 box_info.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/box_info.go b/box_info.go
index 8f86c7a..c54beb4 100644
--- a/box_info.go
+++ b/box_info.go
@@ -136,6 +136,9 @@ func ReadBoxInfo(r io.ReadSeeker) (*BoxInfo, error) {
 		// read more 8 bytes
 		buf.Reset()
 		if _, err := io.CopyN(buf, r, LargeHeaderSize-SmallHeaderSize); err != nil {
+			if err == io.EOF {
+				err = io.ErrUnexpectedEOF
+			}
 			return nil, err
 		}
 		bi.HeaderSize += LargeHeaderSize - SmallHeaderSize
-- 
2.43.0


From 0ed26909f88231e045e098abf1371a29d23472e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:32 +0000
Subject: [PATCH 18/33] fix: detect the AAC extension signalling behind
 GASpecificConfig

---
 probe.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/probe.go b/probe.go
index 52bb501..4d870e7 100644
--- a/probe.go
+++ b/probe.go
@@ -419,6 +419,16 @@ func detectAACProfile(esds *Esds) (oti, audOTI uint8, err error) {
 			return 0, 0, err
 		}
 		remaining -= 11
+		// the extension follows GASpecificConfig, whose length varies
+		for remaining > 6 && !(syncExtensionType[0] == 0x2 && syncExtensionType[1] == 0xb7) {
+			bit, err := r.ReadBits(1)
+			if err != nil {
+				return 0, 0, err
+			}
+			remaining--
+			syncExtensionType[0] = (syncExtensionType[0]<<1 | syncExtensionType[1]>>7) & 0x7
+			syncExtensionType[1] = syncExtensionType[1]<<1 | bit[0]
+		}
 		if syncExtensionType[0] == 0x2 && syncExtensionType[1] == 0xb7 {
 			extAudioObjectType, _, err := getAudioObjectType(r)
 			if err != nil {
-- 
2.43.0


From 0ce9d2db6c4b6aa520974c2155d6eba36d5e75db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:35 +0000
Subject: [PATCH 19/33] fix: FindIDRFrames: an empty NAL unit has no header

---
 probe.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probe.go b/probe.go
index 4d870e7..e28c72c 100644
--- a/probe.go
+++ b/probe.go
@@ -611,7 +611,7 @@ func FindIDRFrames(r io.ReadSeeker, trackInfo *TrackInfo) ([]int, error) {
 				}
 				nalHeader := data[lengthSize]
 				nalType := nalHeader & 0x1f
-				if nalType == 5 {
+				if length != 0 && nalType == 5 {
 					idxs = append(idxs, si)
 					break
 				}
-- 
2.43.0


From 79648f64df12af5d3e1ed1728749a1347d56ce0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:29 +0000
Subject: [PATCH 20/33] fix: count the extension object type in the AAC
 configuration's length

The bits of extensionAudioObjectType were not subtracted, so the search for
the parametric stereo marker ran past the end of a configuration that has
none and Probe failed with EOF (e.g. 12 10 56 e5 9d 48).
---
 probe.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/probe.go b/probe.go
index e28c72c..65c679c 100644
--- a/probe.go
+++ b/probe.go
@@ -430,10 +430,11 @@ func detectAACProfile(esds *Esds) (oti, audOTI uint8, err error) {
 			syncExtensionType[1] = syncExtensionType[1]<<1 | bit[0]
 		}
 		if syncExtensionType[0] == 0x2 && syncExtensionType[1] == 0xb7 {
-			extAudioObjectType, _, err := getAudioObjectType(r)
+			extAudioObjectType, read, err := getAudioObjectType(r)
 			if err != nil {
 				return 0, 0, err
 			}
+			remaining -= read
 			if extAudioObjectType == 5 || extAudioObjectType == 22 {
 				sbr, err := r.ReadBits(1)
 				if err != nil {
-- 
2.43.0


From 6fa95af44335debf07aab621241df1ebdf56185f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:27 +0000
Subject: [PATCH 21/33] fix: mp4tool panicked when reading beyond the end of
 the file

---
 cmd/mp4tool/internal/dump/dump.go         |  7 +++--
 cmd/mp4tool/internal/edit/edit.go         |  8 +++--
 cmd/mp4tool/internal/extract/extract.go   |  7 +++--
 cmd/mp4tool/internal/probe/probe.go       |  8 +++--
 cmd/mp4tool/internal/psshdump/psshdump.go |  7 +++--
 cmd/mp4tool/internal/util/reader.go       | 36 +++++++++++++++++++++++
 6 files changed, 63 insertions(+), 10 deletions(-)
 create mode 100644 cmd/mp4tool/internal/util/reader.go

diff --git a/cmd/mp4tool/internal/dump/dump.go b/cmd/mp4tool/internal/dump/dump.go
index ccebc32..4a7664f 100644
--- a/cmd/mp4tool/internal/dump/dump.go
+++ b/cmd/mp4tool/internal/dump/dump.go
@@ -10,7 +10,6 @@ import (
 
 	"github.com/abema/go-mp4"
 	"github.com/abema/go-mp4/cmd/mp4tool/internal/util"
-	"github.com/sunfish-shogi/bufseekio"
 	"golang.org/x/term"
 )
 
@@ -89,7 +88,11 @@ func (m *mp4dump) dumpFile(fpath string) error {
 	}
 	defer file.Close()
 
-	return m.dump(bufseekio.NewReadSeeker(file, blockSize, blockHistorySize))
+	r, err := util.NewReadSeeker(file, blockSize, blockHistorySize)
+	if err != nil {
+		return err
+	}
+	return m.dump(r)
 }
 
 func (m *mp4dump) dump(r io.ReadSeeker) error {
diff --git a/cmd/mp4tool/internal/edit/edit.go b/cmd/mp4tool/internal/edit/edit.go
index c9ce7f1..9ca1a49 100644
--- a/cmd/mp4tool/internal/edit/edit.go
+++ b/cmd/mp4tool/internal/edit/edit.go
@@ -8,7 +8,7 @@ import (
 	"strings"
 
 	"github.com/abema/go-mp4"
-	"github.com/sunfish-shogi/bufseekio"
+	"github.com/abema/go-mp4/cmd/mp4tool/internal/util"
 )
 
 const UNoValue = math.MaxUint64
@@ -70,13 +70,17 @@ func editFile(inputPath, outputPath string) error {
 	}
 	defer inputFile.Close()
 
+	r, err := util.NewReadSeeker(inputFile, 128*1024, 4)
+	if err != nil {
+		return err
+	}
+
 	outputFile, err := os.Create(outputPath)
 	if err != nil {
 		return err
 	}
 	defer outputFile.Close()
 
-	r := bufseekio.NewReadSeeker(inputFile, 128*1024, 4)
 	w := mp4.NewWriter(outputFile)
 	_, err = mp4.ReadBoxStructure(r, func(h *mp4.ReadHandle) (interface{}, error) {
 		if config.dropBoxes.Exists(h.BoxInfo.Type.String()) {
diff --git a/cmd/mp4tool/internal/extract/extract.go b/cmd/mp4tool/internal/extract/extract.go
index 51f93e2..1767f50 100644
--- a/cmd/mp4tool/internal/extract/extract.go
+++ b/cmd/mp4tool/internal/extract/extract.go
@@ -8,7 +8,6 @@ import (
 
 	"github.com/abema/go-mp4"
 	"github.com/abema/go-mp4/cmd/mp4tool/internal/util"
-	"github.com/sunfish-shogi/bufseekio"
 )
 
 const (
@@ -45,7 +44,11 @@ func Main(args []string) int {
 	}
 	defer input.Close()
 
-	r := bufseekio.NewReadSeeker(input, blockSize, blockHistorySize)
+	r, err := util.NewReadSeeker(input, blockSize, blockHistorySize)
+	if err != nil {
+		fmt.Println("Error:", err)
+		return 1
+	}
 	if err := extract(r, mp4.StrToBoxType(boxType)); err != nil {
 		fmt.Println("Error:", err)
 		return 1
diff --git a/cmd/mp4tool/internal/probe/probe.go b/cmd/mp4tool/internal/probe/probe.go
index 41568b8..70cba5c 100644
--- a/cmd/mp4tool/internal/probe/probe.go
+++ b/cmd/mp4tool/internal/probe/probe.go
@@ -8,7 +8,7 @@ import (
 	"os"
 
 	"github.com/abema/go-mp4"
-	"github.com/sunfish-shogi/bufseekio"
+	"github.com/abema/go-mp4/cmd/mp4tool/internal/util"
 	"gopkg.in/yaml.v2"
 )
 
@@ -34,7 +34,11 @@ func Main(args []string) int {
 	}
 	defer input.Close()
 
-	r := bufseekio.NewReadSeeker(input, 1024, 4)
+	r, err := util.NewReadSeeker(input, 1024, 4)
+	if err != nil {
+		fmt.Println("Error:", err)
+		return 1
+	}
 	rep, err := buildReport(r)
 	if err != nil {
 		fmt.Println("Error:", err)
diff --git a/cmd/mp4tool/internal/psshdump/psshdump.go b/cmd/mp4tool/internal/psshdump/psshdump.go
index 8d3cfd5..a87f272 100644
--- a/cmd/mp4tool/internal/psshdump/psshdump.go
+++ b/cmd/mp4tool/internal/psshdump/psshdump.go
@@ -8,7 +8,7 @@ import (
 	"os"
 
 	mp4 "github.com/abema/go-mp4"
-	"github.com/sunfish-shogi/bufseekio"
+	"github.com/abema/go-mp4/cmd/mp4tool/internal/util"
 )
 
 func Main(args []string) int {
@@ -31,7 +31,10 @@ func dump(inputFilePath string) error {
 	}
 	defer inputFile.Close()
 
-	r := bufseekio.NewReadSeeker(inputFile, 1024, 4)
+	r, err := util.NewReadSeeker(inputFile, 1024, 4)
+	if err != nil {
+		return err
+	}
 
 	bs, err := mp4.ExtractBoxesWithPayload(r, nil, []mp4.BoxPath{
 		{mp4.BoxTypeMoov(), mp4.BoxTypePssh()},
diff --git a/cmd/mp4tool/internal/util/reader.go b/cmd/mp4tool/internal/util/reader.go
new file mode 100644
index 0000000..2b6ead7
--- /dev/null
+++ b/cmd/mp4tool/internal/util/reader.go
@@ -0,0 +1,36 @@
+package util
+
+import (
+	"io"
+
+	"github.com/sunfish-shogi/bufseekio"
+)
+
+// NewReadSeeker returns a buffered ReadSeeker which reads from r.
+// Reading at or after the end of r, for example in a truncated file, results in io.EOF.
+func NewReadSeeker(r io.ReadSeeker, blockSize, historySize int) (io.ReadSeeker, error) {
+	size, err := r.Seek(0, io.SeekEnd)
+	if err != nil {
+		return nil, err
+	}
+	return &readSeeker{
+		ReadSeeker: bufseekio.NewReadSeeker(r, blockSize, historySize),
+		size:       size,
+	}, nil
+}
+
+type readSeeker struct {
+	*bufseekio.ReadSeeker
+	size int64
+}
+
+func (r *readSeeker) Read(p []byte) (int, error) {
+	offset, err := r.Seek(0, io.SeekCurrent)
+	if err != nil {
+		return 0, err
+	}
+	if offset >= r.size {
+		return 0, io.EOF
+	}
+	return r.ReadSeeker.Read(p)
+}
-- 
2.43.0


From ec9aa108a16002694de46cf52f9415c2a11d3e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:28 +0000
Subject: [PATCH 22/33] fix: mp4tool edit truncated base_media_decode_time in
 version 0 tfdt boxes

---
 cmd/mp4tool/internal/edit/edit.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/mp4tool/internal/edit/edit.go b/cmd/mp4tool/internal/edit/edit.go
index 9ca1a49..5c5e132 100644
--- a/cmd/mp4tool/internal/edit/edit.go
+++ b/cmd/mp4tool/internal/edit/edit.go
@@ -109,6 +109,9 @@ func editFile(inputPath, outputPath string) error {
 			tfdt := box.(*mp4.Tfdt)
 			if config.values.BaseMediaDecodeTime != UNoValue {
 				if tfdt.GetVersion() == 0 {
+					if config.values.BaseMediaDecodeTime > math.MaxUint32 {
+						return nil, fmt.Errorf("base_media_decode_time overflows 32 bits of tfdt version 0: %d", config.values.BaseMediaDecodeTime)
+					}
 					tfdt.BaseMediaDecodeTimeV0 = uint32(config.values.BaseMediaDecodeTime)
 				} else {
 					tfdt.BaseMediaDecodeTimeV1 = config.values.BaseMediaDecodeTime
-- 
2.43.0


From 002ff181f85b0baf3532738272329d6d1750ecae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:30 +0000
Subject: [PATCH 23/33] fix: mp4tool divide counted only the first trun of a
 fragment and panicked without one

---
 cmd/mp4tool/internal/divide/divide.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/cmd/mp4tool/internal/divide/divide.go b/cmd/mp4tool/internal/divide/divide.go
index 10c60a6..8623be3 100644
--- a/cmd/mp4tool/internal/divide/divide.go
+++ b/cmd/mp4tool/internal/divide/divide.go
@@ -284,14 +284,16 @@ func divide(inputFilePath, outputDir string) error {
 				if err != nil {
 					return nil, err
 				}
-				trun := bs[0].Payload.(*mp4.Trun)
-
-				var duration uint32
-				for i := range trun.Entries {
-					if trun.CheckFlag(0x000100) {
-						duration += trun.Entries[i].SampleDuration
-					} else {
-						duration += defaultSampleDuration
+
+				var duration uint64
+				for _, b := range bs {
+					trun := b.Payload.(*mp4.Trun)
+					for i := range trun.Entries {
+						if trun.CheckFlag(0x000100) {
+							duration += uint64(trun.Entries[i].SampleDuration)
+						} else {
+							duration += uint64(defaultSampleDuration)
+						}
 					}
 				}
 
-- 
2.43.0


From e10491f05b8e2253a164523710e4990e88b4eb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:31 +0000
Subject: [PATCH 24/33] fix: mp4tool divide ignored default_sample_duration of
 trex boxes

---
 cmd/mp4tool/internal/divide/divide.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/cmd/mp4tool/internal/divide/divide.go b/cmd/mp4tool/internal/divide/divide.go
index 8623be3..e78cdc0 100644
--- a/cmd/mp4tool/internal/divide/divide.go
+++ b/cmd/mp4tool/internal/divide/divide.go
@@ -55,6 +55,7 @@ type track struct {
 	id          uint32
 	trackType   trackType
 	timescale   uint32
+	defDuration uint32 // default_sample_duration of trex
 	bandwidth   uint64
 	height      uint16
 	width       uint16
@@ -153,6 +154,18 @@ func divide(inputFilePath, outputDir string) error {
 		fmt.Printf("WARN: unsupported track type: trackID=%d\n", t.id)
 	}
 
+	// get default sample durations from Trex boxes
+	bs, err := mp4.ExtractBoxWithPayload(inputFile, nil, mp4.BoxPath{mp4.BoxTypeMoov(), mp4.BoxTypeMvex(), mp4.BoxTypeTrex()})
+	if err != nil {
+		return err
+	}
+	for _, b := range bs {
+		trex := b.Payload.(*mp4.Trex)
+		if t, exists := tracks[trex.TrackID]; exists {
+			t.defDuration = trex.DefaultSampleDuration
+		}
+	}
+
 	for _, t := range tracks {
 		os.MkdirAll(t.outputDir, 0777)
 
@@ -274,7 +287,7 @@ func divide(inputFilePath, outputDir string) error {
 					return nil, nil
 				}
 
-				var defaultSampleDuration uint32
+				defaultSampleDuration := tracks[currTrackID].defDuration
 				if tfhd.CheckFlag(0x000008) {
 					defaultSampleDuration = tfhd.DefaultSampleDuration
 				}
-- 
2.43.0


From 55dff60e15862ee17eff89a5228f708050630e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:40 +0000
Subject: [PATCH 25/33] fix: mp4tool divide panicked on a fragment, media data
 or mfra box inside moov

---
 cmd/mp4tool/internal/divide/divide.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmd/mp4tool/internal/divide/divide.go b/cmd/mp4tool/internal/divide/divide.go
index e78cdc0..6fd6865 100644
--- a/cmd/mp4tool/internal/divide/divide.go
+++ b/cmd/mp4tool/internal/divide/divide.go
@@ -268,6 +268,11 @@ func divide(inputFilePath, outputDir string) error {
 			return ci, nil
 		}
 
+		// other boxes are expected only at the top level
+		if len(h.Path) != 1 {
+			return nil, fmt.Errorf("unexpected box type in %s: %s", h.Path[len(h.Path)-2].String(), h.BoxInfo.Type.String())
+		}
+
 		// media segment
 		if h.BoxInfo.Type == mp4.BoxTypeMoof() ||
 			h.BoxInfo.Type == mp4.BoxTypeMdat() {
-- 
2.43.0


From a917b7113e9d59e29be4ea598d31c205007ddaea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:42 +0000
Subject: [PATCH 26/33] fix: mp4tool divide panicked on media data in front of
 the fragments of a track with ID 0xffffffff

---
 cmd/mp4tool/internal/divide/divide.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/mp4tool/internal/divide/divide.go b/cmd/mp4tool/internal/divide/divide.go
index 6fd6865..dfef3d9 100644
--- a/cmd/mp4tool/internal/divide/divide.go
+++ b/cmd/mp4tool/internal/divide/divide.go
@@ -331,6 +331,9 @@ func divide(inputFilePath, outputDir string) error {
 				}
 
 				t := tracks[currTrackID]
+				if len(t.segments) == 0 {
+					return nil, nil
+				}
 				bandwidth := uint64(float64(h.BoxInfo.Size) * 8 / t.segments[len(t.segments)-1].duration)
 				if bandwidth > t.bandwidth {
 					t.bandwidth = bandwidth
-- 
2.43.0


From 21c2093c181193d345fc7333f97310bdcbb50c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:38 +0000
Subject: [PATCH 27/33] fix: count every run of a track fragment when probing

---
 probe.go | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/probe.go b/probe.go
index 65c679c..d99fdb4 100644
--- a/probe.go
+++ b/probe.go
@@ -514,7 +514,7 @@ func probeMoof(r io.ReadSeeker, bi *BoxInfo) (*Segment, error) {
 
 	var tfhd *Tfhd
 	var tfdt *Tfdt
-	var trun *Trun
+	var truns []*Trun
 
 	segment := &Segment{
 		MoofOffset: bi.Offset,
@@ -522,11 +522,14 @@ func probeMoof(r io.ReadSeeker, bi *BoxInfo) (*Segment, error) {
 	for _, bip := range bips {
 		switch bip.Info.Type {
 		case BoxTypeTfhd():
+			if tfhd != nil {
+				truns = nil // of another traf
+			}
 			tfhd = bip.Payload.(*Tfhd)
 		case BoxTypeTfdt():
 			tfdt = bip.Payload.(*Tfdt)
 		case BoxTypeTrun():
-			trun = bip.Payload.(*Trun)
+			truns = append(truns, bip.Payload.(*Trun))
 		}
 	}
 
@@ -544,32 +547,32 @@ func probeMoof(r io.ReadSeeker, bi *BoxInfo) (*Segment, error) {
 		}
 	}
 
-	if trun != nil {
-		segment.SampleCount = trun.SampleCount
+	var duration uint32
+	first := true
+	for _, trun := range truns {
+		segment.SampleCount += trun.SampleCount
 
 		if trun.CheckFlag(0x000100) {
-			segment.Duration = 0
 			for ei := range trun.Entries {
 				segment.Duration += trun.Entries[ei].SampleDuration
 			}
 		} else {
-			segment.Duration = tfhd.DefaultSampleDuration * segment.SampleCount
+			segment.Duration += tfhd.DefaultSampleDuration * trun.SampleCount
 		}
 
 		if trun.CheckFlag(0x000200) {
-			segment.Size = 0
 			for ei := range trun.Entries {
 				segment.Size += trun.Entries[ei].SampleSize
 			}
 		} else {
-			segment.Size = tfhd.DefaultSampleSize * segment.SampleCount
+			segment.Size += tfhd.DefaultSampleSize * trun.SampleCount
 		}
 
-		var duration uint32
 		for ei := range trun.Entries {
 			offset := int32(duration) + int32(trun.GetSampleCompositionTimeOffset(ei))
-			if ei == 0 || offset < segment.CompositionTimeOffset {
+			if first || offset < segment.CompositionTimeOffset {
 				segment.CompositionTimeOffset = offset
+				first = false
 			}
 			if trun.CheckFlag(0x000100) {
 				duration += trun.Entries[ei].SampleDuration
-- 
2.43.0


From ac14b78ab30a644facbc903b8250a44310b8274a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:23 +0000
Subject: [PATCH 28/33] fix: report a failed seek after an unsupported box
 version

Unmarshal goes back to the start of a payload whose version it does not
support, but ignored whether that succeeded: it reported
ErrUnsupportedBoxVersion, which callers tolerate, with the stream left at
a different position.
---
 marshaller.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/marshaller.go b/marshaller.go
index d97ea3f..10ba244 100644
--- a/marshaller.go
+++ b/marshaller.go
@@ -324,7 +324,9 @@ func Unmarshal(r io.ReadSeeker, payloadSize uint64, dst IBox, ctx Context) (n ui
 
 	if err := u.unmarshalStruct(v, boxDef.fields); err != nil {
 		if err == ErrUnsupportedBoxVersion {
-			r.Seek(sn, io.SeekStart)
+			if _, serr := r.Seek(sn, io.SeekStart); serr != nil {
+				return 0, serr
+			}
 		}
 		return 0, err
 	}
-- 
2.43.0


From d698ba8aa88281869e7ba10629912a8f70548357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:50 +0000
Subject: [PATCH 29/33] fix: render the smallest 64-bit integer in hexadecimal

Negating it does not change it, so it was shown as
-0x-8000000000000000.
---
 string.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/string.go b/string.go
index 5e5d532..8a9fc5f 100644
--- a/string.go
+++ b/string.go
@@ -215,7 +215,7 @@ func (m *stringifier) stringifyInt(v reflect.Value, fi *fieldInstance, depth int
 			m.buf.WriteString(strconv.FormatInt(val, 16))
 		} else {
 			m.buf.WriteString("-0x")
-			m.buf.WriteString(strconv.FormatInt(-val, 16))
+			m.buf.WriteString(strconv.FormatUint(uint64(-val), 16))
 		}
 	} else {
 		m.buf.WriteString(strconv.FormatInt(v.Int(), 10))
-- 
2.43.0


From b540204fc106534a7dac12b25c275bffbf75fefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:59 +0000
Subject: [PATCH 30/33] fix: report errors when writing the playlists in divide

The playlists are written with File.WriteString, whose errors are ignored,
so that divide ends successfully with incomplete playlists when the disk
is full. Write through a buffer and return its error.
---
 cmd/mp4tool/internal/divide/divide.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/cmd/mp4tool/internal/divide/divide.go b/cmd/mp4tool/internal/divide/divide.go
index dfef3d9..bb5fe17 100644
--- a/cmd/mp4tool/internal/divide/divide.go
+++ b/cmd/mp4tool/internal/divide/divide.go
@@ -1,6 +1,7 @@
 package divide
 
 import (
+	"bufio"
 	"fmt"
 	"io"
 	"math"
@@ -380,11 +381,12 @@ func divide(inputFilePath, outputDir string) error {
 }
 
 func outputMasterPlaylist(filePath string, trackTypeMap map[trackType]*track) error {
-	file, err := os.Create(filePath)
+	f, err := os.Create(filePath)
 	if err != nil {
 		return err
 	}
-	defer file.Close()
+	defer f.Close()
+	file := bufio.NewWriter(f)
 
 	var adir string
 	var vdir string
@@ -420,15 +422,16 @@ func outputMasterPlaylist(filePath string, trackTypeMap map[trackType]*track) er
 		file.WriteString("\n")
 		file.WriteString(vdir + "/" + playlistFileName + "\n")
 	}
-	return nil
+	return file.Flush()
 }
 
 func outputMediaPlaylist(filePath string, segments []segment) error {
-	file, err := os.Create(filePath)
+	f, err := os.Create(filePath)
 	if err != nil {
 		return err
 	}
-	defer file.Close()
+	defer f.Close()
+	file := bufio.NewWriter(f)
 
 	var maxDur float64
 	for i := range segments {
@@ -453,5 +456,5 @@ func outputMediaPlaylist(filePath string, segments []segment) error {
 		}
 	}
 	file.WriteString("#EXT-X-ENDLIST\n")
-	return nil
+	return file.Flush()
 }
-- 
2.43.0


From 36fec8ca762875e1d91c0bd0361522a42263a64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:14 +0000
Subject: [PATCH 31/33] fix: report destinations that take only part of the
 data

A short write without an error went unnoticed when writing box headers and
payload fields, so that a truncated header or payload was reported as
written. Return io.ErrShortWrite as io.Copy does.
---
 box_info.go             |  4 +++-
 internal/bitio/write.go | 10 ++++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/box_info.go b/box_info.go
index c54beb4..6344d7e 100644
--- a/box_info.go
+++ b/box_info.go
@@ -85,8 +85,10 @@ func WriteBoxInfo(w io.WriteSeeker, bi *BoxInfo) (*BoxInfo, error) {
 	data[6] = bi.Type[2]
 	data[7] = bi.Type[3]
 
-	if _, err := w.Write(data); err != nil {
+	if n, err := w.Write(data); err != nil {
 		return nil, err
+	} else if n != len(data) {
+		return nil, io.ErrShortWrite
 	}
 
 	return &BoxInfo{
diff --git a/internal/bitio/write.go b/internal/bitio/write.go
index 5f63dd2..571d193 100644
--- a/internal/bitio/write.go
+++ b/internal/bitio/write.go
@@ -29,7 +29,11 @@ func (w *writer) Write(p []byte) (n int, err error) {
 	if w.width != 0 {
 		return 0, ErrInvalidAlignment
 	}
-	return w.writer.Write(p)
+	n, err = w.writer.Write(p)
+	if err == nil && n != len(p) {
+		err = io.ErrShortWrite
+	}
+	return n, err
 }
 
 func (w *writer) WriteBits(data []byte, width uint) error {
@@ -51,8 +55,10 @@ func (w *writer) WriteBit(bit bool) error {
 	w.width++
 
 	if w.width == 8 {
-		if _, err := w.writer.Write([]byte{w.octet}); err != nil {
+		if n, err := w.writer.Write([]byte{w.octet}); err != nil {
 			return err
+		} else if n != 1 {
+			return io.ErrShortWrite
 		}
 		w.octet = 0x00
 		w.width = 0
-- 
2.43.0


From 9bc3884c052bab2cca7d1a8de4aebfda7ad89ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:44 +0000
Subject: [PATCH 32/33] fix: write all bits of a boolean field wider than a
 byte

---
 marshaller.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/marshaller.go b/marshaller.go
index 10ba244..5420b46 100644
--- a/marshaller.go
+++ b/marshaller.go
@@ -225,7 +225,8 @@ func (m *marshaller) marshalBool(v reflect.Value, fi *fieldInstance) error {
 	} else {
 		val = 0x00
 	}
-	if err := m.writer.WriteBits([]byte{val}, fi.size); err != nil {
+	data := bytes.Repeat([]byte{val}, int(fi.size+7)/8)
+	if err := m.writer.WriteBits(data, fi.size); err != nil {
 		return err
 	}
 	m.wbits += uint64(fi.size)
-- 
2.43.0


From e45bb581e1cbc9ba34c799f3e8ecb4be23e0fe2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:31 +0000
Subject: [PATCH 33/33] fix: assign samples per chunk in linear time

Entries of stsc that start over again and again made Probe visit every chunk for
every entry, so a small file could keep it busy for a very long time.
---
 probe.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/probe.go b/probe.go
index d99fdb4..11ea47b 100644
--- a/probe.go
+++ b/probe.go
@@ -335,14 +335,16 @@ func probeTrak(r io.ReadSeeker, bi *BoxInfo) (*Track, error) {
 	if stsc == nil {
 		return nil, errors.New("stsc box not found")
 	}
-	for si, entry := range stsc.Entries {
-		end := uint32(len(track.Chunks))
-		if si != len(stsc.Entries)-1 && stsc.Entries[si+1].FirstChunk-1 < end {
-			end = stsc.Entries[si+1].FirstChunk - 1
-		}
-		for ci := entry.FirstChunk - 1; ci < end; ci++ {
+	end := uint32(len(track.Chunks))
+	for si := len(stsc.Entries) - 1; si >= 0; si-- {
+		entry := stsc.Entries[si]
+		begin := entry.FirstChunk - 1
+		for ci := begin; ci < end; ci++ {
 			track.Chunks[ci].SamplesPerChunk = entry.SamplesPerChunk
 		}
+		if begin < end {
+			end = begin
+		}
 	}
 
 	if ctts != nil {
-- 
2.43.0

