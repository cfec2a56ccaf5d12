From 9169e3d2e3ca5bc924a3974600fe98a8e9092b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:27 +0000
Subject: [PATCH 01/80] fix: don't panic on xpacket shorter than its header
 when scanning

---
 xmp/reader.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xmp/reader.go b/xmp/reader.go
index 4b999ed..09d799f 100644
--- a/xmp/reader.go
+++ b/xmp/reader.go
@@ -67,7 +67,10 @@ var packet_end = []byte("<?xpacket end")       // plus suffix `"w"?>`
 var magic = []byte("W5M0MpCehiHzreSzNTczkc9d") // len 24
 
 func isXmpPacket(b []byte) bool {
-	return bytes.Index(b[:51], magic) > -1
+	if len(b) > 51 {
+		b = b[:51]
+	}
+	return bytes.Index(b, magic) > -1
 }
 
 func splitPacket(data []byte, atEOF bool) (advance int, token []byte, err error) {
-- 
2.43.0


From c40f8c97d8e8c863db83787bbcbd4811fd7376fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:27 +0000
Subject: [PATCH 02/80] fix: find xpackets whose start marker is split across
 reads

---
 xmp/reader.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/xmp/reader.go b/xmp/reader.go
index 09d799f..eaa76f3 100644
--- a/xmp/reader.go
+++ b/xmp/reader.go
@@ -76,11 +76,15 @@ func isXmpPacket(b []byte) bool {
 func splitPacket(data []byte, atEOF bool) (advance int, token []byte, err error) {
 	start := bytes.Index(data, packet_start)
 	if start == -1 {
-		ofs := len(data) - len(packet_start)
-		if ofs > 0 {
+		// keep a partial start marker until more data arrives
+		ofs := len(data) - len(packet_start) + 1
+		if ofs > 0 && !atEOF {
 			return ofs, nil, nil
 		}
-		return len(data), nil, nil
+		if atEOF {
+			return len(data), nil, nil
+		}
+		return 0, nil, nil
 	}
 	end := bytes.Index(data[start:], packet_end)
 	last := start + end + len(packet_end) + 6
-- 
2.43.0


From e1f86539cf00e639d104e3511ff7dfae63657a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:27 +0000
Subject: [PATCH 03/80] fix: scan xpackets larger than 64kB

---
 xmp/reader.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xmp/reader.go b/xmp/reader.go
index eaa76f3..62ae7eb 100644
--- a/xmp/reader.go
+++ b/xmp/reader.go
@@ -18,6 +18,7 @@ import (
 	"bufio"
 	"bytes"
 	"io"
+	"math"
 )
 
 func Read(r io.Reader) (*Document, error) {
@@ -44,6 +45,7 @@ func Scan(r io.Reader) (*Document, error) {
 func ScanPackets(r io.Reader) ([][]byte, error) {
 	packets := make([][]byte, 0)
 	s := bufio.NewScanner(r)
+	s.Buffer(nil, math.MaxInt32)
 	s.Split(splitPacket)
 	for s.Scan() {
 		b := s.Bytes()
@@ -92,7 +94,8 @@ func splitPacket(data []byte, atEOF bool) (advance int, token []byte, err error)
 		if atEOF {
 			return len(data), nil, nil
 		}
-		return 0, nil, nil
+		// drop leading garbage, keep the incomplete packet
+		return start, nil, nil
 	}
 	return last, data[start:last], nil
 }
-- 
2.43.0


From 07e8d6e249f858b4db412e04fe559eefbed95632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:16 +0000
Subject: [PATCH 04/80] fix: don't lose an xpacket behind a stray start marker
 when scanning

---
 xmp/reader.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/xmp/reader.go b/xmp/reader.go
index 62ae7eb..77c422b 100644
--- a/xmp/reader.go
+++ b/xmp/reader.go
@@ -88,6 +88,14 @@ func splitPacket(data []byte, atEOF bool) (advance int, token []byte, err error)
 		}
 		return 0, nil, nil
 	}
+	// emit a start marker without packet id alone, it must not hide a packet
+	if !isXmpPacket(data[start:]) {
+		if !atEOF && len(data)-start < 51 {
+			return start, nil, nil
+		}
+		last := start + len(packet_start)
+		return last, data[start:last], nil
+	}
 	end := bytes.Index(data[start:], packet_end)
 	last := start + end + len(packet_end) + 6
 	if end == -1 || last > len(data) {
-- 
2.43.0


From c8f78191f8a5cf40a1bea122ab0eac2c760a2005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:30 +0000
Subject: [PATCH 05/80] fix: read structures whose type also has a text form
 from their fields

---
 xmp/unmarshal.go | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/xmp/unmarshal.go b/xmp/unmarshal.go
index e64d069..73c588b 100644
--- a/xmp/unmarshal.go
+++ b/xmp/unmarshal.go
@@ -231,8 +231,9 @@ func (d *Decoder) unmarshal(val reflect.Value, finfo *fieldInfo, src *Node) erro
 		}
 	}
 
-	// Text
-	if val.CanAddr() {
+	// Text, unless the node carries structure fields for a type that's not
+	// written as text
+	if val.CanAddr() && !d.isStruct(val, src) {
 		pv := val.Addr()
 		if pv.CanInterface() && (finfo != nil && finfo.flags&fTextUnmarshal > 0 || pv.Type().Implements(textUnmarshalerType)) {
 			return pv.Interface().(encoding.TextUnmarshaler).UnmarshalText([]byte(src.Value))
@@ -288,6 +289,24 @@ func (d *Decoder) unmarshal(val reflect.Value, finfo *fieldInfo, src *Node) erro
 	return nil
 }
 
+// isStruct reports whether src holds fields of the structure val rather than
+// a text value.
+func (d *Decoder) isStruct(val reflect.Value, src *Node) bool {
+	if val.Kind() != reflect.Struct || val.Type().Implements(textMarshalerType) {
+		return false
+	}
+	if len(src.Nodes) > 0 {
+		return true
+	}
+	for _, a := range src.Attr {
+		d.translate(&a.Name)
+		if !skipField(a.Name) {
+			return true
+		}
+	}
+	return false
+}
+
 func (d *Decoder) unmarshalAttr(val reflect.Value, finfo *fieldInfo, src Attr) error {
 	// Load value from interface
 	val = derefValue(val)
-- 
2.43.0


From 3a3d5ab349a3fcdf8e06c40cd039ef2c36ace5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:30 +0000
Subject: [PATCH 06/80] fix: parse content ratings from the first field on

---
 models/itunes/types.go | 9 +++++----
 models/qt/types.go     | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/models/itunes/types.go b/models/itunes/types.go
index be6b280..e0c44fc 100644
--- a/models/itunes/types.go
+++ b/models/itunes/types.go
@@ -88,6 +88,7 @@ func (x ContentRating) String() string {
 	buf.WriteString(x.Score)
 	buf.WriteByte('|')
 	buf.WriteString(x.Reasons)
+	buf.WriteByte(')')
 	return buf.String()
 }
 
@@ -99,13 +100,13 @@ func (x *ContentRating) UnmarshalText(data []byte) error {
 	v = strings.TrimSuffix(v, ")")
 	for i, s := range strings.Split(v, "|") {
 		switch i {
-		case 1:
+		case 0:
 			cr.Standard = s
-		case 2:
+		case 1:
 			cr.Rating = s
-		case 3:
+		case 2:
 			cr.Score = s
-		case 4:
+		case 3:
 			cr.Reasons = s
 		}
 	}
diff --git a/models/qt/types.go b/models/qt/types.go
index 2719b95..99c8158 100644
--- a/models/qt/types.go
+++ b/models/qt/types.go
@@ -128,6 +128,7 @@ func (x ContentRating) String() string {
 	buf.WriteString(x.Score)
 	buf.WriteByte('|')
 	buf.WriteString(x.Reasons)
+	buf.WriteByte(')')
 	return buf.String()
 }
 
@@ -139,13 +140,13 @@ func (x *ContentRating) UnmarshalText(data []byte) error {
 	v = strings.TrimSuffix(v, ")")
 	for i, s := range strings.Split(v, "|") {
 		switch i {
-		case 1:
+		case 0:
 			cr.Standard = s
-		case 2:
+		case 1:
 			cr.Rating = s
-		case 3:
+		case 2:
 			cr.Score = s
-		case 4:
+		case 3:
 			cr.Reasons = s
 		}
 	}
-- 
2.43.0


From c7c370a03dc84c2ccbc6a2d3d6675e00bdd44004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:30 +0000
Subject: [PATCH 07/80] fix: include ManageUI when deciding that a resource
 reference is unset

---
 models/xmp_mm/types.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/models/xmp_mm/types.go b/models/xmp_mm/types.go
index 0cf33b1..104f8de 100644
--- a/models/xmp_mm/types.go
+++ b/models/xmp_mm/types.go
@@ -52,6 +52,7 @@ func (x ResourceRef) IsZero() bool {
 		x.Manager.IsZero() &&
 		x.ManagerVariant == "" &&
 		x.ManageTo == "" &&
+		x.ManageUI == "" &&
 		x.MaskMarkers == "" &&
 		x.PartMapping == "" &&
 		x.RenditionClass == "" &&
-- 
2.43.0


From f61fd95e6236a2bd028833651439129df8b2329b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:30 +0000
Subject: [PATCH 08/80] fix: read a typed identifier from its node, don't swap
 thumbnail width and height

---
 models/xmp_base/types.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/models/xmp_base/types.go b/models/xmp_base/types.go
index e939097..d73b563 100644
--- a/models/xmp_base/types.go
+++ b/models/xmp_base/types.go
@@ -83,7 +83,7 @@ func (x *Identifier) UnmarshalXMP(d *xmp.Decoder, node *xmp.Node, m xmp.Model) e
 		err = d.DecodeElement(&id.ID, node) // value from node.Value
 		err = d.DecodeElement(&id, node)    // scheme from attr
 	} else {
-		err = d.DecodeElement(&id, node.Nodes[0]) // both from child nodes
+		err = d.DecodeElement(&id, node) // both from child nodes
 	}
 	if err != nil {
 		return err
@@ -169,8 +169,8 @@ func (x *IdentifierArray) UnmarshalXMP(d *xmp.Decoder, node *xmp.Node, m xmp.Mod
 // Part 2: 1.2.2.4 Thumbnail
 type Thumbnail struct {
 	Format string `xmp:"xmpGImg:format"`
-	Width  int64  `xmp:"xmpGImg:height"`
-	Height int64  `xmp:"xmpGImg:width"`
+	Width  int64  `xmp:"xmpGImg:width"`
+	Height int64  `xmp:"xmpGImg:height"`
 	Image  []byte `xmp:"xmpGImg:image"`
 }
 
-- 
2.43.0


From 97d16be83f34a06076ccfce1f05235dd1f3f99d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:30 +0000
Subject: [PATCH 09/80] fix: don't divide by zero on iXML speed without rates

---
 models/ixml/types.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/models/ixml/types.go b/models/ixml/types.go
index b0b69ba..8f1a769 100644
--- a/models/ixml/types.go
+++ b/models/ixml/types.go
@@ -151,6 +151,9 @@ func (x Speed) XmpTimecode() xmpdm.Timecode {
 	if rate == 0 {
 		rate = int64(x.TimecodeRate.Value() * 1000)
 	}
+	if rate == 0 {
+		return xmpdm.Timecode{}
+	}
 	sec := samples / rate
 	h := sec / 3600
 	m := (sec - h*3600) / 60
-- 
2.43.0


From 3c019cee30b6eaa9a9d84838cb723e98116e54dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:38 +0000
Subject: [PATCH 10/80] fix: write arrays and structures as elements, not
 attributes; read marker types

---
 models/id3/types.go        |  2 +-
 models/itunes/movieinfo.go |  2 +-
 models/xmp_dm/types.go     | 14 +++++++++++++-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/models/id3/types.go b/models/id3/types.go
index 7f991dc..f8e2460 100644
--- a/models/id3/types.go
+++ b/models/id3/types.go
@@ -259,7 +259,7 @@ type TimedLyrics struct {
 	Lang   string        `xmp:"id3:lang,attr"`
 	Type   LyricsType    `xmp:"id3:type,attr"`
 	Unit   PositionType  `xmp:"id3:unit,attr"`
-	Lyrics TimedTextList `xmp:"id3:lyrics,attr"`
+	Lyrics TimedTextList `xmp:"id3:lyrics"`
 }
 
 type TimedLyricsArray []TimedLyrics
diff --git a/models/itunes/movieinfo.go b/models/itunes/movieinfo.go
index 90dca48..d679b5d 100644
--- a/models/itunes/movieinfo.go
+++ b/models/itunes/movieinfo.go
@@ -20,7 +20,7 @@ import (
 )
 
 type MovieInfo struct {
-	AssetInfo     *AssetInfo  `plist:"asset-info"    xmp:"iTunes:AssetInfo,attr"`
+	AssetInfo     *AssetInfo  `plist:"asset-info"    xmp:"iTunes:AssetInfo"`
 	Studio        string      `plist:"studio"        xmp:"iTunes:Studio,attr"`
 	Cast          PersonArray `plist:"cast"          xmp:"iTunes:Cast"`
 	Directors     PersonArray `plist:"directors"     xmp:"iTunes:Directors"`
diff --git a/models/xmp_dm/types.go b/models/xmp_dm/types.go
index da17002..c93271d 100644
--- a/models/xmp_dm/types.go
+++ b/models/xmp_dm/types.go
@@ -432,6 +432,18 @@ func (x MarkerList) Filter(types MarkerTypeList) MarkerList {
 
 type MarkerTypeList []MarkerType
 
+func (x MarkerTypeList) Typ() xmp.ArrayType {
+	return xmp.ArrayTypeOrdered
+}
+
+func (x MarkerTypeList) MarshalXMP(e *xmp.Encoder, node *xmp.Node, m xmp.Model) error {
+	return xmp.MarshalArray(e, node, x.Typ(), x)
+}
+
+func (x *MarkerTypeList) UnmarshalXMP(d *xmp.Decoder, node *xmp.Node, m xmp.Model) error {
+	return xmp.UnmarshalArray(d, node, x.Typ(), x)
+}
+
 func (x MarkerTypeList) Intersect(y MarkerTypeList) MarkerTypeList {
 	m := make(map[MarkerType]bool)
 	for _, v := range x {
@@ -722,7 +734,7 @@ type Track struct {
 	FrameRate FrameRate      `xmp:"xmpDM:frameRate,attr"`
 	Markers   MarkerList     `xmp:"xmpDM:markers"`
 	Name      string         `xmp:"xmpDM:trackName,attr"`
-	Type      MarkerTypeList `xmp:"xmpDM:trackType,attr"`
+	Type      MarkerTypeList `xmp:"xmpDM:trackType"`
 }
 
 type TrackArray []Track
-- 
2.43.0


From fbdeb48b1920d531afae7ae618507fbc65ef4896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:38 +0000
Subject: [PATCH 11/80] fix: don't duplicate id3 genres or drop totals and line
 structure on sync

---
 models/id3/model.go | 12 ++++--------
 models/id3/types.go | 12 +++++++-----
 2 files changed, 11 insertions(+), 13 deletions(-)

diff --git a/models/id3/model.go b/models/id3/model.go
index 1621a9e..9aebeb7 100644
--- a/models/id3/model.go
+++ b/models/id3/model.go
@@ -114,9 +114,7 @@ func (x *ID3) SyncFromXMP(d *xmp.Document) error {
 			}
 		}
 		if dm.TrackNumber > 0 {
-			x.TrackNumber = TrackNum{
-				Track: dm.TrackNumber,
-			}
+			x.TrackNumber.Track = dm.TrackNumber
 		}
 		if dm.PartOfCompilation.Value() {
 			x.IsCompilation = True
@@ -130,11 +128,9 @@ func (x *ID3) SyncFromXMP(d *xmp.Document) error {
 			x.ModifiedBy = dm.Engineer
 		}
 		if dm.DiscNumber > 0 {
-			x.PartOfASet = TrackNum{
-				Track: dm.DiscNumber,
-			}
+			x.PartOfASet.Track = dm.DiscNumber
 		}
-		if dm.Lyrics != "" {
+		if dm.Lyrics != "" && dm.Lyrics != strings.Join(x.UnsynchronizedLyrics, "\n") {
 			x.UnsynchronizedLyrics = strings.Split(dm.Lyrics, "\n")
 		}
 	}
@@ -169,7 +165,7 @@ func (x ID3) SyncToXMP(d *xmp.Document) error {
 	if x.RecordingTime.IsZero() && !x.Date_v23.IsZero() && !x.Time_v23.IsZero() {
 		_, mm, dd := x.Date_v23.Value().Date()
 		h, m, s := x.Time_v23.Value().Clock()
-		x.RecordingTime = xmp.Date(time.Date(x.Year_v23, mm, dd, h, m, s, 0, nil))
+		x.RecordingTime = xmp.Date(time.Date(x.Year_v23, mm, dd, h, m, s, 0, time.UTC))
 	}
 	if !x.RecordingTime.IsZero() {
 		base, err := xmpbase.MakeModel(d)
diff --git a/models/id3/types.go b/models/id3/types.go
index f8e2460..4bbe12b 100644
--- a/models/id3/types.go
+++ b/models/id3/types.go
@@ -145,21 +145,23 @@ type Genre []string
 
 func (x *Genre) UnmarshalText(data []byte) error {
 	value := string(data)
+	list := make(Genre, 0)
 	for _, v := range strings.Split(value, ",") {
 		v = strings.TrimSpace(v)
 		if g, err := ParseGenreV1(v); err == nil {
-			*x = append(*x, g.String())
+			list = append(list, g.String())
 			continue
 		}
-		switch value {
+		switch v {
 		case "RX":
-			*x = append(*x, "Remix")
+			list = append(list, "Remix")
 		case "CR":
-			*x = append(*x, "Cover")
+			list = append(list, "Cover")
 		default:
-			*x = append(*x, value)
+			list = append(list, v)
 		}
 	}
+	*x = list
 	return nil
 }
 
-- 
2.43.0


From 7935f295aa0706248a10c9fbe0199341f6eef2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:26 +0000
Subject: [PATCH 12/80] fix: write embedded documents as properties, keep
 unknown attributes in extensions

---
 xmp/xmp_ext.go | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/xmp/xmp_ext.go b/xmp/xmp_ext.go
index 88a513b..89cd100 100644
--- a/xmp/xmp_ext.go
+++ b/xmp/xmp_ext.go
@@ -16,6 +16,7 @@ package xmp
 
 import (
 	"encoding/xml"
+	"strings"
 )
 
 // Raw nodes are used to keep custom data models inside a container. This
@@ -49,25 +50,27 @@ func (x *Extension) FindNodeByName(name string) *Node {
 
 func (x Extension) MarshalXMP(e *Encoder, node *Node, m Model) error {
 	for _, ext := range x.Nodes {
+		// keep raw nodes as they are
+		if ext.Model == nil && (ext.XMLName.Space != "" || strings.Contains(ext.XMLName.Local, ":")) {
+			node.Nodes = append(node.Nodes, copyNode(ext))
+			continue
+		}
+
+		// unwrap one extra layer that we keep for identifying extensions
 		if ext.Model != nil {
 			if err := e.EncodeElement(ext.Model, node); err != nil {
 				return err
 			}
 		}
-
-		// unwrap one extra layer that we keep for identifying extensions
-		if x.XMLName.Local == "" {
-			for _, child := range ext.Nodes {
-				if child.Model != nil {
-					if err := e.EncodeElement(child.Model, node); err != nil {
-						return err
-					}
-				} else {
-					node.Nodes = append(node.Nodes, copyNode(child))
+		node.Attr = append(node.Attr, ext.Attr...)
+		for _, child := range ext.Nodes {
+			if child.Model != nil {
+				if err := e.EncodeElement(child.Model, node); err != nil {
+					return err
 				}
+			} else {
+				node.Nodes = append(node.Nodes, copyNode(child))
 			}
-		} else {
-			node.Nodes = append(node.Nodes, copyNode(ext))
 		}
 	}
 	return nil
-- 
2.43.0


From c8925942923875cb2ff5a0ae0f990b7c5b4587ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:09 +0000
Subject: [PATCH 13/80] fix: keep the default of language alternatives, remove
 just the given array element

---
 models/qt/types.go       |   2 +-
 models/riff/types.go     |   2 +-
 models/xmp_base/types.go |   2 +-
 xmp/array.go             | 112 ++++++++++++++++++++++++++-------------
 4 files changed, 77 insertions(+), 41 deletions(-)

diff --git a/models/qt/types.go b/models/qt/types.go
index 99c8158..59f729c 100644
--- a/models/qt/types.go
+++ b/models/qt/types.go
@@ -43,7 +43,7 @@ func (x MultilangArray) MarshalXMP(e *xmp.Encoder, node *xmp.Node, m xmp.Model)
 }
 
 func (x *MultilangArray) UnmarshalXMP(d *xmp.Decoder, node *xmp.Node, m xmp.Model) error {
-	return xmp.UnmarshalArray(d, node, xmp.AltString(*x).Typ(), (*xmp.AltString)(x))
+	return (*xmp.AltString)(x).UnmarshalXMP(d, node, m)
 }
 
 type Location struct {
diff --git a/models/riff/types.go b/models/riff/types.go
index e888026..168d471 100644
--- a/models/riff/types.go
+++ b/models/riff/types.go
@@ -58,5 +58,5 @@ func (x AltString) MarshalXMP(e *xmp.Encoder, node *xmp.Node, m xmp.Model) error
 }
 
 func (x *AltString) UnmarshalXMP(d *xmp.Decoder, node *xmp.Node, m xmp.Model) error {
-	return xmp.UnmarshalArray(d, node, xmp.AltString(*x).Typ(), (*xmp.AltString)(x))
+	return (*xmp.AltString)(x).UnmarshalXMP(d, node, m)
 }
diff --git a/models/xmp_base/types.go b/models/xmp_base/types.go
index d73b563..81bd0ad 100644
--- a/models/xmp_base/types.go
+++ b/models/xmp_base/types.go
@@ -150,7 +150,7 @@ func (x *IdentifierArray) Index(val string) int {
 
 func (x *IdentifierArray) Remove(v string) {
 	if idx := x.Index(v); idx > -1 {
-		*x = append((*x)[:idx], (*x)[:idx+1]...)
+		*x = append((*x)[:idx:idx], (*x)[idx+1:]...)
 	}
 }
 
diff --git a/xmp/array.go b/xmp/array.go
index b75ab40..bb45303 100644
--- a/xmp/array.go
+++ b/xmp/array.go
@@ -96,24 +96,36 @@ func NewAltString(items ...interface{}) AltString {
 
 // make sure there is exactly one a default and it's the first item
 func (a *AltString) EnsureDefault() {
-	l := len(*a)
-	if l > 1 {
-		idx := -1
-		for i := 0; i < l; i++ {
-			if (*a)[i].IsDefault {
-				if idx > -1 {
-					(*a)[i].IsDefault = false
-				} else {
-					idx = i
-				}
-			}
+	if len(*a) == 0 {
+		return
+	}
+	idx := -1
+	for i := range *a {
+		v := &(*a)[i]
+		if v.Lang == "x-default" {
+			// the default item is identified by its flag
+			v.Lang = ""
+			v.IsDefault = true
+		}
+		if !v.IsDefault {
+			continue
 		}
-		if idx != 0 {
-			(*a)[idx], (*a)[0] = (*a)[0], (*a)[idx]
+		if idx > -1 {
+			v.IsDefault = false
+		} else {
+			idx = i
 		}
-	} else if l == 1 {
+	}
+	if idx == -1 {
+		idx = 0
 		(*a)[0].IsDefault = true
 	}
+	// move the default to front, keep the order of all other items
+	if idx > 0 {
+		def := (*a)[idx]
+		copy((*a)[1:idx+1], (*a)[:idx])
+		(*a)[0] = def
+	}
 }
 
 func (a AltString) Default() string {
@@ -127,7 +139,7 @@ func (a AltString) Default() string {
 
 func (a AltString) Index(lang string) int {
 	for i, v := range a {
-		if v.Lang == lang {
+		if v.Lang == lang || lang == "x-default" && v.IsDefault {
 			return i
 		}
 	}
@@ -135,7 +147,7 @@ func (a AltString) Index(lang string) int {
 }
 
 func (a AltString) Get(lang string) string {
-	if lang == "" {
+	if lang == "" || lang == "x-default" {
 		return a.Default()
 	}
 	for _, v := range a {
@@ -150,27 +162,43 @@ func (a *AltString) AddDefault(lang string, value string) {
 	if value == "" {
 		return
 	}
-	i := AltItem{
+	if lang == "x-default" {
+		lang = ""
+	}
+
+	// add new default as first element
+	x := AltString{AltItem{
 		Value:     value,
 		Lang:      lang,
 		IsDefault: true,
-	}
+	}}
 
-	// clear any previous default
-	for i, l := 0, len(*a); i < l; i++ {
-		(*a)[i].IsDefault = false
+	// clear any previous default, without a language it is replaced
+	for _, v := range *a {
+		if v.Lang == "" || v.Lang == "x-default" {
+			continue
+		}
+		v.IsDefault = false
+		x = append(x, v)
 	}
-
-	// add new default as first element
-	*a = append(AltString{i}, (*a)...)
+	*a = x
 }
 
 func (a *AltString) AddUnique(lang string, value string) bool {
 	if value == "" {
 		return false
 	}
-	if idx := a.Index(lang); idx > -1 && (*a)[idx].Value == value {
-		return false
+	if lang == "x-default" {
+		lang = ""
+	}
+	for _, v := range *a {
+		if v.Lang != lang && !(lang == "" && v.IsDefault) {
+			continue
+		}
+		// there is just one default
+		if v.Value == value || v.Lang == "" {
+			return false
+		}
 	}
 	a.Add(lang, value)
 	return true
@@ -180,6 +208,10 @@ func (a *AltString) Add(lang string, value string) {
 	if value == "" {
 		return
 	}
+	if lang == "" || lang == "x-default" {
+		a.AddDefault("", value)
+		return
+	}
 	*a = append(*a, AltItem{
 		Value:     value,
 		Lang:      lang,
@@ -192,6 +224,9 @@ func (a *AltString) Set(lang string, value string) {
 	if value == "" {
 		return
 	}
+	if lang == "x-default" {
+		lang = ""
+	}
 	if i := a.Index(lang); i > -1 {
 		(*a)[i].Value = value
 	} else {
@@ -200,15 +235,8 @@ func (a *AltString) Set(lang string, value string) {
 }
 
 func (a *AltString) RemoveLang(lang string) {
-	idx := -1
-	for i, v := range *a {
-		if v.Lang == lang {
-			idx = i
-			break
-		}
-	}
-	if idx > -1 {
-		*a = append((*a)[:idx], (*a)[idx+1:]...)
+	if idx := a.Index(lang); idx > -1 {
+		*a = append((*a)[:idx:idx], (*a)[idx+1:]...)
 		a.EnsureDefault()
 	}
 }
@@ -246,6 +274,7 @@ func (x *AltString) UnmarshalXMP(d *Decoder, node *Node, m Model) error {
 		*x = append((*x)[:dup], (*x)[dup+1:]...)
 	}
 
+	x.EnsureDefault()
 	return nil
 }
 
@@ -395,7 +424,7 @@ func (x *StringList) Remove(v string) {
 		return
 	}
 	if idx := x.Index(v); idx > -1 {
-		*x = append((*x)[:idx], (*x)[:idx+1]...)
+		*x = append((*x)[:idx:idx], (*x)[idx+1:]...)
 	}
 }
 
@@ -499,7 +528,7 @@ func (x *StringArray) Remove(v string) {
 		return
 	}
 	if idx := x.Index(v); idx > -1 {
-		*x = append((*x)[:idx], (*x)[:idx+1]...)
+		*x = append((*x)[:idx:idx], (*x)[idx+1:]...)
 	}
 }
 
@@ -530,6 +559,13 @@ func (x StringArray) MarshalText() ([]byte, error) {
 
 func MarshalArray(e *Encoder, node *Node, typ ArrayType, items interface{}) error {
 
+	// language alternatives start with their default
+	if alt, ok := items.(AltString); ok {
+		alt = append(AltString{}, alt...)
+		alt.EnsureDefault()
+		items = alt
+	}
+
 	val := reflect.ValueOf(items)
 	kind := val.Kind()
 
@@ -556,7 +592,7 @@ func MarshalArray(e *Encoder, node *Node, typ ArrayType, items interface{}) erro
 		if reflect.TypeOf(v) == reflect.TypeOf(AltItem{}) {
 			ai := v.(AltItem)
 			if typ == ArrayTypeAlternative {
-				if ai.IsDefault || val.Len() == 1 {
+				if ai.IsDefault {
 					elem.AddStringAttr("xml:lang", "x-default")
 					if err := e.EncodeElement(ai.Value, elem); err != nil {
 						return err
-- 
2.43.0


From c6b00ac879c07e70128bbe71d1a02c539e953ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:09 +0000
Subject: [PATCH 14/80] fix: keep a timecode that was set by its text

---
 models/xmp_dm/types.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/models/xmp_dm/types.go b/models/xmp_dm/types.go
index c93271d..0ee62e4 100644
--- a/models/xmp_dm/types.go
+++ b/models/xmp_dm/types.go
@@ -655,8 +655,19 @@ func (x Timecode) IsZero() bool {
 	return x.Value == "" && x.Format == ""
 }
 
-func (x Timecode) MarshalJSON() ([]byte, error) {
+// pack sets the text value from its components unless only the text is set
+func (x *Timecode) pack() {
+	if x.Value != "" && x.H == 0 && x.M == 0 && x.S == 0 && x.F == 0 {
+		tc := Timecode{Value: x.Value, IsDropFrame: strings.Contains(x.Value, ";")}
+		if tc.Unpack() == nil {
+			return
+		}
+	}
 	x.Value = x.String()
+}
+
+func (x Timecode) MarshalJSON() ([]byte, error) {
+	x.pack()
 	type _t Timecode
 	return json.Marshal(_t(x))
 }
@@ -685,7 +696,7 @@ func (x *Timecode) UnmarshalJSON(data []byte) error {
 }
 
 func (x Timecode) MarshalXMP(e *xmp.Encoder, node *xmp.Node, m xmp.Model) error {
-	x.Value = x.String()
+	x.pack()
 	type _t Timecode
 	return e.EncodeElement(_t(x), node)
 }
-- 
2.43.0


From cdfce1f243697b183aa2e3ad16931c75f798e9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:06 +0000
Subject: [PATCH 15/80] fix: don't write unset structures

---
 xmp/marshal.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xmp/marshal.go b/xmp/marshal.go
index 11fcda8..c3cefe0 100644
--- a/xmp/marshal.go
+++ b/xmp/marshal.go
@@ -512,6 +512,8 @@ func isEmptyValue(v reflect.Value) bool {
 		return v.Float() == 0
 	case reflect.Interface, reflect.Ptr:
 		return v.IsNil()
+	case reflect.Struct:
+		return v.IsZero()
 	}
 	return false
 }
-- 
2.43.0


From e8d55116f0aab45b8a2ac3f11a309bd29b2c1470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:33 +0000
Subject: [PATCH 16/80] fix: keep the toolkit of a decoded document

---
 xmp/unmarshal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmp/unmarshal.go b/xmp/unmarshal.go
index 73c588b..9342dff 100644
--- a/xmp/unmarshal.go
+++ b/xmp/unmarshal.go
@@ -85,7 +85,7 @@ func (d *Decoder) Decode(x *Document) error {
 	// 2  skip top-level `x:xmpmeta` (optional) and `rdf:RDF` nodes
 	if root.FullName() == "x:xmpmeta" {
 		if a := root.GetAttr(nsX.GetURI(), "xmptk"); len(a) > 0 {
-			x.toolkit = strings.TrimSpace(a[0].Value)
+			d.toolkit = strings.TrimSpace(a[0].Value)
 		}
 		if len(root.Nodes) == 0 {
 			return fmt.Errorf("xmp: invalid XML format: missing rdf:RDF node")
-- 
2.43.0


From bcc08a17e9e207a3d5cc0b9a280f0ce0c5ecbcfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:13 +0000
Subject: [PATCH 17/80] fix: use namespaces declared on any element

---
 xmp/unmarshal.go | 49 ++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 43 insertions(+), 6 deletions(-)

diff --git a/xmp/unmarshal.go b/xmp/unmarshal.go
index 9342dff..d51aa67 100644
--- a/xmp/unmarshal.go
+++ b/xmp/unmarshal.go
@@ -82,6 +82,8 @@ func (d *Decoder) Decode(x *Document) error {
 		return fmt.Errorf("xmp: parsing xml failed: %v", err)
 	}
 
+	top := root
+
 	// 2  skip top-level `x:xmpmeta` (optional) and `rdf:RDF` nodes
 	if root.FullName() == "x:xmpmeta" {
 		if a := root.GetAttr(nsX.GetURI(), "xmptk"); len(a) > 0 {
@@ -101,11 +103,7 @@ func (d *Decoder) Decode(x *Document) error {
 	}
 
 	// 3  extract document namespaces
-	for _, n := range root.Nodes {
-		for _, v := range n.GetAttr("xmlns", "") {
-			d.addNamespace(v.Name.Local, v.Value)
-		}
-	}
+	d.collectNamespaces(top)
 
 	// 4  walk node tree and create model instances
 	for _, n := range root.Nodes {
@@ -364,6 +362,34 @@ func (d Decoder) translate(n *xml.Name) {
 	}
 }
 
+// Namespaces may be declared on any element, either with a prefix or as default
+// namespace. Names in the tree are already resolved, so the declarations are
+// dropped from the tree.
+func (d *Decoder) collectNamespaces(n *Node) {
+	name := n.FullName()
+	attr := n.Attr[:0]
+	for _, v := range n.Attr {
+		switch {
+		case v.Name.Space == "xmlns":
+			// the outer elements' own namespaces don't belong to the document
+			isOuter := name == "x:xmpmeta" || name == "rdf:RDF"
+			if !isOuter || v.Value != nsX.GetURI() && v.Value != nsRDF.GetURI() {
+				d.addNamespace(v.Name.Local, v.Value)
+			}
+		case v.Name.Space == "" && v.Name.Local == "xmlns":
+			if v.Value != "" {
+				d.addNamespace("", v.Value)
+			}
+		default:
+			attr = append(attr, v)
+		}
+	}
+	n.Attr = attr
+	for _, v := range n.Nodes {
+		d.collectNamespaces(v)
+	}
+}
+
 // Keep track of all used namespaces (registered and unknown).
 // In XML a local name's prefix may differ from the XMP standard
 // prefix. Even Adobe used to use `xap` instead of `xmp` as prefix
@@ -375,12 +401,23 @@ func (d *Decoder) addNamespace(prefix, uri string) {
 		return
 	}
 
-	// keep track of unknown namespaces using their in-document prefix
+	// keep track of unknown namespaces using their in-document prefix unless
+	// it's missing or already names another namespace
 	if _, ok := d.extNsMap[uri]; !ok {
+		for i := 1; prefix == "" || d.isPrefixUsed(prefix); i++ {
+			prefix = fmt.Sprintf("ns%d", i)
+		}
 		d.extNsMap[uri] = &Namespace{prefix, uri, emptyFactory}
 	}
 }
 
+func (d *Decoder) isPrefixUsed(prefix string) bool {
+	if _, err := NsRegistry.GetNamespace(prefix); err == nil {
+		return true
+	}
+	return d._findNsByPrefix(prefix) != nil
+}
+
 func (d Decoder) _findNsByURI(uri string) *Namespace {
 	if v, ok := d.intNsMap[uri]; ok {
 		return v
-- 
2.43.0


From cafc6b3c09ba81364e7859641f3e24180ef70ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:13 +0000
Subject: [PATCH 18/80] fix: don't crash reporting an invalid list item

---
 xmp/unmarshal.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmp/unmarshal.go b/xmp/unmarshal.go
index d51aa67..c6bbb63 100644
--- a/xmp/unmarshal.go
+++ b/xmp/unmarshal.go
@@ -280,7 +280,7 @@ func (d *Decoder) unmarshal(val reflect.Value, finfo *fieldInfo, src *Node) erro
 	} else {
 		// otherwise set simple value directly
 		if err := setValue(val, src.Value); err != nil {
-			return fmt.Errorf("xmp: unmarshal %s: %v", finfo.String(), err)
+			return fmt.Errorf("xmp: unmarshal %s: %v", src.FullName(), err)
 		}
 	}
 
@@ -334,7 +334,7 @@ func (d *Decoder) unmarshalAttr(val reflect.Value, finfo *fieldInfo, src Attr) e
 		// Recur to read element into slice.
 		if err := d.unmarshalAttr(val.Index(n), nil, src); err != nil {
 			val.SetLen(n)
-			return fmt.Errorf("xmp: unmarshal %s: %v", finfo.String(), err)
+			return fmt.Errorf("xmp: unmarshal attr %s: %v", src.Name.Local, err)
 		}
 		return nil
 	}
-- 
2.43.0


From cac7c9302695ab6dd9b4ba9b5666ac17a3f66ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:13 +0000
Subject: [PATCH 19/80] fix: read all text of an element and report nested XML
 errors

---
 xmp/node.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/xmp/node.go b/xmp/node.go
index 8aec5eb..a2cd1c8 100644
--- a/xmp/node.go
+++ b/xmp/node.go
@@ -366,6 +366,7 @@ func (n *Node) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
 
 func (n *Node) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 	var nodes []*Node
+	var text strings.Builder
 	var done bool
 	for !done {
 		t, err := d.Token()
@@ -374,10 +375,13 @@ func (n *Node) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 		}
 		switch t := t.(type) {
 		case xml.CharData:
-			n.Value = strings.TrimSpace(string(t))
+			// comments and CDATA sections may split the text
+			text.Write(t)
 		case xml.StartElement:
 			x := NewNode(emptyName)
-			x.UnmarshalXML(d, t)
+			if err := x.UnmarshalXML(d, t); err != nil {
+				return err
+			}
 			nodes = append(nodes, x)
 		case xml.EndElement:
 			done = true
@@ -385,6 +389,7 @@ func (n *Node) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 	}
 	n.XMLName = start.Name
 	n.Attr.From(start.Attr)
+	n.Value = strings.TrimSpace(text.String())
 	n.Nodes = nodes
 	return nil
 }
-- 
2.43.0


From 0bb99e7ccaf3cb828757cf3a73f06913490848ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:13 +0000
Subject: [PATCH 20/80] fix: read URIs from rdf:resource

---
 xmp/node.go      |  8 ++++++++
 xmp/xmp_types.go | 14 +++++++++++---
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/xmp/node.go b/xmp/node.go
index a2cd1c8..df5a1ff 100644
--- a/xmp/node.go
+++ b/xmp/node.go
@@ -76,6 +76,14 @@ func NewName(local string) xml.Name {
 	return xml.Name{Local: local}
 }
 
+// isRdfName reports whether n is an RDF name, before or after translation.
+func isRdfName(n xml.Name, local string) bool {
+	if n.Space != "" {
+		return n.Space == nsRDF.GetURI() && n.Local == local
+	}
+	return n.Local == nsRDF.Expand(local)
+}
+
 func NewNode(name xml.Name) *Node {
 	var n *Node
 	select {
diff --git a/xmp/xmp_types.go b/xmp/xmp_types.go
index 7c2a014..9b532a7 100644
--- a/xmp/xmp_types.go
+++ b/xmp/xmp_types.go
@@ -451,9 +451,17 @@ func NewUri(u string) Uri {
 // }
 
 func (x *Uri) UnmarshalXMP(d *Decoder, node *Node, m Model) error {
-	if attr := node.GetAttr("rdf", "resource"); len(attr) > 0 {
-		*x = Uri(attr[0].Value)
-		return nil
+	// a qualified URI keeps its value in a child node
+	for _, n := range node.Nodes {
+		if isRdfName(n.XMLName, "value") {
+			return x.UnmarshalXMP(d, n, m)
+		}
+	}
+	for _, a := range node.Attr {
+		if isRdfName(a.Name, "resource") {
+			*x = Uri(strings.TrimSpace(a.Value))
+			return nil
+		}
 	}
 	var u string
 	if err := d.DecodeElement(&u, node); err != nil {
-- 
2.43.0


From 6256057e6dcad5f5a486aef937d39d6483fef781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:02 +0000
Subject: [PATCH 21/80] fix: keep properties whose qualifiers or structure a
 model can't hold

---
 xmp/marshal.go   | 15 +++++++--
 xmp/node.go      | 34 +++++++++++++++++++++
 xmp/unmarshal.go | 79 ++++++++++++++++++++++++++++++++++++++----------
 xmp/xmp_types.go | 12 --------
 4 files changed, 109 insertions(+), 31 deletions(-)

diff --git a/xmp/marshal.go b/xmp/marshal.go
index c3cefe0..b0f6ed4 100644
--- a/xmp/marshal.go
+++ b/xmp/marshal.go
@@ -166,7 +166,8 @@ func (e *Encoder) Encode(d *Document) error {
 		}
 
 		// 1.2  merge external nodes (Note: all ext nodes collected under a
-		//      document node belong to the same namespace)
+		//      document node belong to the same namespace) unless the model
+		//      has a value for the same property
 		ns := e.findNs(n.XMLName)
 		if ns == nil {
 			return fmt.Errorf("xmp: missing namespace for model node %s", n.XMLName.Local)
@@ -176,11 +177,19 @@ func (e *Encoder) Encode(d *Document) error {
 			node = NewNode(n.XMLName)
 			e.root.AddNode(node)
 		}
-		node.Nodes = append(node.Nodes, copyNodes(n.Nodes)...)
+		for _, v := range n.Nodes {
+			if n.Model == nil || !node.hasProperty(v.XMLName) {
+				node.Nodes = append(node.Nodes, copyNode(v))
+			}
+		}
 
 		// 1.3  merge external attributes (Note: all ext attr collected under a
 		//      document node belong to the same namespace)
-		node.Attr = append(node.Attr, n.Attr...)
+		for _, v := range n.Attr {
+			if n.Model == nil || !node.hasProperty(v.Name) {
+				node.Attr = append(node.Attr, v)
+			}
+		}
 	}
 
 	// 2  collect root-node namespaces
diff --git a/xmp/node.go b/xmp/node.go
index df5a1ff..069c7a6 100644
--- a/xmp/node.go
+++ b/xmp/node.go
@@ -301,6 +301,40 @@ func (n Node) IsArray() bool {
 	}
 }
 
+// hasProperty reports whether a node has a child or attribute of that name.
+func (n *Node) hasProperty(name xml.Name) bool {
+	for _, v := range n.Nodes {
+		if v.XMLName == name {
+			return true
+		}
+	}
+	for _, v := range n.Attr {
+		if v.Name == name {
+			return true
+		}
+	}
+	return false
+}
+
+// isResource reports whether a node's children are fields that need the
+// rdf:parseType attribute.
+func (n *Node) isResource() bool {
+	if n.Value != "" || n.IsArray() {
+		return false
+	}
+	for _, v := range n.Attr {
+		if isRdfName(v.Name, "resource") {
+			return false
+		}
+	}
+	for _, v := range n.Nodes {
+		if isRdfName(v.XMLName, "Description") {
+			return false
+		}
+	}
+	return true
+}
+
 func (n Node) ArrayType() ArrayType {
 	if len(n.Nodes) == 1 {
 		switch n.Nodes[0].FullName() {
diff --git a/xmp/unmarshal.go b/xmp/unmarshal.go
index c6bbb63..53b1e45 100644
--- a/xmp/unmarshal.go
+++ b/xmp/unmarshal.go
@@ -158,7 +158,17 @@ func (d *Decoder) decodeNode(ctx *NodeList, src *Node) error {
 	if node.Model != nil {
 		finfo, field := d.findStructField(derefIndirect(node.Model), name)
 		if field.IsValid() {
-			return d.unmarshal(field, finfo, src)
+			err := d.unmarshal(field, finfo, src)
+			if _, ok := err.(*contentError); !ok {
+				return err
+			}
+			// keep the property as it is when its type has no place for all
+			// of the node's content, unless the field is always written
+			if finfo.flags&fEmpty > 0 {
+				return err
+			}
+			field.Set(reflect.Zero(field.Type()))
+			storeNode = true
 		} else {
 			storeNode = finfo == nil || finfo.flags&fOmit == 0
 		}
@@ -234,7 +244,11 @@ func (d *Decoder) unmarshal(val reflect.Value, finfo *fieldInfo, src *Node) erro
 	if val.CanAddr() && !d.isStruct(val, src) {
 		pv := val.Addr()
 		if pv.CanInterface() && (finfo != nil && finfo.flags&fTextUnmarshal > 0 || pv.Type().Implements(textUnmarshalerType)) {
-			return pv.Interface().(encoding.TextUnmarshaler).UnmarshalText([]byte(src.Value))
+			text, err := simpleValue(src)
+			if err != nil {
+				return err
+			}
+			return pv.Interface().(encoding.TextUnmarshaler).UnmarshalText([]byte(text))
 		}
 	}
 
@@ -279,7 +293,11 @@ func (d *Decoder) unmarshal(val reflect.Value, finfo *fieldInfo, src *Node) erro
 		}
 	} else {
 		// otherwise set simple value directly
-		if err := setValue(val, src.Value); err != nil {
+		text, err := simpleValue(src)
+		if err != nil {
+			return err
+		}
+		if err := setValue(val, text); err != nil {
 			return fmt.Errorf("xmp: unmarshal %s: %v", src.FullName(), err)
 		}
 	}
@@ -287,6 +305,44 @@ func (d *Decoder) unmarshal(val reflect.Value, finfo *fieldInfo, src *Node) erro
 	return nil
 }
 
+// contentError tells that a node holds more than the text its type expects.
+type contentError struct {
+	name string
+}
+
+func (e *contentError) Error() string {
+	return fmt.Sprintf("xmp: unmarshal %s: unexpected content in simple value", e.name)
+}
+
+// simpleValue returns the text of a node that holds a simple value. Qualifiers
+// and any other structure are not supported.
+func simpleValue(src *Node) (string, error) {
+	n := src
+	for {
+		text := n.Value
+		for _, a := range n.Attr {
+			switch {
+			case isRdfName(a.Name, "resource"), isRdfName(a.Name, "value"):
+				text = strings.TrimSpace(a.Value)
+			case a.Name.Space == nsRDF.GetURI(), a.Name.Space == nsXML.GetURI(), a.Name.Space == "xmlns":
+				// syntax
+			case a.Name.Space == "" && (a.Name.Local == "xmlns" || nsRDF.MatchXMLName(a.Name) || nsXML.MatchXMLName(a.Name)):
+				// syntax
+			default:
+				return "", &contentError{src.FullName()}
+			}
+		}
+		switch {
+		case len(n.Nodes) == 0:
+			return text, nil
+		case len(n.Nodes) == 1 && (isRdfName(n.Nodes[0].XMLName, "value") || isRdfName(n.Nodes[0].XMLName, "Description")):
+			n = n.Nodes[0]
+		default:
+			return "", &contentError{src.FullName()}
+		}
+	}
+}
+
 // isStruct reports whether src holds fields of the structure val rather than
 // a text value.
 func (d *Decoder) isStruct(val reflect.Value, src *Node) bool {
@@ -461,32 +517,23 @@ func (d *Decoder) findStructField(val reflect.Value, name string) (*fieldInfo, r
 	}
 
 	var finfo *fieldInfo
-	any := -1
-	// pick the correct field based on name, flags and version
-	for i, v := range tinfo.fields {
+	// pick the correct field based on name and version
+	for i := range tinfo.fields {
+		v := &tinfo.fields[i]
 		// version must always match
 		if !d.version.Between(v.minVersion, v.maxVersion) {
 			continue
 		}
 
-		// save `any` field in case
-		if v.flags&fAny > 0 {
-			any = i
-		}
-
 		// field name must match
 		if v.name != name {
 			continue
 		}
 
-		finfo = &v
+		finfo = v
 		break
 	}
 
-	if finfo == nil && any >= 0 {
-		finfo = &tinfo.fields[any]
-	}
-
 	// nothing found
 	if finfo == nil {
 		return nil, reflect.Value{}
diff --git a/xmp/xmp_types.go b/xmp/xmp_types.go
index 9b532a7..a16bc47 100644
--- a/xmp/xmp_types.go
+++ b/xmp/xmp_types.go
@@ -451,18 +451,6 @@ func NewUri(u string) Uri {
 // }
 
 func (x *Uri) UnmarshalXMP(d *Decoder, node *Node, m Model) error {
-	// a qualified URI keeps its value in a child node
-	for _, n := range node.Nodes {
-		if isRdfName(n.XMLName, "value") {
-			return x.UnmarshalXMP(d, n, m)
-		}
-	}
-	for _, a := range node.Attr {
-		if isRdfName(a.Name, "resource") {
-			*x = Uri(strings.TrimSpace(a.Value))
-			return nil
-		}
-	}
 	var u string
 	if err := d.DecodeElement(&u, node); err != nil {
 		return err
-- 
2.43.0


From a99ec51341f0c8ecabe9639ef7c111c38e832fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:02 +0000
Subject: [PATCH 22/80] fix: write named extensions as they were read

---
 xmp/xmp_ext.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/xmp/xmp_ext.go b/xmp/xmp_ext.go
index 89cd100..07ed5a5 100644
--- a/xmp/xmp_ext.go
+++ b/xmp/xmp_ext.go
@@ -184,18 +184,37 @@ func (x *NamedExtensionArray) FindNodeByName(name string) *Node {
 func (x NamedExtensionArray) MarshalXMP(e *Encoder, node *Node, m Model) error {
 	for _, v := range x {
 		ext := NewNode(NewName(v.XMLName.Local))
-		ext.AddAttr(rdfResourceAttr)
+		ext.Value = v.Value
 		ext.Nodes = append(ext.Nodes, copyNodes(v.Nodes)...)
 		ext.Attr = append(ext.Attr, v.Attr...)
+		if (*Node)(v).isResource() {
+			ext.AddAttr(rdfResourceAttr)
+		}
 		node.AddNode(ext)
 	}
 	return nil
 }
 
 func (x *NamedExtensionArray) UnmarshalXMP(d *Decoder, node *Node, m Model) error {
+	for _, v := range node.Attr {
+		d.translate(&v.Name)
+		if skipField(v.Name) || nsRDF.MatchXMLName(v.Name) {
+			continue
+		}
+		ext := (*Extension)(NewNode(NewName(v.Name.Local)))
+		ext.Value = v.Value
+		*x = append(*x, ext)
+	}
 	for _, v := range node.Nodes {
 		v.translate(d)
+		if v.FullName() == "rdf:Description" {
+			if err := x.UnmarshalXMP(d, v, m); err != nil {
+				return err
+			}
+			continue
+		}
 		ext := (*Extension)(NewNode(NewName(v.XMLName.Local)))
+		ext.Value = v.Value
 		ext.Nodes = append(ext.Nodes, copyNodes(v.Nodes)...)
 		ext.Attr = append(ext.Attr, v.Attr...)
 		*x = append(*x, ext)
-- 
2.43.0


From 80feec27dbb77a83914bb7242d1779dd8d0251d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:02 +0000
Subject: [PATCH 23/80] fix: write native tags under well-formed names and read
 them back

---
 xmp/native.go | 84 +++++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 75 insertions(+), 9 deletions(-)

diff --git a/xmp/native.go b/xmp/native.go
index b9c579d..3c6312d 100644
--- a/xmp/native.go
+++ b/xmp/native.go
@@ -19,6 +19,7 @@ import (
 	"encoding/xml"
 	"fmt"
 	"reflect"
+	"strconv"
 	"strings"
 )
 
@@ -35,9 +36,12 @@ func (x TagList) MarshalXMP(e *Encoder, node *Node, m Model) error {
 		return nil
 	}
 	for _, v := range x {
-		name := xml.Name{Local: v.Key}
+		if v.Key == "" {
+			continue
+		}
+		name := xml.Name{Local: escapeTag(v.Key, "")}
 		if v.Lang != "" {
-			name.Local += "-" + v.Lang
+			name.Local += "-" + escapeTag(v.Lang, "-0123456789")
 		}
 		node.AddAttr(Attr{
 			Name:  name,
@@ -49,19 +53,81 @@ func (x TagList) MarshalXMP(e *Encoder, node *Node, m Model) error {
 
 func (x *TagList) UnmarshalXMP(d *Decoder, node *Node, m Model) error {
 	for _, v := range node.Attr {
-		tag := Tag{
-			Key:   v.Name.Local,
-			Value: v.Value,
+		d.translate(&v.Name)
+		if skipField(v.Name) || nsRDF.MatchXMLName(v.Name) {
+			continue
 		}
-		if i := strings.Index(tag.Key, "-"); i > -1 {
-			// FIXME: parsing would be better here
-			tag.Key, tag.Lang = tag.Key[:i], tag.Key[i+1:]
+		if v.Name.Space != "" || hasPrefix(v.Name.Local) {
+			return &contentError{node.FullName()}
+		}
+		x.addAttr(v.Name.Local, v.Value)
+	}
+	for _, v := range node.Nodes {
+		d.translate(&v.XMLName)
+		switch {
+		case v.FullName() == "rdf:Description":
+			if err := x.UnmarshalXMP(d, v, m); err != nil {
+				return err
+			}
+		case v.XMLName.Space != "" || hasPrefix(v.XMLName.Local) || len(v.Nodes) > 0:
+			return &contentError{node.FullName()}
+		default:
+			x.addAttr(v.XMLName.Local, v.Value)
 		}
-		*x = append(*x, tag)
 	}
 	return nil
 }
 
+func (x *TagList) addAttr(name, value string) {
+	tag := Tag{
+		Key:   name,
+		Value: value,
+	}
+	if i := strings.Index(tag.Key, "-"); i > -1 {
+		tag.Key, tag.Lang = tag.Key[:i], tag.Key[i+1:]
+	}
+	tag.Key, tag.Lang = unescapeTag(tag.Key), unescapeTag(tag.Lang)
+	*x = append(*x, tag)
+}
+
+// Tags are stored as XML attributes. Characters which are not safe in an
+// unprefixed name, and the dash that separates a key from its language, are
+// written as _xHHHH_.
+func escapeTag(s, safe string) string {
+	var b strings.Builder
+	for i, r := range s {
+		switch {
+		case r == '_' && strings.HasPrefix(s[i:], "_x"), i == 0 && s == "xmlns":
+			fmt.Fprintf(&b, "_x%04X_", r)
+		case r == '_', 'a' <= r && r <= 'z', 'A' <= r && r <= 'Z':
+			b.WriteRune(r)
+		case i > 0 && (r == '.' || '0' <= r && r <= '9'), strings.ContainsRune(safe, r):
+			b.WriteRune(r)
+		default:
+			fmt.Fprintf(&b, "_x%04X_", r)
+		}
+	}
+	return b.String()
+}
+
+func unescapeTag(s string) string {
+	var b strings.Builder
+	for len(s) > 0 {
+		if strings.HasPrefix(s, "_x") {
+			if i := strings.Index(s[2:], "_"); i >= 4 {
+				if r, err := strconv.ParseUint(s[2:2+i], 16, 21); err == nil {
+					b.WriteRune(rune(r))
+					s = s[i+3:]
+					continue
+				}
+			}
+		}
+		b.WriteByte(s[0])
+		s = s[1:]
+	}
+	return b.String()
+}
+
 func GetNativeField(v Model, name string) (string, error) {
 	nsName, err := getNamespaceName(v)
 	if err != nil {
-- 
2.43.0


From da519fa518a27425680cd85346859d3e809837cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:21 +0000
Subject: [PATCH 24/80] fix: JSON keeps arrays, qualifiers, language
 alternatives, numbers and prefixes

---
 xmp/json.go    | 435 +++++++++++++++++++++++++------------------------
 xmp/marshal.go |  14 +-
 xmp/node.go    |  18 ++
 xmp/xmp_ext.go |   1 +
 4 files changed, 244 insertions(+), 224 deletions(-)

diff --git a/xmp/json.go b/xmp/json.go
index 59931ce..e07933e 100644
--- a/xmp/json.go
+++ b/xmp/json.go
@@ -15,11 +15,14 @@
 package xmp
 
 import (
+	"bytes"
 	"encoding/json"
 	"encoding/xml"
 	"fmt"
 	"reflect"
+	"sort"
 	"strconv"
+	"strings"
 )
 
 type jsonDocument struct {
@@ -81,11 +84,7 @@ func (d *Document) MarshalJSON() ([]byte, error) {
 			node = NewNode(n.XMLName)
 			e.root.AddNode(node)
 		}
-		node.Nodes = append(node.Nodes, copyNodes(n.Nodes)...)
-
-		// 1.3  merge external attributes (Note: all ext attr collected under a
-		//      document node belong to the same namespace)
-		node.Attr = append(node.Attr, n.Attr...)
+		node.mergeExternal(n)
 	}
 
 	// 2  collect root-node namespaces
@@ -121,105 +120,100 @@ func (d *Document) MarshalJSON() ([]byte, error) {
 }
 
 func nodeToJson(n *Node) (interface{}, error) {
-	// process value leaf nodes (Note: value and model are mutually exclusive)
-	if n.Value != "" {
-		return &n.Value, nil
-	}
-
-	out := make(map[string]interface{})
-
-	// add node attributes
+	var attr AttrList
+	isResource := false
 	for _, v := range n.Attr {
-		name := v.Name.Local
 		// Note:  stripping rdf attributes from external child nodes
 		//        that are relinked during marshal with all attributes
-		if name == "rdf:parseType" {
+		if isRdfName(v.Name, "parseType") {
+			isResource = true
 			continue
 		}
-		out[name] = v.Value
+		attr = append(attr, v)
 	}
 
-	// add node children
+	// plain values and arrays without qualifiers
+	if len(attr) == 0 {
+		if len(n.Nodes) == 0 && !(isResource && n.Value == "") {
+			return n.Value, nil
+		}
+		if n.Value == "" && n.IsArray() {
+			a, isPlain, err := arrayToJson(n.Nodes[0])
+			if isPlain || err != nil {
+				return a, err
+			}
+		}
+	}
+
+	// all other content
+	out := make(map[string]interface{})
+	for _, v := range attr {
+		out[v.Name.Local] = v.Value
+	}
+	if n.Value != "" {
+		out["rdf:value"] = n.Value
+	}
 	for _, v := range n.Nodes {
-		switch v.FullName() {
-		case "rdf:Bag", "rdf:Seq":
-			// skip outer node and unwrap inner li nodes as array elements
-			a := make([]interface{}, 0)
-			for _, vv := range v.Nodes {
-				if vv.Value != "" {
-					// simple lists (i.e. string lists or numbers etc)
-					a = append(a, &vv.Value)
-				} else {
-					// object lists
-					// m := make(map[string]interface{})
-					if m, err := nodeToJson(vv); err != nil {
-						return nil, err
-					} else {
-						a = append(a, m)
-					}
-				}
+		var m interface{}
+		var err error
+		switch name := v.FullName(); name {
+		case "rdf:Bag", "rdf:Seq", "rdf:Alt":
+			m, _, err = arrayToJson(v)
+		default:
+			m, err = nodeToJson(v)
+		}
+		if err != nil {
+			return nil, err
+		}
+		out[v.FullName()] = m
+	}
+	return out, nil
+}
+
+// arrayToJson converts the items of an array. The boolean result is true when
+// the array's type can be left out because it's either known by the model or
+// can be seen from the JSON value.
+func arrayToJson(n *Node) (interface{}, bool, error) {
+	// language alternatives
+	if n.FullName() == "rdf:Alt" && len(n.Nodes) > 0 {
+		items := make([]*AltItem, 0, len(n.Nodes))
+		for _, v := range n.Nodes {
+			if len(v.Nodes) > 0 || len(v.Attr) != 1 || stripPrefix(v.Attr[0].Name.Local) != "lang" {
+				break
 			}
-			return a, nil
-
-		case "rdf:Alt":
-			// determine content type (strings or objects)
-			if len(v.Nodes) > 0 && len(v.Nodes[0].Nodes) > 0 {
-				// object type: skip outer node and insert interface
-				a := make([]interface{}, 0)
-				for _, vv := range v.Nodes {
-					if m, err := nodeToJson(vv); err != nil {
-						return nil, err
-					} else {
-						a = append(a, m)
-					}
-				}
-				return a, nil
-			} else {
-				// string type: skip outer node and insert ArrayItems
-				var defLangContent string
-				var defLangIndex int = -1
-				a := make([]*AltItem, 0)
-				for i, vv := range v.Nodes {
-					// string arrays
-					ai := &AltItem{
-						Value: vv.Value,
-					}
-					langAttr := vv.GetAttr("", "lang")
-					if len(langAttr) > 0 {
-						ai.Lang = langAttr[0].Value
-					}
-					if ai.Lang == "x-default" {
-						ai.IsDefault = true
-						defLangContent = ai.Value
-						defLangIndex = i
-					}
-					a = append(a, ai)
+			ai := &AltItem{Value: v.Value, Lang: v.Attr[0].Value}
+			ai.IsDefault = ai.Lang == "x-default"
+
+			// join the default item with the same text in its language
+			if l := len(items); l > 0 {
+				if prev := items[l-1]; prev.IsDefault && prev.Lang == "x-default" && prev.Value == ai.Value && !ai.IsDefault {
+					prev.Lang = ai.Lang
+					continue
 				}
-				// mark the default item
-				if defLangContent != "" && len(a) > 1 {
-					for i, l := 0, len(a); i < l; i++ {
-						if a[i].Value == defLangContent {
-							a[i].IsDefault = true
-						}
-					}
-					// remove the duplicate default element
-					if defLangIndex > -1 {
-						a = append(a[:defLangIndex], a[defLangIndex+1:]...)
-					}
-				}
-				return a, nil
 			}
-
-		default:
-			if m, err := nodeToJson(v); err != nil {
-				return nil, err
-			} else {
-				out[v.FullName()] = m
+			items = append(items, ai)
+		}
+		var count int
+		for _, v := range items {
+			count++
+			if v.IsDefault && v.Lang != "x-default" {
+				count++
 			}
 		}
+		if count == len(n.Nodes) {
+			return items, true, nil
+		}
 	}
 
-	return out, nil
+	a := make([]interface{}, 0, len(n.Nodes))
+	for _, v := range n.Nodes {
+		m, err := nodeToJson(v)
+		if err != nil {
+			return nil, false, err
+		}
+		a = append(a, m)
+	}
+	return a, !n.raw || n.FullName() == "rdf:Seq", nil
 }
 
 // The difference to regular JSON decoding is that we must take care of
@@ -240,25 +234,32 @@ func (d *Document) UnmarshalJSON(data []byte) error {
 	// We're using the regular XMP decoder with a JSON boilerplate.
 	dec := NewDecoder(nil)
 
-	// register namespaces
+	// register namespaces, the document may use other prefixes for them
 	dec.about = in.About
 	dec.toolkit = in.Toolkit
-	for prefix, uri := range in.Namespaces {
+	names := make(jsonNames)
+	for _, prefix := range sortedKeys(in.Namespaces) {
+		uri := in.Namespaces[prefix]
 		dec.addNamespace(prefix, uri)
+		if ns := dec._findNsByURI(uri); ns != nil && ns.GetName() != prefix {
+			names[prefix] = ns.GetName()
+		}
 	}
 
 	// build node tree from JSON models
 	root := NewNode(emptyName)
 	defer root.Close()
-	for name, b := range in.Models {
+	for _, name := range sortedKeys(in.Models) {
 		node := NewNode(xml.Name{Local: name})
 		root.Nodes = append(root.Nodes, node)
 		content := make(map[string]interface{})
-		if err := json.Unmarshal(b, &content); err != nil {
+		jd := json.NewDecoder(bytes.NewReader(in.Models[name]))
+		jd.UseNumber()
+		if err := jd.Decode(&content); err != nil {
 			return fmt.Errorf("xmp: json unmarshal model '%s' failed: %v", name, err)
 		}
-		for n, v := range content {
-			jsonToNode(n, v, node)
+		for _, n := range sortedKeys(content) {
+			names.toNode(n, content[n], node)
 		}
 	}
 
@@ -287,157 +288,169 @@ func (d *Document) UnmarshalJSON(data []byte) error {
 	return d.syncFromXMP()
 }
 
-func jsonToNode(name string, v interface{}, node *Node) {
-	switch {
-	case isSimpleValue(v):
-		var s string
-		switch val := v.(type) {
-		case string:
-			s = val
-		case float64:
-			s = strconv.FormatFloat(val, 'f', -1, 64)
-		case bool:
-			s = strconv.FormatBool(val)
-		case nil:
-			return
-		}
-		if name != "" && name != "rdf:value" {
-			// add simple values as child nodes with string value
-			attrNode := NewNode(xml.Name{Local: name})
-			attrNode.Value = s
-			node.Nodes = append(node.Nodes, attrNode)
-		} else {
-			// add as node value when no name is given (i.e. used in string arrays)
-			node.Value = s
+// jsonNames maps the namespace prefixes used in a JSON document to the ones used
+// in memory.
+type jsonNames map[string]string
+
+func (x jsonNames) xmlName(name string) xml.Name {
+	if hasPrefix(name) {
+		if p, ok := x[getPrefix(name)]; ok {
+			name = p + ":" + stripPrefix(name)
 		}
+	}
+	return NewName(name)
+}
 
-	case isArrayValue(v):
-		// arrays of arrays are not supported in XMP
-		if name == "" {
+// toNode adds a JSON value as child or attribute to a node.
+func (x jsonNames) toNode(name string, v interface{}, node *Node) {
+	if v == nil {
+		return
+	}
+	if s, ok := jsonText(v); ok && isJsonAttr(name) {
+		node.AddStringAttr(name, s)
+		return
+	}
+	if l, ok := v.([]interface{}); ok {
+		switch name {
+		case "rdf:Bag", "rdf:Seq", "rdf:Alt":
+			x.addArray(name, l, node)
 			return
 		}
+	}
+	child := NewNode(x.xmlName(name))
+	node.Nodes = append(node.Nodes, child)
+	x.setValue(v, child)
+}
 
-		// add arrays as Seq/li or Alt/li child nodes
-		containerNode := NewNode(xml.Name{Local: name})
-		node.Nodes = append(node.Nodes, containerNode)
-		typ := getArrayType(v)
-		anode := NewNode(xml.Name{Space: nsRDF.GetURI(), Local: string(typ)})
-		containerNode.Nodes = append(containerNode.Nodes, anode)
-
-		for _, av := range v.([]interface{}) {
-			linode := NewNode(xml.Name{Space: nsRDF.GetURI(), Local: "li"})
-			anode.Nodes = append(anode.Nodes, linode)
-			if typ == ArrayTypeAlternative {
-				item := av.(map[string]interface{})
-				def := item["isDefault"].(bool)
-				lang := item["lang"].(string)
-				val := item["value"].(string)
-
-				// add single node when default || !default && lang != ""
-				if def || !def && lang != "" {
-					if def {
-						linode.Attr = append(linode.Attr, Attr{
-							Name:  xml.Name{Local: "xml:lang"},
-							Value: "x-default",
-						})
-						linode.Value = val
-					} else {
-						linode.Attr = append(linode.Attr, Attr{
-							Name:  xml.Name{Local: "xml:lang"},
-							Value: lang,
-						})
-						linode.Value = val
-					}
-				}
-
-				// add second node for default && lang != ""
-				if def && lang != "" {
-					linode = NewNode(xml.Name{Space: nsRDF.GetURI(), Local: "li"})
-					anode.Nodes = append(anode.Nodes, linode)
-					linode.Attr = append(linode.Attr, Attr{
-						Name:  xml.Name{Local: "xml:lang"},
-						Value: lang,
-					})
-					linode.Value = val
+// setValue makes a JSON value the content of a node.
+func (x jsonNames) setValue(v interface{}, node *Node) {
+	switch val := v.(type) {
+	case []interface{}:
+		typ := "rdf:Seq"
+		if isAltArray(val) {
+			typ = "rdf:Alt"
+		}
+		x.addArray(typ, val, node)
+	case map[string]interface{}:
+		keys := sortedKeys(val)
+		// a value is text unless it has other qualifiers than attributes
+		isText := false
+		if text, ok := jsonText(val["rdf:value"]); ok && len(keys) > 1 {
+			isText = true
+			for _, k := range keys {
+				if _, ok := jsonText(val[k]); !ok || k != "rdf:value" && !isJsonAttr(k) {
+					isText = false
 				}
-			} else {
-				jsonToNode("", av, linode)
+			}
+			if isText {
+				node.Value = text
 			}
 		}
-
-	case isObjectValue(v):
-		// add objects as child nodes (recursive)
-		onode := node
-		if name != "" {
-			onode = NewNode(xml.Name{Local: name})
-			node.Nodes = append(node.Nodes, onode)
-		}
-		for on, ov := range v.(map[string]interface{}) {
-			if isArrayItemType(v) && on == "value" {
-				jsonToNode("", ov, onode)
-			} else {
-				jsonToNode(on, ov, onode)
+		for _, k := range keys {
+			if k == "rdf:value" && isText {
+				continue
 			}
+			x.toNode(k, val[k], node)
 		}
+		if node.isResource() {
+			node.AddAttr(rdfResourceAttr)
+		}
+	default:
+		node.Value, _ = jsonText(v)
 	}
 }
 
-// JSON unmarshal helpers
-func isSimpleValue(v interface{}) bool {
-	switch v.(type) {
-	case string, float64, bool, nil:
-		return true
-	default:
-		return false
+func (x jsonNames) addArray(typ string, l []interface{}, node *Node) {
+	arr := NewNode(NewName(typ))
+	node.Nodes = append(node.Nodes, arr)
+	addItem := func(lang string) *Node {
+		li := NewNode(NewName("rdf:li"))
+		if lang != "" {
+			li.AddStringAttr("xml:lang", lang)
+		}
+		arr.Nodes = append(arr.Nodes, li)
+		return li
+	}
+	if typ != "rdf:Alt" || !isAltArray(l) {
+		for _, v := range l {
+			x.setValue(v, addItem(""))
+		}
+		return
+	}
+	for _, v := range l {
+		item := v.(map[string]interface{})
+		lang, _ := item["lang"].(string)
+		val, _ := jsonText(item["value"])
+		if def, _ := item["isDefault"].(bool); def {
+			addItem("x-default").Value = val
+			if lang == "x-default" {
+				lang = ""
+			}
+		}
+		if lang != "" {
+			addItem(lang).Value = val
+		}
 	}
 }
 
-func isObjectValue(v interface{}) bool {
-	switch v.(type) {
-	case map[string]interface{}:
-		return true
+// JSON unmarshal helpers
+func jsonText(v interface{}) (string, bool) {
+	switch val := v.(type) {
+	case string:
+		return val, true
+	case json.Number:
+		s := val.String()
+		if strings.ContainsAny(s, "eE") {
+			if f, err := val.Float64(); err == nil {
+				s = strconv.FormatFloat(f, 'f', -1, 64)
+			}
+		}
+		return s, true
+	case bool:
+		return strconv.FormatBool(val), true
 	default:
-		return false
+		return "", false
 	}
 }
 
-func isArrayValue(v interface{}) bool {
-	switch v.(type) {
-	case []interface{}:
-		return true
+// isJsonAttr reports whether a member is an attribute of the RDF or XML
+// namespace rather than a field.
+func isJsonAttr(name string) bool {
+	switch getPrefix(name) {
+	case "xml":
+		return hasPrefix(name)
+	case "rdf":
+		return hasPrefix(name) && name != "rdf:value"
 	default:
 		return false
 	}
 }
 
-func isArrayItemType(v interface{}) bool {
-	// alternative array item
-	if isObjectValue(v) {
-		val := v.(map[string]interface{})
-		if len(val) > 3 {
+// isAltArray reports whether an array is a list of language alternatives.
+func isAltArray(l []interface{}) bool {
+	for _, v := range l {
+		item, ok := v.(map[string]interface{})
+		if !ok || len(item) > 3 {
 			return false
 		}
-		if _, ok := val["value"]; !ok {
+		if _, ok := jsonText(item["value"]); !ok {
 			return false
 		}
-		if _, ok := val["lang"]; !ok {
+		if _, ok := item["lang"].(string); !ok {
 			return false
 		}
-		if _, ok := val["isDefault"]; !ok {
+		if _, ok := item["isDefault"].(bool); !ok {
 			return false
 		}
-		return true
 	}
-	return false
+	return len(l) > 0
 }
 
-func getArrayType(v interface{}) ArrayType {
-	slice, ok := v.([]interface{})
-	if !ok || len(slice) == 0 {
-		return ArrayTypeOrdered
-	}
-	if isArrayItemType(slice[0]) {
-		return ArrayTypeAlternative
+func sortedKeys(m interface{}) []string {
+	var l []string
+	for _, v := range reflect.ValueOf(m).MapKeys() {
+		l = append(l, v.String())
 	}
-	return ArrayTypeOrdered
+	sort.Strings(l)
+	return l
 }
diff --git a/xmp/marshal.go b/xmp/marshal.go
index b0f6ed4..625387f 100644
--- a/xmp/marshal.go
+++ b/xmp/marshal.go
@@ -177,19 +177,7 @@ func (e *Encoder) Encode(d *Document) error {
 			node = NewNode(n.XMLName)
 			e.root.AddNode(node)
 		}
-		for _, v := range n.Nodes {
-			if n.Model == nil || !node.hasProperty(v.XMLName) {
-				node.Nodes = append(node.Nodes, copyNode(v))
-			}
-		}
-
-		// 1.3  merge external attributes (Note: all ext attr collected under a
-		//      document node belong to the same namespace)
-		for _, v := range n.Attr {
-			if n.Model == nil || !node.hasProperty(v.Name) {
-				node.Attr = append(node.Attr, v)
-			}
-		}
+		node.mergeExternal(n)
 	}
 
 	// 2  collect root-node namespaces
diff --git a/xmp/node.go b/xmp/node.go
index 069c7a6..1f67a33 100644
--- a/xmp/node.go
+++ b/xmp/node.go
@@ -34,6 +34,7 @@ type Node struct {
 	Model   Model    // XmpCore, DublinCore, etc
 	Value   string
 	Nodes   NodeList // child nodes
+	raw     bool     // copied as is, i.e. not made by a model
 }
 
 type Attr struct {
@@ -94,6 +95,7 @@ func NewNode(name xml.Name) *Node {
 		n.Nodes = nil
 		n.Model = nil
 		n.Value = ""
+		n.raw = false
 	default: // All in use, create a new, temporary:
 		npAllocs++
 		n = &Node{
@@ -127,6 +129,7 @@ func (n *Node) Close() {
 
 func copyNode(x *Node) *Node {
 	n := NewNode(x.XMLName)
+	n.raw = true
 	n.Value = x.Value
 	n.Model = x.Model
 	n.Attr = make([]Attr, len(x.Attr))
@@ -316,6 +319,21 @@ func (n *Node) hasProperty(name xml.Name) bool {
 	return false
 }
 
+// mergeExternal adds a document node's external nodes and attributes to an output
+// node, except for properties that also have a value in the model.
+func (n *Node) mergeExternal(src *Node) {
+	for _, v := range src.Nodes {
+		if src.Model == nil || !n.hasProperty(v.XMLName) {
+			n.Nodes = append(n.Nodes, copyNode(v))
+		}
+	}
+	for _, v := range src.Attr {
+		if src.Model == nil || !n.hasProperty(v.Name) {
+			n.Attr = append(n.Attr, v)
+		}
+	}
+}
+
 // isResource reports whether a node's children are fields that need the
 // rdf:parseType attribute.
 func (n *Node) isResource() bool {
diff --git a/xmp/xmp_ext.go b/xmp/xmp_ext.go
index 07ed5a5..e7f6267 100644
--- a/xmp/xmp_ext.go
+++ b/xmp/xmp_ext.go
@@ -97,6 +97,7 @@ func (x *Extension) UnmarshalXMP(d *Decoder, src *Node, m Model) error {
 		}
 		if err := d.decodeNode(&x.Nodes, child); err != nil {
 			// when decoding fails, store as raw child node
+			child.translate(d)
 			x.Nodes = append(x.Nodes, copyNode(child))
 		}
 	}
-- 
2.43.0


From 11113311e165f36dec1bbeb4382f87b58c2a5c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:26 +0000
Subject: [PATCH 25/80] fix: listed paths read back and rebuild the document

---
 xmp/marshal.go |    3 +
 xmp/node.go    |  636 ++++++++++++--------
 xmp/path.go    | 1538 ++++++++++++++++++++++++++++--------------------
 3 files changed, 1284 insertions(+), 893 deletions(-)

diff --git a/xmp/marshal.go b/xmp/marshal.go
index 625387f..fa8179c 100644
--- a/xmp/marshal.go
+++ b/xmp/marshal.go
@@ -492,6 +492,9 @@ func (e *Encoder) marshalValue(val reflect.Value, finfo *fieldInfo, node *Node,
 }
 
 func isEmptyValue(v reflect.Value) bool {
+	if (v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface) && v.IsNil() {
+		return true
+	}
 	if v.CanInterface() && v.Type().Implements(zeroType) {
 		return v.Interface().(Zero).IsZero()
 	}
diff --git a/xmp/node.go b/xmp/node.go
index 1f67a33..9e70069 100644
--- a/xmp/node.go
+++ b/xmp/node.go
@@ -18,6 +18,7 @@ import (
 	"encoding/xml"
 	"errors"
 	"fmt"
+	"reflect"
 	"sort"
 	"strings"
 )
@@ -172,6 +173,8 @@ func (n *NodeList) FindNodeByName(prefix string) *Node {
 		if v.Name() == prefix {
 			return v
 		}
+	}
+	for _, v := range *n {
 		if v.Model != nil && v.Model.Can(prefix) {
 			return v
 		}
@@ -454,13 +457,94 @@ func (n *Node) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 	return nil
 }
 
+// hasName reports whether a path segment addresses x. Names without prefix
+// match in any namespace.
+func hasName(x xml.Name, prefix, name string) bool {
+	full := x.Local
+	if x.Space != "" {
+		full = NsRegistry.Short(x.Space, x.Local)
+	}
+	return full == prefix+":"+name || full == name
+}
+
+// findChild returns the property a path segment addresses.
+func (n *Node) findChild(prefix, name string) *Node {
+	for _, v := range n.Nodes {
+		if isRdfName(v.XMLName, "Description") {
+			if x := v.findChild(prefix, name); x != nil {
+				return x
+			}
+		} else if hasName(v.XMLName, prefix, name) {
+			return v
+		}
+	}
+	return nil
+}
+
+// findAttr returns the node and index of the attribute a path segment addresses.
+func (n *Node) findAttr(prefix, name string) (*Node, int) {
+	for i, v := range n.Attr {
+		if hasName(v.Name, prefix, name) {
+			return n, i
+		}
+	}
+	for _, v := range n.Nodes {
+		if isRdfName(v.XMLName, "Description") {
+			if x, i := v.findAttr(prefix, name); i > -1 {
+				return x, i
+			}
+		}
+	}
+	return nil, -1
+}
+
+// getArray returns the node holding an array's items.
+func (n *Node) getArray() *Node {
+	if n.IsArray() {
+		return n.Nodes[0]
+	}
+	return nil
+}
+
+// getLang returns the language of an item in a language alternative.
+func (n *Node) getLang() string {
+	for _, v := range n.Attr {
+		if v.Name.Local == "xml:lang" || v.Name.Local == "lang" && nsXML.GetURI() == v.Name.Space {
+			return v.Value
+		}
+	}
+	return ""
+}
+
+// isAltText reports whether an array is a language alternative.
+func (n *Node) isAltText() bool {
+	if !isRdfName(n.XMLName, "Alt") {
+		return false
+	}
+	for _, v := range n.Nodes {
+		if v.getLang() != "" {
+			return true
+		}
+	}
+	return false
+}
+
+// findLang returns an item of a language alternative.
+func (n *Node) findLang(lang string) *Node {
+	for _, v := range n.Nodes {
+		if v.getLang() == lang {
+			return v
+		}
+	}
+	return nil
+}
+
 func (n *Node) GetPath(path Path) (string, error) {
 	name, path := path.PopFront()
 	name, idx, lang := parsePathSegment(name)
 	if idx < -1 {
 		return "", fmt.Errorf("path field %s: invalid index", name)
 	}
-	// fmt.Printf("Get Node path ns=%s name=%s len=%d rest=%v idx=%d lang=%s\n", path.NamespacePrefix(), name, path.Len(), path, idx, lang)
 	if name == "" && idx == -1 && lang == "" {
 		if path.Len() == 0 {
 			return n.Value, nil
@@ -470,39 +554,78 @@ func (n *Node) GetPath(path Path) (string, error) {
 	}
 
 	// lookup name in node list or attributes
-	node := n.Nodes.FindNodeByName(stripPrefix(name))
-	if node != nil {
-		switch {
-		case idx > -1:
-			// drill two levels deep into array nodes bag/seq+li
-			if len(node.Nodes) == 0 || len(node.Nodes[0].Nodes) <= idx {
-				return "", nil
+	node := n
+	if name != "" {
+		node = n.findChild(path.NamespacePrefix(), name)
+		if node == nil {
+			if x, i := n.findAttr(path.NamespacePrefix(), name); i > -1 && path.Len() == 0 && idx == -1 && lang == "" {
+				return x.Attr[i].Value, nil
 			}
-			return node.Nodes[0].Nodes[idx].GetPath(path)
-		case lang != "":
-			// drill two levels deep into alt-array nodes alt+li
-			if len(node.Nodes) == 0 || len(node.Nodes[0].Nodes) == 0 {
-				return "", nil
+			return "", nil
+		}
+	}
+	if node.Model != nil {
+		if s, err := GetModelPath(node.Model, path); err != errNotFound {
+			return s, err
+		}
+	}
+
+	arr := node.getArray()
+	switch {
+	case lang != "":
+		if arr != nil {
+			if node = arr.findLang(lang); node != nil {
+				return node.GetPath(path)
 			}
-			for _, v := range node.Nodes[0].Nodes {
-				attr := v.GetAttr("", "lang")
-				if len(attr) == 0 {
-					continue
-				}
-				if attr[0].Value == string(lang) {
-					return v.Value, nil
-				}
+		}
+		return "", nil
+	case arr != nil && idx == -1 && path.Len() > 0:
+		if _, i := node.findAttr(path.PeekNamespacePrefix(), path.peekName()); i > -1 {
+			return node.GetPath(path)
+		}
+		idx = 0
+	case arr != nil && idx == -1:
+		idx = 0
+		if arr.isAltText() {
+			if x := arr.findLang("x-default"); x != nil {
+				return x.GetPath(path)
 			}
+		}
+	}
+	if idx > -1 {
+		if arr == nil || len(arr.Nodes) <= idx {
 			return "", nil
-		default:
-			return node.GetPath(path)
 		}
+		node = arr.Nodes[idx]
 	}
+	return node.GetPath(path)
+}
 
-	if attr := n.GetAttr("", stripPrefix(name)); len(attr) > 0 {
-		return attr[0].Value, nil
+// isList reports whether a path without index addresses an array.
+func (n *Node) isList(path Path) bool {
+	name, path := path.PopFront()
+	name, idx, lang := parsePathSegment(name)
+	node := n
+	if name != "" {
+		node = n.findChild(path.NamespacePrefix(), name)
+	}
+	if node == nil {
+		return false
+	}
+	arr := node.getArray()
+	if path.Len() == 0 {
+		return arr != nil && idx == -1 && lang == ""
 	}
-	return "", nil
+	switch {
+	case arr == nil:
+	case lang != "":
+		node = arr.findLang(lang)
+	case len(arr.Nodes) > Max(idx, 0):
+		node = arr.Nodes[Max(idx, 0)]
+	default:
+		return false
+	}
+	return node != nil && node.isList(path)
 }
 
 func (n *Node) SetPath(path Path, value string, flags SyncFlags) error {
@@ -511,270 +634,301 @@ func (n *Node) SetPath(path Path, value string, flags SyncFlags) error {
 	if idx < -1 {
 		return fmt.Errorf("path field %s: invalid index", name)
 	}
-
-	// fmt.Printf("Set Node path ns=%s len=%d, path=%s, name=%s rest=%v idx=%d lang=%s\n", path.NamespacePrefix(), path.Len(), path.String(), name, path, idx, lang)
 	if name == "" && idx == -1 && lang == "" {
-		if path.Len() == 0 {
-			n.Value = value
+		if path.Len() > 0 {
+			return n.SetPath(path, value, flags)
 		}
-		return nil
+		return n.setPathValue(value, flags)
 	}
 
 	// handle attribute
-	if attr := n.GetAttr("", stripPrefix(name)); len(attr) > 0 {
-		switch {
-		case flags&REPLACE > 0 && value != "":
-			attr[0].Value = value
-			return nil
-		case flags&DELETE > 0 && value == "":
-			attr[0].Value = value
-			// will be ignored on next marshal
-			return nil
+	prefix := path.NamespacePrefix()
+	full := prefix + ":" + name
+	simple := idx == -1 && lang == "" && path.Len() == 0
+	node := n
+	if name != "" {
+		node = n.findChild(prefix, name)
+	}
+	if node == nil && simple {
+		if x, i := n.findAttr(prefix, name); i > -1 {
+			switch {
+			case value == "" && flags&DELETE > 0:
+				x.Attr = append(x.Attr[:i:i], x.Attr[i+1:]...)
+				return nil
+			case value == "":
+				return fmt.Errorf("DELETE flag required to clear '%s'", full)
+			case x.Attr[i].Value != "" && flags&REPLACE == 0:
+				return fmt.Errorf("REPLACE flag required to change '%s'", full)
+			default:
+				x.Attr = append(AttrList{}, x.Attr...)
+				x.Attr[i].Value = value
+				return nil
+			}
 		}
 	}
 
 	// handle nodes
-	node := n.Nodes.FindNodeByName(stripPrefix(name))
-	if node == nil {
-		if flags&CREATE > 0 && value != "" {
-			if name != "" && !hasPrefix(name) {
-				name = path.NamespacePrefix() + ":" + name
+	isNew := node == nil
+	if isNew {
+		if value == "" {
+			if flags&DELETE > 0 {
+				return nil
 			}
-			node = n.AddNode(NewNode(NewName(name)))
-		} else {
-			return fmt.Errorf("CREATE flag required to make node '%s'", name)
-		}
-	}
-	switch {
-	case idx > -1 || (node.IsArray() && lang == ""):
-		arr := node.Nodes.FindNodeByName("Seq")
-		if arr == nil {
-			arr = node.Nodes.FindNodeByName("Bag")
+			return fmt.Errorf("DELETE flag required to clear '%s'", full)
 		}
-		if arr == nil && flags&CREATE == 0 {
-			return fmt.Errorf("CREATE flag required to make array '%s'", name)
+		if flags&(CREATE|APPEND|UNIQUE) == 0 || flags&CREATE == 0 && path.Len() > 0 {
+			return fmt.Errorf("CREATE flag required to make node '%s'", full)
 		}
-		if arr == nil {
-			arr = node.AddNode(NewNode(NewName("rdf:Seq")))
+		if !isTagName(prefix) || !isTagName(name) {
+			return fmt.Errorf("invalid name '%s'", full)
 		}
-
-		// recurse when we're not at the end of the path
-		if path.Len() > 0 {
-			if idx < 0 {
-				idx = 0
-			}
-			if l := len(arr.Nodes); l <= idx {
-				if flags&(CREATE|APPEND) == 0 && value != "" {
-					return fmt.Errorf("CREATE flag required to extend array '%s'", name)
-				}
-				for ; l <= idx; l++ {
-					arr.AppendNode(NewNode(NewName("rdf:li")))
-				}
+		if full == "rdf:resource" || full == "xml:lang" {
+			if !simple {
+				return fmt.Errorf("invalid attribute path '%s'", full)
 			}
-			return arr.Nodes[idx].SetPath(path, value, flags)
+			n.AddStringAttr(full, value)
+			return nil
 		}
+		node = NewNode(NewName(full))
+	}
+	if err := node.setItem(path, idx, lang, value, flags, isNew); err != nil {
+		return err
+	}
+	if isNew {
+		if n.Value != "" {
+			return fmt.Errorf("cannot add '%s' to a simple value", full)
+		}
+		n.AppendNode(node)
+	} else if value == "" && simple && node != n {
+		// the empty property does not exist any longer
+		n.removeChild(node)
+	}
+	return nil
+}
 
-		// when at end of path flags tell what to do
-		switch {
-		case flags&UNIQUE > 0 && value != "" && idx == -1:
-			// append if not exists
-			for _, v := range arr.Nodes {
-				if v.Value == value {
-					return nil
-				}
-			}
-			li := arr.AppendNode(NewNode(NewName("rdf:li")))
-			li.Value = value
-
-		case flags&APPEND > 0 && value != "" && idx == -1:
-			// always append
-			li := arr.AppendNode(NewNode(NewName("rdf:li")))
-			li.Value = value
-
-		case flags&(REPLACE|CREATE) > 0 && value != "" && idx == -1:
-			// replace the entire xmp array
-			arr.Clear()
-			li := arr.AppendNode(NewNode(NewName("rdf:li")))
-			li.Value = value
-
-		case flags&(REPLACE|CREATE) > 0 && value != "" && idx > -1:
-			// replace a single item, add intermediate index positions
-			if l := len(arr.Nodes); l <= idx {
-				for ; l <= idx; l++ {
-					arr.AppendNode(NewNode(NewName("rdf:li")))
-				}
-			}
-			arr.Nodes[idx].Value = value
+// removeChild removes a property, wherever in the node it is.
+func (n *Node) removeChild(x *Node) {
+	for i, v := range n.Nodes {
+		if v == x {
+			n.Nodes = append(n.Nodes[:i:i], n.Nodes[i+1:]...)
+			return
+		}
+		if isRdfName(v.XMLName, "Description") {
+			v.removeChild(x)
+		}
+	}
+}
 
-		case flags&DELETE > 0 && value == "" && idx == -1:
-			// delete the entire array
-			node.RemoveNode(arr).Close()
+func (n *Node) setPathValue(value string, flags SyncFlags) error {
+	switch {
+	case value == n.Value:
+	case value == "" && flags&DELETE == 0:
+		return fmt.Errorf("DELETE flag required to clear '%s'", n.FullName())
+	case value != "" && n.Value != "" && flags&REPLACE == 0:
+		return fmt.Errorf("REPLACE flag required to change '%s'", n.FullName())
+	case value != "" && len(n.Nodes) > 0 && n.Name() != n.FullName():
+		return fmt.Errorf("cannot set '%s' to a simple value", n.FullName())
+	}
+	n.Value = value
+	return nil
+}
 
-		case flags&DELETE > 0 && value == "" && idx > -1:
-			// delete a single item
-			if idx < len(arr.Nodes) {
-				arr.Nodes = append(arr.Nodes[:idx], arr.Nodes[idx+1:]...)
-			}
-		default:
-			return fmt.Errorf("unsupported flag combination %v for %s", flags, name)
+// setItem changes a property or, depending on index, language and flags, items in
+// an array.
+func (n *Node) setItem(path Path, idx int, lang, value string, flags SyncFlags, isNew bool) error {
+	if n.Model != nil && path.Len() > 0 {
+		if err := SetModelPath(n.Model, path, value, flags); err != errNotFound {
+			return err
 		}
-
-	// AltString array
-	case lang != "":
-		arr := node.Nodes.FindNodeByName("Alt")
-		if arr == nil && flags&(CREATE|APPEND) == 0 {
-			return fmt.Errorf("CREATE flag required to extend array '%s'", name)
+	}
+	name := n.FullName()
+	arr := n.getArray()
+	if arr == nil && idx == -1 && lang == "" && (!isNew || flags&CREATE > 0) {
+		if path.Len() > 0 {
+			return n.SetPath(path, value, flags)
 		}
-		if arr == nil {
-			arr = node.AddNode(NewNode(NewName("rdf:Alt")))
+		if value == "" {
+			return nil // is removed by the caller
 		}
+		return n.setPathValue(value, flags)
+	}
+	if arr == nil {
 		switch {
-		case flags&UNIQUE > 0 && value != "":
-			// append source when not exist
-			for _, v := range arr.Nodes {
-				if attr := v.GetAttr("", "lang"); len(attr) > 0 {
-					if attr[0].Value == lang && v.Value == value {
-						return nil
-					}
-				}
-			}
-			li := arr.AppendNode(NewNode(NewName("rdf:li")))
-			li.AddStringAttr("xml:lang", lang)
-			li.Value = value
-
-		case flags&APPEND > 0 && value != "":
-			// append source value
-			li := arr.AppendNode(NewNode(NewName("rdf:li")))
-			li.AddStringAttr("xml:lang", lang)
-			li.Value = value
-
-		case flags&(REPLACE|CREATE) > 0 && value != "" && lang != "":
-			// replace single entry
-			for _, v := range arr.Nodes {
-				if attr := v.GetAttr("", "lang"); len(attr) > 0 {
-					if attr[0].Value == lang {
-						v.Value = value
-						return nil
-					}
-				}
-			}
+		case value == "":
+			return nil
+		case n.Value != "" || len(n.Nodes) > 0:
+			return fmt.Errorf("'%s' is not an array", name)
+		case flags&(CREATE|APPEND|UNIQUE) == 0:
+			return fmt.Errorf("CREATE flag required to make array '%s'", name)
+		}
+		typ := "rdf:Seq"
+		if lang != "" {
+			typ = "rdf:Alt"
+		}
+		arr = NewNode(NewName(typ))
+		if err := arr.setArrayItem(path, idx, lang, value, flags); err != nil {
+			return err
+		}
+		n.AppendNode(arr)
+		return nil
+	}
+	if idx == -1 && lang == "" && path.Len() > 0 {
+		if _, i := n.findAttr(path.PeekNamespacePrefix(), path.peekName()); i > -1 {
+			return n.SetPath(path, value, flags)
+		}
+	}
+	return arr.setArrayItem(path, idx, lang, value, flags)
+}
 
-		case flags&(REPLACE|CREATE) > 0 && value != "" && lang == "":
-			// replace entire AltString with a new version
-			arr.Clear()
+func (arr *Node) setArrayItem(path Path, idx int, lang, value string, flags SyncFlags) error {
+	if lang != "" && len(arr.Nodes) > 0 && !arr.isAltText() {
+		return fmt.Errorf("invalid array index '%s'", lang)
+	}
+	isAlt := lang != "" || arr.isAltText()
+	if isAlt && lang == "" && idx == -1 && value != "" {
+		lang = "x-default"
+		if flags&(UNIQUE|APPEND) == 0 && path.Len() == 0 {
+			// replace the entire array
 			li := NewNode(NewName("rdf:li"))
 			li.AddStringAttr("xml:lang", lang)
 			li.Value = value
 			arr.Nodes = NodeList{li}
+			return nil
+		}
+	}
 
-		case flags&DELETE > 0 && value == "" && lang != "":
-			// delete a specific language
-			for _, v := range arr.Nodes {
-				if attr := v.GetAttr("", "lang"); len(attr) > 0 {
-					if attr[0].Value == lang {
-						arr.RemoveNode(v).Close()
-						return nil
-					}
-				}
-			}
+	// find the item
+	var li *Node
+	switch {
+	case lang != "":
+		li = arr.findLang(lang)
+	case idx > -1 || path.Len() > 0:
+		idx = Max(idx, 0)
+		if idx < len(arr.Nodes) {
+			li = arr.Nodes[idx]
+		}
+	}
 
-		case flags&DELETE > 0 && value == "" && lang == "":
-			// remove and close the entire array
-			node.RemoveNode(arr).Close()
-		default:
-			return fmt.Errorf("unsupported flag combination %v", flags)
+	switch {
+	case value == "" && flags&DELETE == 0:
+		return fmt.Errorf("DELETE flag required to clear an item")
+
+	case value == "" && path.Len() > 0:
+		if li == nil {
+			return nil
 		}
+		return li.SetPath(path, value, flags)
 
-	default:
-		if path.Len() > 0 {
-			return node.SetPath(path, value, flags)
+	case value == "" && li != nil:
+		// delete a single item
+		i := arr.Nodes.Index(li)
+		arr.Nodes = append(arr.Nodes[:i:i], arr.Nodes[i+1:]...)
+		return nil
+
+	case value == "":
+		// delete the entire array, it is removed by the caller
+		if idx == -1 && lang == "" {
+			arr.Nodes = nil
 		}
-		// fmt.Printf("Set Node path ns=%s len=%d, path=%s, name=%s\n", path.NamespacePrefix(), path.Len(), path.String(), name)
-		switch {
-		case flags&(REPLACE|CREATE) > 0 && value != "":
-			node.Value = value
-			return nil
-		case flags&DELETE > 0 && value == "":
-			node.Value = value
-			node.Clear()
-			// will be ignored on next marshal
-			return nil
-		default:
-			return fmt.Errorf("unsupported flag combination %v", flags)
+		return nil
+
+	case path.Len() == 0 && idx == -1 && flags&(UNIQUE|APPEND) > 0:
+		// append, if not exists
+		for _, v := range arr.Nodes {
+			if flags&UNIQUE > 0 && v.Value == value && (!isAlt || v.getLang() == lang) {
+				return nil
+			}
+		}
+		if li != nil && lang == "x-default" {
+			return fmt.Errorf("default exists")
 		}
+		li = nil
+
+	case path.Len() == 0 && idx == -1 && lang == "":
+		// replace the entire array
+		li = NewNode(NewName("rdf:li"))
+		li.Value = value
+		arr.Nodes = NodeList{li}
+		return nil
 	}
 
+	// change an existing item
+	if li != nil {
+		return li.SetPath(path, value, flags)
+	}
+
+	// add an item
+	if flags&(CREATE|APPEND|UNIQUE) == 0 {
+		return fmt.Errorf("CREATE flag required to extend an array")
+	}
+	li = NewNode(NewName("rdf:li"))
+	if isAlt {
+		if lang == "" {
+			lang = "x-default"
+		}
+		li.AddStringAttr("xml:lang", lang)
+	}
+	if err := li.SetPath(path, value, flags|CREATE); err != nil {
+		return err
+	}
+	if lang == "x-default" {
+		// the default is always first
+		arr.Nodes = append(NodeList{li}, arr.Nodes...)
+		return nil
+	}
+	for len(arr.Nodes) < idx {
+		arr.AppendNode(NewNode(NewName("rdf:li")))
+	}
+	arr.AppendNode(li)
 	return nil
 }
 
 func (n *Node) ListPaths(path Path) (PathValueList, error) {
 	l := make(PathValueList, 0)
-	switch n.FullName() {
-	case "rdf:Seq", "rdf:Bag":
-		for i, li := range n.Nodes {
-			_, walker := path.Pop()
-			walker = walker.AppendIndex(i)
-			for _, v := range li.Nodes {
-				name := v.Name()
-				if v.Namespace() != path.NamespacePrefix() {
-					name = v.FullName()
-				}
-				r, err := v.ListPaths(walker.Push(name))
-				if err != nil {
-					return nil, err
-				}
-				l = append(l, r...)
-			}
+	l.Add(path, n.Value)
+	for _, a := range n.Attr {
+		if skipField(a.Name) || isRdfName(a.Name, "about") {
+			continue
 		}
-	case "rdf:Alt":
-		for _, li := range n.Nodes {
-			lang := "x-default"
-			if attr := li.GetAttr("", "lang"); len(attr) > 0 {
-				lang = attr[0].Value
-			}
-			_, walker := path.Pop()
-			walker = walker.AppendIndexString(lang)
-			l = append(l, PathValue{
-				Path:  walker,
-				Value: li.Value,
-			})
+		name := a.Name.Local
+		if a.Name.Space != "" {
+			name = NsRegistry.Short(a.Name.Space, name)
 		}
-	default:
-		for _, a := range n.Attr {
-			if skipField(a.Name) {
-				continue
-			}
-			name := a.Name.Local
-			if hasPrefix(name) && getPrefix(name) == path.NamespacePrefix() {
-				name = stripPrefix(name)
-			}
-			l = append(l, PathValue{
-				Path:  path.Push(name),
-				Value: a.Value,
-			})
-		}
-		for _, v := range n.Nodes {
-			if skipField(v.XMLName) {
-				continue
-			}
-			name := v.Name()
-			if v.Namespace() != path.NamespacePrefix() {
-				name = v.FullName()
-			}
-			r, err := v.ListPaths(path.Push(name))
+		l.Add(path.pushName(name), a.Value)
+	}
+	nodes := n.Nodes
+	arr := n.getArray()
+	if arr != nil {
+		nodes = arr.Nodes
+	}
+	for i, v := range nodes {
+		var p Path
+		switch {
+		case skipField(v.XMLName):
+			continue
+		case arr == nil && isRdfName(v.XMLName, "Description"):
+			p = path
+		case arr == nil:
+			p = path.pushName(v.FullName())
+		case arr.isAltText() && v.getLang() != "":
+			p = path.AppendIndexString(v.getLang())
+		default:
+			p = path.AppendIndex(i)
+		}
+		if v.Model != nil {
+			r, err := listPaths(reflect.ValueOf(v.Model), p)
 			if err != nil {
 				return nil, err
 			}
 			l = append(l, r...)
 		}
-		if n.Value != "" {
-			l = append(l, PathValue{
-				Path:  path,
-				Value: n.Value,
-			})
+		r, err := v.ListPaths(p)
+		if err != nil {
+			return nil, err
 		}
+		l = append(l, r...)
 	}
-	sort.Sort(byPath(l))
+	sort.Stable(byPath(l))
 	return l, nil
 }
 
diff --git a/xmp/path.go b/xmp/path.go
index 11bda49..52b61f7 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -16,6 +16,7 @@ package xmp
 
 import (
 	"encoding"
+	"encoding/xml"
 	"fmt"
 	"reflect"
 	"sort"
@@ -239,6 +240,37 @@ func (x Path) PeekNamespacePrefix() string {
 	}
 }
 
+// lastPrefix returns the namespace prefix in effect at the end of a path.
+func (x Path) lastPrefix() string {
+	f := x.Fields()
+	for i := len(f) - 1; i >= 0; i-- {
+		name, _, _ := parsePathSegment(f[i])
+		if hasPrefix(name) {
+			return getPrefix(name)
+		}
+	}
+	return x.NamespacePrefix()
+}
+
+// pushName appends a property name, without its prefix when that is in effect.
+func (x Path) pushName(name string) Path {
+	switch {
+	case !hasPrefix(name):
+	case getPrefix(name) == x.lastPrefix():
+		name = stripPrefix(name)
+	case x.Len() == 0:
+		return NewPath(getPrefix(name), stripPrefix(name))
+	}
+	return x.Push(name)
+}
+
+// peekName returns the name in the first path segment.
+func (x Path) peekName() string {
+	name, _ := x.PopFront()
+	name, _, _ = parsePathSegment(name)
+	return name
+}
+
 func (x *Path) UnmarshalText(data []byte) error {
 	p := Path(string(data))
 	if !p.IsXmpPath() {
@@ -252,189 +284,296 @@ func (d *Document) GetPath(path Path) (string, error) {
 	if !path.IsXmpPath() {
 		return "", fmt.Errorf("xmp: invalid path '%s'", path.String())
 	}
-	ns, err := path.Namespace(d)
-	if err != nil {
+	if _, err := path.Namespace(d); err != nil {
 		return "", err
 	}
-	n := d.FindNode(ns)
+	s, n, err := d.nodes.getPath(path)
+	if err != nil {
+		return "", fmt.Errorf("xmp: path '%s' error: %v", path.String(), err)
+	}
 	if n == nil {
 		return "", fmt.Errorf("xmp: path '%s' not found", path.String())
 	}
+	return s, nil
+}
+
+// getPath returns the value at a path and the top-level node it belongs to.
+func (l NodeList) getPath(path Path) (string, *Node, error) {
+	n := l.pathNode(path)
+	if n == nil {
+		return "", nil, nil
+	}
+	s, err := n.getTopPath(path)
+	return s, n, err
+}
+
+// pathNode returns the top-level node for a path's first property. This is the node
+// for its namespace unless just others have the property, because models may use
+// properties of other namespaces.
+func (l NodeList) pathNode(path Path) *Node {
+	prefix, name := path.PeekNamespacePrefix(), path.peekName()
+	owner := l.FindNodeByName(prefix)
+	if name == "" || owner != nil && owner.hasTopValue(prefix, name) {
+		return owner
+	}
+	for _, n := range l {
+		if n != owner && n.hasTopValue(prefix, name) {
+			return n
+		}
+	}
+	return owner
+}
+
+// hasTopValue reports whether a top-level node has a property and that is not empty.
+func (n *Node) hasTopValue(prefix, name string) bool {
 	if n.Model != nil {
-		if s, err := GetModelPath(n.Model, path); err == nil {
-			return s, nil
-		} else if err != errNotFound {
-			return "", fmt.Errorf("xmp: path '%s' error: %v", path.String(), err)
+		val := derefIndirect(n.Model)
+		if f := findPathField(val, prefix, name, true); f != nil {
+			fv := f.value(val)
+			return fv.IsValid() && f.flags&fOmit == 0 && (f.flags&fEmpty > 0 || !isEmptyValue(fv))
 		}
 	}
-	if v, err := n.GetPath(path); err != nil {
-		if err == errNotFound {
-			return "", fmt.Errorf("xmp: path '%s' not found", path.String())
-		} else {
-			return "", fmt.Errorf("xmp: path '%s' error: %v", path.String(), err)
+	return n.hasProperty(xml.Name{Local: prefix + ":" + name})
+}
+
+// getTopPath returns the value at a path in a top-level node.
+func (n *Node) getTopPath(path Path) (string, error) {
+	if n.Model != nil {
+		if s, err := GetModelPath(n.Model, path); err != errNotFound {
+			return s, err
 		}
-	} else {
-		return v, nil
 	}
+	return n.GetPath(path)
 }
 
-func GetModelPath(v Model, path Path) (string, error) {
-	val := derefIndirect(v)
-	l := path.Len()
-	for n, walker := path.PopFront(); n != ""; n, walker = walker.PopFront() {
-		// fmt.Printf("%d name=%s walker=%s\n", l-walker.Len(), n, walker.String())
-		name, idx, lang := parsePathSegment(n)
-		if idx < -1 {
-			return "", fmt.Errorf("path field %d (%s): invalid index", l-walker.Len(), n)
+// setTopPath changes the value at a path in a top-level node.
+func (n *Node) setTopPath(path Path, value string, flags SyncFlags) error {
+	if n.Model != nil {
+		if err := SetModelPath(n.Model, path, value, flags); err != errNotFound {
+			return err
 		}
+	}
+	return n.SetPath(path, value, flags)
+}
 
-		finfo, err := findField(val, name, "xmp")
-		if err != nil {
-			return "", errNotFound
-			// return "", fmt.Errorf("path field %d (%s) not found: %v", i, name, err)
+// isTopList reports whether a path without index addresses an array.
+func (n *Node) isTopList(path Path) bool {
+	if n.Model != nil {
+		val := derefIndirect(n.Model)
+		for first := true; path.Len() > 0; first = false {
+			seg, walker := path.PopFront()
+			name, idx, lang := parsePathSegment(seg)
+			f := findPathField(val, walker.NamespacePrefix(), name, first)
+			if f == nil {
+				break
+			}
+			val = pathElem(f.value(val))
+			if !val.IsValid() {
+				return false
+			}
+			if walker.Len() == 0 {
+				return val.Kind() == reflect.Slice && idx == -1 && lang == "" && isPathArray(val, f)
+			}
+			path = walker
+			if val.Kind() == reflect.Slice && isPathArray(val, f) {
+				if _, ok := val.Interface().(ExtensionArray); ok || val.Len() <= Max(idx, 0) {
+					return false
+				}
+				val = pathElem(val.Index(Max(idx, 0)))
+			}
+			if val.Kind() != reflect.Struct {
+				return false
+			}
 		}
+	}
+	return n.isList(path)
+}
 
-		fv := finfo.value(val)
-		typ := fv.Type()
+func GetModelPath(v Model, path Path) (string, error) {
+	return getFieldPath(derefIndirect(v), path, true)
+}
 
-		// ignore empty fields
-		if !fv.IsValid() {
-			return "", nil
-		}
-		if (fv.Kind() == reflect.Interface || fv.Kind() == reflect.Ptr) && fv.IsNil() {
-			return "", nil
+// findPathField returns the field a path segment addresses. Top-level fields must
+// match by full name unless they have no namespace.
+func findPathField(val reflect.Value, prefix, name string, first bool) *fieldInfo {
+	if val.Kind() != reflect.Struct {
+		return nil
+	}
+	tinfo, err := getTypeInfo(val.Type(), "xmp")
+	if err != nil {
+		return nil
+	}
+	full := prefix + ":" + name
+	for i, v := range tinfo.fields {
+		if v.name == full {
+			return &tinfo.fields[i]
 		}
-		if finfo.flags&fOmit > 0 || (finfo.flags&fEmpty == 0 && isEmptyValue(fv)) {
-			return "", nil
+	}
+	for i, v := range tinfo.fields {
+		if (!first || !hasPrefix(v.name)) && stripPrefix(v.name) == name {
+			return &tinfo.fields[i]
 		}
+	}
+	return nil
+}
 
-		// Drill into interfaces and pointers.
-		for fv.Kind() == reflect.Interface || fv.Kind() == reflect.Ptr {
-			fv = fv.Elem()
-		}
+// pathElem follows pointers and interfaces, the result is invalid for nil.
+func pathElem(v reflect.Value) reflect.Value {
+	for v.Kind() == reflect.Interface || v.Kind() == reflect.Ptr {
+		v = v.Elem()
+	}
+	return v
+}
 
-		// continue loop when field is a struct and we're not at the end yet
-		if fv.Kind() == reflect.Struct && walker.Len() > 0 {
-			val = fv
-			continue
-		}
+func isPathArray(v reflect.Value, finfo *fieldInfo) bool {
+	t := v.Type()
+	return finfo != nil && finfo.flags&fArray > 0 || t.Implements(arrayType) || reflect.PtrTo(t).Implements(arrayType) || isPathAlt(t)
+}
 
-		// handle XMP array types
-		av := fv
-		isArray := false
-		if fv.CanInterface() && (finfo != nil && finfo.flags&fArray > 0 || typ.Implements(arrayType)) {
-			isArray = true
-		} else if fv.CanAddr() {
-			pv := fv.Addr()
-			if pv.CanInterface() && (finfo != nil && finfo.flags&fArray > 0 || pv.Type().Implements(arrayType)) {
-				av = pv
-				isArray = true
-			}
-		}
+var (
+	altStringType = reflect.TypeOf(AltString{})
+	tagListType   = reflect.TypeOf(TagList{})
+)
 
-		if isArray {
-			switch arr := av.Interface().(type) {
-			case ExtensionArray:
-				if walker.Len() == 0 || fv.Len() <= idx {
-					return "", errNotFound
-				}
-				ext := arr[idx]
-				name = walker.PeekNamespacePrefix()
-				node := ext.FindNodeByName(name)
-				if node == nil {
-					return "", errNotFound
-				}
-				if node.Model != nil {
-					val = reflect.Indirect(reflect.ValueOf(node.Model))
-					continue
-				}
-				return node.GetPath(walker)
+// isPathAlt reports whether a type is a language alternative.
+func isPathAlt(t reflect.Type) bool {
+	return t.Kind() == reflect.Slice && t.ConvertibleTo(altStringType)
+}
 
-			case NamedExtensionArray:
-				node := arr.FindNodeByName(name)
-				if node == nil {
-					return "", errNotFound
-				}
-				return node.GetPath(walker)
+// getPathText returns the text for a value.
+func getPathText(v reflect.Value) (string, error) {
+	if v.CanInterface() && v.Type().Implements(textMarshalerType) {
+		b, err := v.Interface().(encoding.TextMarshaler).MarshalText()
+		return string(b), err
+	}
+	if v.CanAddr() && v.Addr().CanInterface() && v.Addr().Type().Implements(textMarshalerType) {
+		b, err := v.Addr().Interface().(encoding.TextMarshaler).MarshalText()
+		return string(b), err
+	}
+	// simple values are just fine, but any other type (slice, array, struct)
+	// without textmarshaler will fail here
+	s, b, err := marshalSimple(v.Type(), v)
+	if b != nil {
+		s = string(b)
+	}
+	return s, err
+}
 
-			case AltString:
-				if lang != "" {
-					return arr.Get(lang), nil
-				}
-				return arr.Default(), nil
-			default:
-				// sanitize array index
-				if idx < 0 {
-					idx = 0
-				}
-				if fv.Len() < idx {
-					return "", errNotFound
-				}
-				if walker.Len() > 0 {
-					if av.Len() <= idx {
-						return "", errNotFound
-					}
-					val = derefValue(av.Index(idx))
-					continue
-				} else {
-					if av.Len() <= idx {
-						return "", errNotFound
-					}
-					fv = derefValue(av.Index(idx))
-					typ = fv.Type()
-					finfo = nil
-				}
-			}
-		}
+func (v Tag) pathName() string {
+	name := escapeTag(v.Key, "")
+	if v.Lang != "" {
+		name += "-" + escapeTag(v.Lang, "-0123456789")
+	}
+	return name
+}
 
-		// Check for text marshaler and marshal as string
-		av = fv
-		isText := false
-		if fv.CanInterface() && (finfo != nil && finfo.flags&fTextMarshal > 0 || typ.Implements(textMarshalerType)) {
-			isText = true
-		} else if fv.CanAddr() {
-			pv := fv.Addr()
-			if pv.CanInterface() && (finfo != nil && finfo.flags&fTextMarshal > 0 || pv.Type().Implements(textMarshalerType)) {
-				av = pv
-				isText = true
+func getFieldPath(val reflect.Value, path Path, first bool) (string, error) {
+	n, walker := path.PopFront()
+	if n == "" {
+		return "", nil
+	}
+	name, idx, lang := parsePathSegment(n)
+	if idx < -1 {
+		return "", fmt.Errorf("path field %s: invalid index", n)
+	}
+	finfo := findPathField(val, walker.NamespacePrefix(), name, first)
+	if finfo == nil {
+		return "", errNotFound
+	}
+
+	// ignore empty fields
+	fv := finfo.value(val)
+	if !fv.IsValid() || finfo.flags&fOmit > 0 || (finfo.flags&fEmpty == 0 && isEmptyValue(fv)) {
+		return "", nil
+	}
+
+	// Drill into interfaces and pointers.
+	fv = pathElem(fv)
+	if !fv.IsValid() {
+		return "", nil
+	}
+	isArray := isPathArray(fv, finfo)
+	if !isArray && fv.Type() != tagListType && (idx > 0 || lang != "") {
+		return "", fmt.Errorf("path field %s: invalid index", n)
+	}
+
+	switch {
+	case fv.Kind() == reflect.Struct && walker.Len() > 0:
+		// continue when field is a struct and we're not at the end yet
+		return getFieldPath(fv, walker, false)
+
+	case fv.Type() == tagListType:
+		name, _ = walker.PopFront()
+		for _, v := range fv.Interface().(TagList) {
+			if v.pathName() == name {
+				return v.Value, nil
 			}
 		}
+		return "", nil
 
-		if isText {
-			b, err := av.Interface().(encoding.TextMarshaler).MarshalText()
-			if err != nil || b == nil {
-				return "", err
-			}
-			return string(b), nil
+	case isPathAlt(fv.Type()):
+		arr := fv.Convert(altStringType).Interface().(AltString)
+		if walker.Len() > 0 {
+			return "", errNotFound
 		}
+		if lang != "" {
+			return arr.Get(lang), nil
+		}
+		return arr.Default(), nil
 
-		// handle maps
-		if fv.Kind() == reflect.Map {
-			if finfo.flags&fFlat == 0 {
-				n, walker = walker.PopFront()
-				name, _, _ = parsePathSegment(n)
-			}
-			val := fv.MapIndex(reflect.ValueOf(name))
-			if !val.IsValid() {
-				return "", errNotFound
+	case isArray:
+		if lang != "" {
+			return "", fmt.Errorf("path field %s: invalid index", n)
+		}
+		switch arr := fv.Interface().(type) {
+		case ExtensionArray:
+			idx = Max(idx, 0)
+			if walker.Len() == 0 || len(arr) <= idx || arr[idx] == nil {
+				return "", nil
 			}
-			// process as simple value below
-			fv = val
-			typ = val.Type()
+			return arr[idx].getPath(walker)
+		case NamedExtensionArray:
+			return arr.node().GetPath(walker)
+		}
+		// sanitize array index
+		idx = Max(idx, 0)
+		if fv.Len() <= idx {
+			return "", nil
+		}
+		fv = pathElem(fv.Index(idx))
+		if !fv.IsValid() {
+			return "", nil
+		}
+		if walker.Len() > 0 {
+			return getFieldPath(fv, walker, false)
 		}
 
-		// simple values are just fine, but any other type (slice, array, struct)
-		// without textmarshaler will fail here
-		if s, b, err := marshalSimple(typ, fv); err != nil {
+	case fv.Kind() == reflect.Map:
+		if finfo.flags&fFlat == 0 {
+			n, walker = walker.PopFront()
+			name, _, _ = parsePathSegment(n)
+		}
+		key, err := mapKey(fv, name)
+		if err != nil {
 			return "", err
-		} else {
-			if b != nil {
-				s = string(b)
-			}
-			return s, nil
+		}
+		fv = fv.MapIndex(key)
+		if !fv.IsValid() {
+			return "", nil
 		}
 	}
-	return "", nil
+	if walker.Len() > 0 {
+		return "", errNotFound
+	}
+	return getPathText(fv)
+}
+
+func mapKey(m reflect.Value, name string) (reflect.Value, error) {
+	t := m.Type().Key()
+	if t.Kind() != reflect.String {
+		return reflect.Value{}, fmt.Errorf("map key type must be string")
+	}
+	return reflect.ValueOf(name).Convert(t), nil
 }
 
 func (d *Document) SetPath(desc PathValue) error {
@@ -445,99 +584,108 @@ func (d *Document) SetPath(desc PathValue) error {
 	if flags == 0 {
 		flags = DEFAULT
 	}
+	err := d.setPath(path, desc.Namespace, value, flags)
+	if flags&NOFAIL > 0 && path.IsXmpPath() {
+		return nil
+	}
+	return err
+}
+
+func (d *Document) setPath(path Path, uri, value string, flags SyncFlags) error {
 	if !path.IsXmpPath() {
 		return fmt.Errorf("xmp: invalid path '%s'", path.String())
 	}
 
 	ns, err := path.Namespace(d)
 	if ns == nil || err != nil {
-		if desc.Namespace != "" {
-			ns = &Namespace{path.NamespacePrefix(), desc.Namespace, nil}
-			Register(ns)
-		} else {
+		if uri == "" {
 			return err
 		}
+		ns = &Namespace{path.NamespacePrefix(), uri, nil}
 	}
 
-	m := d.FindModel(ns)
-	n := d.FindNode(ns)
-	if m == nil && n == nil && flags&CREATE == 0 {
-		if flags&NOFAIL > 0 {
-			return nil
-		}
-		return fmt.Errorf("xmp: create flag required to make model for '%s'", path.String())
-	}
-	if m == nil {
-		m = ns.NewModel()
-		if m != nil {
-			n, _ = d.AddModel(m)
+	// all names must belong to a known namespace
+	for _, f := range path.Fields() {
+		name, _, _ := parsePathSegment(f)
+		if pre := getPrefix(name); hasPrefix(name) && pre != ns.GetName() && d.findNsByPrefix(pre) == nil {
+			return fmt.Errorf("xmp: unknown namespace '%s' in path '%s'", pre, path.String())
 		}
 	}
-	if m == nil && n == nil {
-		n = d.nodes.AddNode(NewNode(ns.RootName()))
-	}
 
 	// empty source will only be used with delete flag
 	if value == "" && flags&DELETE == 0 {
-		if flags&NOFAIL > 0 {
-			return nil
-		}
 		return fmt.Errorf("xmp: delete flag required for empty '%s'", path.String())
 	}
 
 	// delete model when only namespace is set
-	if path.Len() == 0 && flags&DELETE > 0 {
+	if path.Len() == 0 && value == "" {
 		d.RemoveNamespace(ns)
+		return nil
 	}
 
 	// get current version of path value
-	var dest string
-	if m != nil {
-		dest, err = GetModelPath(m, path)
-	}
-	if m == nil || err == errNotFound {
-		dest, err = n.GetPath(path)
-	}
+	dest, n, err := d.nodes.getPath(path)
 	if err != nil {
 		return err
 	}
+	if n == nil && flags&CREATE == 0 {
+		return fmt.Errorf("xmp: create flag required to make model for '%s'", path.String())
+	}
 
-	// skip when equal
-	if dest == value {
-		return nil
+	// skip when equal, unless a list may change
+	isList := n != nil && n.isTopList(path)
+	if dest == value && (!isList || flags&UNIQUE > 0 && value != "") {
+		if n == nil && value != "" {
+			err = errNotFound
+		}
+		return err
 	}
 
 	// empty destination values require create flag
-	if dest == "" && flags&(CREATE|APPEND|UNIQUE) == 0 {
-		if flags&NOFAIL > 0 {
-			return nil
-		}
+	if dest == "" && value != "" && flags&(CREATE|APPEND|UNIQUE) == 0 {
 		return fmt.Errorf("xmp: create flag required to make new attribute at '%s'", path.String())
 	}
 
 	// existing destination values require replace/delete/append/unique flag
-	if dest != "" && flags&(REPLACE|DELETE|APPEND|UNIQUE) == 0 {
-		if flags&NOFAIL > 0 {
-			return nil
-		}
+	if dest != "" && value != "" && flags&(REPLACE|APPEND|UNIQUE) == 0 {
 		return fmt.Errorf("xmp: update flag required to change existing attribute at '%s'", path.String())
 	}
 
-	if m != nil {
-		if err = SetModelPath(m, path, value, flags); err != nil && err == errNotFound {
-			err = n.SetPath(path, value, flags)
+	// make missing model or node
+	isNew := n == nil
+	if isNew {
+		if !isTagName(ns.GetName()) {
+			return fmt.Errorf("xmp: invalid path '%s'", path.String())
 		}
-	} else {
-		err = n.SetPath(path, value, flags)
+		n = NewNode(ns.RootName())
 	}
-	if err == nil {
-		d.SetDirty()
+	var m Model
+	if n.Model == nil && dest == "" {
+		if m = ns.NewModel(); m != nil {
+			n.Model = m
+		}
 	}
-
-	if flags&NOFAIL > 0 {
-		return nil
+	if path.Len() > 0 || n.Model == nil {
+		if err := n.setTopPath(path, value, flags); err != nil {
+			if m != nil {
+				n.Model = nil
+			}
+			return err
+		}
 	}
-	return err
+	if isNew {
+		if d.findNsByPrefix(ns.GetName()) == nil {
+			d.extNsMap[ns.GetURI()] = ns
+		}
+		d.nodes = append(d.nodes, n)
+	}
+	if m != nil {
+		for _, v := range m.Namespaces() {
+			d.intNsMap[v.GetURI()] = v
+		}
+	}
+	d.SetDirty()
+	return nil
 }
 
 func SetModelPath(v Model, path Path, value string, flags SyncFlags) error {
@@ -547,430 +695,490 @@ func SetModelPath(v Model, path Path, value string, flags SyncFlags) error {
 	if !path.IsXmpPath() {
 		return fmt.Errorf("xmp: invalid path '%s'", path.String())
 	}
+	return setFieldPath(derefIndirect(v), path, value, flags, true)
+}
 
-	val := derefIndirect(v)
-
-	l := path.Len()
-	for n, walker := path.PopFront(); n != ""; n, walker = walker.PopFront() {
-		name, idx, lang := parsePathSegment(n)
-		if idx < -1 {
-			return fmt.Errorf("path field %d (%s): invalid index", l-walker.Len(), n)
-		}
-
-		// using the short-form of name here to find attribute names across namespaces
-		// (e.g. some models use different namespace structs internally)
-		finfo, err := findField(val, name, "xmp")
-		if err != nil {
-			// special error is catched by caller to retry setting as raw node
-			return errNotFound
-		}
+// setFieldPath changes the value at a path in a struct. Values do not change when it
+// fails.
+func setFieldPath(val reflect.Value, path Path, value string, flags SyncFlags, first bool) error {
+	n, walker := path.PopFront()
+	if n == "" {
+		return nil
+	}
+	name, idx, lang := parsePathSegment(n)
+	if idx < -1 {
+		return fmt.Errorf("path field %s: invalid index", n)
+	}
+	finfo := findPathField(val, walker.NamespacePrefix(), name, first)
+	if finfo == nil {
+		// special error is catched by caller to retry setting as raw node
+		return errNotFound
+	}
+	fv := finfo.value(val)
+	if !fv.IsValid() || finfo.flags&fOmit > 0 {
+		return nil
+	}
+	if fv.Kind() == reflect.Interface {
+		fv = fv.Elem()
+	}
+	if fv.Kind() != reflect.Ptr {
+		return updateField(fv, finfo, name, idx, lang, walker, value, flags)
+	}
 
-		// allocate memory for pointer values in structs
-		fv := finfo.value(val)
-		if !fv.IsValid() {
+	// allocate memory for pointer values in structs
+	if fv.IsNil() {
+		if value == "" {
 			return nil
 		}
-		if fv.Type().Kind() == reflect.Ptr && fv.IsNil() && fv.CanSet() {
-			fv.Set(reflect.New(fv.Type().Elem()))
+		nv := reflect.New(fv.Type().Elem())
+		if err := updateField(nv.Elem(), finfo, name, idx, lang, walker, value, flags); err != nil {
+			return err
 		}
-		fv = derefValue(fv)
+		fv.Set(nv)
+		return nil
+	}
+	if err := updateField(fv.Elem(), finfo, name, idx, lang, walker, value, flags); err != nil {
+		return err
+	}
+	if value == "" && walker.Len() == 0 && isEmptyValue(fv.Elem()) {
+		fv.Set(reflect.Zero(fv.Type()))
+	}
+	return nil
+}
 
-		// continue loop when field is a struct and we're not at the end
-		if fv.Kind() == reflect.Struct && walker.Len() > 0 {
-			val = fv
-			continue
-		}
+func updateField(fv reflect.Value, finfo *fieldInfo, name string, idx int, lang string, walker Path, value string, flags SyncFlags) error {
+	isArray := isPathArray(fv, finfo)
+	if !isArray && fv.Type() != tagListType && (idx > 0 || lang != "") {
+		return fmt.Errorf("path field %s: invalid index", name)
+	}
+	switch {
+	case fv.Kind() == reflect.Struct && walker.Len() > 0:
+		// continue when field is a struct and we're not at the end
+		return setFieldPath(fv, walker, value, flags, false)
 
-		// handle maps
-		if fv.Kind() == reflect.Map {
-			// use proper name depending on flattening
-			if finfo.flags&fFlat == 0 {
-				n, walker = walker.PopFront()
-				name, _, _ = parsePathSegment(n)
-			}
+	case fv.Type() == tagListType:
+		return setTag(fv, walker, value, flags)
 
-			t := fv.Type()
-			if fv.IsNil() {
-				fv.Set(reflect.MakeMap(t))
+	case isPathAlt(fv.Type()):
+		if walker.Len() > 0 {
+			return errNotFound
+		}
+		if idx > 0 {
+			return fmt.Errorf("path field %s: invalid index", name)
+		}
+		// changes may be in place
+		arr := append(AltString{}, fv.Convert(altStringType).Interface().(AltString)...)
+		switch {
+		case flags&UNIQUE > 0 && value != "":
+			// append source when not exist
+			if !arr.AddUnique(lang, value) {
+				return fmt.Errorf("equal value exists for %s", name)
 			}
-			switch t.Key().Kind() {
-			case reflect.String:
-			default:
-				return fmt.Errorf("map key type must be string")
+		case flags&APPEND > 0 && value != "":
+			// append source value
+			arr.Add(lang, value)
+		case flags&(REPLACE|CREATE) > 0 && value != "":
+			// replace entire AltString with a new version
+			if lang != "" {
+				arr.Set(lang, value)
+			} else {
+				arr = NewAltString(value)
 			}
-
-			switch {
-			case flags&DELETE > 0 && value == "":
-				// remove map value
-				fv.SetMapIndex(reflect.ValueOf(name), reflect.Zero(t.Elem()))
-				return nil
-			case flags&(REPLACE|CREATE) > 0 && value != "":
-				// set map value
-				switch t.Elem().Kind() {
-				case reflect.String:
-					fv.SetMapIndex(reflect.ValueOf(name), reflect.ValueOf(value).Convert(t.Elem()))
-				case reflect.Struct:
-					val = reflect.New(t.Elem()).Elem()
-					// FIXME: this recursion may not work as expected because the map
-					// value is not updated when set later on
-					fv.SetMapIndex(reflect.ValueOf(name), val)
-					continue
-				default:
-					// FIXME: this does not allow for struct pointers as map values
-					mval := reflect.New(t.Elem()).Elem()
-					if mval.Type().Kind() == reflect.Ptr && mval.IsNil() && mval.CanSet() {
-						mval.Set(reflect.New(mval.Type().Elem()))
-					}
-					if mval.CanInterface() && mval.Type().Implements(textUnmarshalerType) {
-						if err := mval.Interface().(encoding.TextUnmarshaler).UnmarshalText([]byte(value)); err != nil {
-							return err
-						}
-					} else if mval.CanAddr() {
-						pv := mval.Addr()
-						if pv.CanInterface() && pv.Type().Implements(textUnmarshalerType) {
-							if err := pv.Interface().(encoding.TextUnmarshaler).UnmarshalText([]byte(value)); err != nil {
-								return err
-							}
-						}
-					} else {
-						if err := setValue(mval, value); err != nil {
-							return err
-						}
-					}
-					fv.SetMapIndex(reflect.ValueOf(name), mval)
-					return nil
-				}
+		case flags&DELETE > 0 && value == "":
+			// delete the entire AltString or just a specific language
+			if lang != "" {
+				arr.RemoveLang(lang)
+			} else {
+				arr = nil
 			}
-			continue
+		default:
+			return fmt.Errorf("unsupported flag combination %v", flags)
 		}
+		fv.Set(reflect.ValueOf(arr).Convert(fv.Type()))
+		return nil
 
-		// handle Slice/Array type fields as pointers to make them settable
-		av := fv
-		if fv.CanAddr() {
-			av = fv.Addr()
+	case isArray:
+		if lang != "" {
+			return fmt.Errorf("path field %s: invalid index", name)
 		}
-		if av.CanInterface() && (finfo != nil && finfo.flags&fArray > 0 || av.Type().Implements(arrayType)) {
-			switch arr := av.Interface().(type) {
+		if fv.CanAddr() {
+			switch arr := fv.Addr().Interface().(type) {
 			case *ExtensionArray:
-				// unwrap extension namespace and keep path remainder
-				name = walker.PeekNamespacePrefix()
-
-				// sanitize idx (it is -1 when no array index was specified)
-				if idx < 0 {
-					idx = 0
-				}
-
-				// add empty nodes up to idx if necessary
-				if l := len(*arr); l <= idx {
-					if flags&(CREATE|APPEND) == 0 && value != "" {
-						return fmt.Errorf("CREATE flag required to add extension %s on path %s", name, path)
-					}
-					// grow slice and fill with initialized nodes
-					for ; l <= idx; l++ {
-						*arr = append(*arr, (*Extension)(NewNode(EmptyName)))
-					}
-				}
-
-				// use the node at index
-				ext := (*arr)[idx]
-				node := (*Node)(ext)
-
-				// there is two types of extensions
-				if node.Name() != "" || node.FullName() == "rdf:Description" {
-					// Type 1: model and nodes on top-level (name not empty)
-					node = ext.FindNodeByName(name)
-					if node == nil {
-						if ns, err := GetNamespace(name); err == nil {
-							node.Model = ns.NewModel()
-						}
-					}
-					if node.Model != nil {
-						// FIXME: when the model does not contain the path we might
-						// want to store it as child node, however, the for{} loop
-						// allows no back-tracking on error
-						val = reflect.Indirect(reflect.ValueOf(node.Model))
-						continue
-					}
-					// store as child node
-					return node.SetPath(walker, value, flags)
-				} else {
-					// Type 2: models on child level (empty name); used for xmpMM:Pantry
-					child := node.Nodes.FindNodeByName(name)
-					if child == nil {
-						child = node.AddNode(NewNode(NewName(name)))
-					}
-					if child.Model == nil {
-						if ns, err := GetNamespace(name); err == nil {
-							child.Model = ns.NewModel()
-						}
-					}
-					if child.Model != nil {
-						// FIXME: when the model does not contain the path we might
-						// want to store it as extension model child node. however,
-						// the for{} loop allows no back-tracking on error
-						val = reflect.Indirect(reflect.ValueOf(child.Model))
-						continue
-					}
-					// store as child node
-					return child.SetPath(NewPath(name, walker.Fields()...), value, flags)
-				}
-
+				return arr.setPath(idx, walker, value, flags)
 			case *NamedExtensionArray:
-				// Named extensions do not contain models
-				// unwrap extension namespace and keep path remainder
-				name, walker = walker.PopFront()
-				node := arr.FindNodeByName(name)
-				if node == nil {
-					// create new extension node without model
-					if flags&(CREATE|APPEND) == 0 && value != "" {
-						return fmt.Errorf("CREATE flag required to add extension %s on path %s", name, path)
-					}
-					node = NewNode(NewName(name))
-					ext := (*Extension)(node)
-					fv.Set(reflect.Append(fv, reflect.ValueOf(ext)))
-				}
-				// store as child node
-				return node.SetPath(walker, value, flags)
-
-			case *AltString:
-				switch {
-				case flags&UNIQUE > 0 && value != "":
-					// append source when not exist
-					if !arr.AddUnique(lang, value) {
-						return fmt.Errorf("equal value exists for %s on path %s", name, path)
-					}
-				case flags&APPEND > 0 && value != "":
-					// append source value
-					arr.Add(lang, value)
-				case flags&(REPLACE|CREATE) > 0 && value != "":
-					// replace entire AltString with a new version
-					if lang != "" {
-						arr.Set(lang, value)
-					} else {
-						*arr = NewAltString(value)
-					}
-				case flags&DELETE > 0 && value == "":
-					// delete the entire AltString or just a specific language
-					if lang != "" {
-						arr.RemoveLang(lang)
-					} else {
-						fv.Set(reflect.Zero(fv.Type()))
-					}
-				}
-				return nil
-
-			default:
-				// deref the pointer
-				av = reflect.Indirect(av)
-				// are we at the end of the path?
-				if walker.Len() > 0 {
-					// sanitize idx (it is -1 when no array index was specified)
-					if idx < 0 {
-						idx = 0
-					}
-					// handle arrays along the path
-					if av.Len() <= idx {
-						if flags&DELETE > 0 && value == "" {
-							// would be deleting smth inside a non-existent element
-							return nil
-						}
-						if flags&(CREATE|APPEND) == 0 {
-							return fmt.Errorf("CREATE flag required to grow slice %s to index %d", name, idx)
-						}
-						if av.Kind() == reflect.Array {
-							return fmt.Errorf("array %s index %d out of bounds", name, idx)
-						}
-
-						// add empty items up to idx
-						// FIXME: when an error occurs later on, we cannot remove slice entry
-						growSlice(fv, idx)
-						val = reflect.New(fv.Type().Elem())
-						fv.Index(idx).Set(val.Elem())
-						val = derefValue(fv.Index(idx))
-
-						// unmarshal text
-						if val.CanInterface() && val.Type().Implements(textUnmarshalerType) {
-							return val.Interface().(encoding.TextUnmarshaler).UnmarshalText([]byte(value))
-						}
-
-						// recurse into struct
-						if reflect.Indirect(val).Kind() == reflect.Struct {
-							continue
-						}
+				return arr.setPath(walker, value, flags)
+			}
+		}
+		return updateArray(fv, name, idx, walker, value, flags)
+
+	case fv.Kind() == reflect.Map:
+		// use proper name depending on flattening
+		if finfo.flags&fFlat == 0 {
+			var n string
+			n, walker = walker.PopFront()
+			name, _, _ = parsePathSegment(n)
+		}
+		key, err := mapKey(fv, name)
+		if err != nil {
+			return err
+		}
+		// map values are not addressable
+		nv := reflect.New(fv.Type().Elem()).Elem()
+		v := fv.MapIndex(key)
+		switch {
+		case !v.IsValid():
+		case v.Kind() == reflect.Ptr && !v.IsNil():
+			nv.Set(reflect.New(v.Type().Elem()))
+			nv.Elem().Set(v.Elem())
+		default:
+			nv.Set(v)
+		}
+		if value == "" && walker.Len() == 0 {
+			if flags&DELETE == 0 {
+				return fmt.Errorf("DELETE flag required to clear %s", name)
+			}
+			if v.IsValid() {
+				fv.SetMapIndex(key, reflect.Value{})
+			}
+			return nil
+		}
+		if !v.IsValid() && value == "" {
+			return nil
+		}
+		ev := derefValue(nv)
+		if walker.Len() > 0 {
+			if ev.Kind() != reflect.Struct {
+				return errNotFound
+			}
+			err = setFieldPath(ev, walker, value, flags, false)
+		} else {
+			err = setPathText(ev, name, value, flags)
+		}
+		if err != nil {
+			return err
+		}
+		if fv.IsNil() {
+			fv.Set(reflect.MakeMap(fv.Type()))
+		}
+		fv.SetMapIndex(key, nv)
+		return nil
+	}
+	if walker.Len() > 0 {
+		return errNotFound
+	}
+	return setPathText(fv, name, value, flags)
+}
 
-						// when reaching this, path is too long
-						return errNotFound
-					}
+// setPathText sets a simple value, checking the current value before replacing.
+func setPathText(fv reflect.Value, name, value string, flags SyncFlags) error {
+	if value == "" {
+		if flags&DELETE == 0 {
+			return fmt.Errorf("DELETE flag required to clear %s", name)
+		}
+		fv.Set(reflect.Zero(fv.Type()))
+		return nil
+	}
+	if flags&REPLACE == 0 && !isEmptyValue(fv) {
+		return fmt.Errorf("REPLACE flag required for overwriting value at %s", name)
+	}
+	v, err := parsePathText(fv.Type(), value)
+	if err == nil {
+		fv.Set(v)
+	}
+	return err
+}
 
-					// recurse to next path segment using the value at slice index
-					val = derefValue(fv.Index(idx))
-					continue
-				}
+// parsePathText makes a value from text.
+func parsePathText(t reflect.Type, value string) (reflect.Value, error) {
+	nv := reflect.New(t).Elem()
+	v := nv
+	if t.Kind() == reflect.Ptr {
+		v = derefValue(nv)
+	}
+	if pv := v.Addr(); pv.CanInterface() && pv.Type().Implements(textUnmarshalerType) {
+		return nv, pv.Interface().(encoding.TextUnmarshaler).UnmarshalText([]byte(value))
+	}
+	return nv, setValue(v, value)
+}
 
-				// arrays are fixed size
-				if av.Kind() == reflect.Array {
-					if flags&REPLACE == 0 && value != "" {
-						return fmt.Errorf("REPLACE flag required for setting array value in %s", name)
-					}
-					if flags&DELETE == 0 && value == "" {
-						return fmt.Errorf("DELETE flag required to clear array value in %s", name)
-					}
+// updateArray changes a list or one of its elements.
+func updateArray(fv reflect.Value, name string, idx int, walker Path, value string, flags SyncFlags) error {
+	isFixed := fv.Kind() == reflect.Array
+	if isFixed && fv.Len() <= idx {
+		return fmt.Errorf("array %s index %d out of bounds", name, idx)
+	}
 
-					// sanitize idx (it is -1 when no array index was specified)
-					if idx < 0 {
-						idx = 0
-					}
-					if av.Len() <= idx {
-						return fmt.Errorf("array %s index %d out of bounds", name, idx)
-					}
+	// change a part of an element
+	if walker.Len() > 0 {
+		// sanitize idx (it is -1 when no array index was specified)
+		idx = Max(idx, 0)
+		if idx < fv.Len() && pathElem(fv.Index(idx)).IsValid() {
+			// recurse to next path segment using the value at slice index
+			return setFieldPath(pathElem(fv.Index(idx)), walker, value, flags, false)
+		}
+		if value == "" {
+			// would be deleting smth inside a non-existent element
+			return nil
+		}
+		if flags&(CREATE|APPEND) == 0 {
+			return fmt.Errorf("CREATE flag required to grow slice %s to index %d", name, idx)
+		}
+		v := reflect.New(fv.Type().Elem()).Elem()
+		if err := setFieldPath(derefValue(v), walker, value, flags, false); err != nil {
+			return err
+		}
+		setElem(fv, idx, v)
+		return nil
+	}
 
-					v := reflect.New(fv.Type().Elem())
-					if v.CanInterface() && v.Type().Implements(textUnmarshalerType) {
-						if err := v.Interface().(encoding.TextUnmarshaler).UnmarshalText([]byte(value)); err != nil {
-							return err
-						}
-					} else if err := setValue(v, value); err != nil {
-						return err
-					}
-					av.Index(idx).Set(v.Elem())
-					return nil
-				}
+	// parse the value first, nothing changes when this fails
+	var v reflect.Value
+	if value != "" {
+		var err error
+		if v, err = parsePathText(fv.Type().Elem(), value); err != nil {
+			return err
+		}
+	}
 
-				switch {
-				// case flags&UNIQUE > 0 && value != "" && idx > -1:
-				// ignore the unique flag when setting with absolute slice index
-				case flags&UNIQUE > 0 && value != "" && idx == -1:
-					// append if unique
-					for i, l := 0, fv.Len(); i < l; i++ {
-						v := derefValue(fv.Index(i))
-
-						isText := false
-						vv := v
-						if v.CanInterface() && v.Type().Implements(textMarshalerType) {
-							isText = true
-						} else if v.CanAddr() {
-							pv := v.Addr()
-							if pv.CanInterface() && pv.Type().Implements(textMarshalerType) {
-								vv = pv
-								isText = true
-							}
-						}
+	// arrays are fixed size
+	if isFixed {
+		idx = Max(idx, 0)
+		if flags&REPLACE == 0 && value != "" {
+			return fmt.Errorf("REPLACE flag required for setting array value in %s", name)
+		}
+		if flags&DELETE == 0 && value == "" {
+			return fmt.Errorf("DELETE flag required to clear array value in %s", name)
+		}
+		if value == "" {
+			v = reflect.Zero(fv.Type().Elem())
+		}
+		fv.Index(idx).Set(v)
+		return nil
+	}
 
-						if isText {
-							b, err := vv.Interface().(encoding.TextMarshaler).MarshalText()
-							if err != nil || b == nil {
-								return err
-							}
-							if value == string(b) {
-								return fmt.Errorf("equal value exists for %s on path %s", name, path)
-							}
-						} else {
-							if s, b, err := marshalSimple(v.Type(), v); err != nil {
-								return err
-							} else {
-								if b != nil {
-									s = string(b)
-								}
-								if value == s {
-									return fmt.Errorf("equal value exists for %s on path %s", name, path)
-								}
-							}
-						}
-					}
+	switch {
+	// ignore the unique flag when setting with absolute slice index
+	case flags&UNIQUE > 0 && value != "" && idx == -1:
+		// append if unique
+		want, err := getPathText(pathElem(v))
+		if err != nil {
+			return err
+		}
+		for i, l := 0, fv.Len(); i < l; i++ {
+			e := pathElem(fv.Index(i))
+			if !e.IsValid() {
+				continue
+			}
+			if s, err := getPathText(e); err != nil {
+				return err
+			} else if s == value || s == want {
+				return fmt.Errorf("equal value exists for %s", name)
+			}
+		}
+		setElem(fv, fv.Len(), v)
+
+	case flags&APPEND > 0 && value != "" && idx == -1:
+		// always append
+		setElem(fv, fv.Len(), v)
+
+	case flags&(REPLACE|CREATE) > 0 && value != "" && idx > -1:
+		// replace or create slice element at index
+		setElem(fv, idx, v)
+
+	case flags&(REPLACE|CREATE) > 0 && value != "" && idx == -1:
+		// replace entire slice with a single element
+		fv.Set(reflect.Zero(fv.Type()))
+		setElem(fv, 0, v)
+
+	case flags&DELETE > 0 && value == "" && idx > -1:
+		// delete slice element at index
+		l := fv.Len()
+		if l <= idx {
+			return fmt.Errorf("slice %s index %d out of bounds", name, idx)
+		}
+		nv := reflect.MakeSlice(fv.Type(), 0, l-1)
+		nv = reflect.AppendSlice(nv, fv.Slice(0, idx))
+		fv.Set(reflect.AppendSlice(nv, fv.Slice(idx+1, l)))
 
-					v := reflect.New(fv.Type().Elem())
-					if v.CanInterface() && v.Type().Implements(textUnmarshalerType) {
-						if err := v.Interface().(encoding.TextUnmarshaler).UnmarshalText([]byte(value)); err != nil {
-							return err
-						}
-					} else if err := setValue(v, value); err != nil {
-						return err
-					}
+	case flags&DELETE > 0 && value == "" && idx == -1:
+		// delete the entire slice
+		fv.Set(reflect.Zero(fv.Type()))
 
-					fv.Set(reflect.Append(fv, v.Elem()))
+	default:
+		return fmt.Errorf("unsupported flag combination %v", flags)
+	}
+	return nil
+}
 
-				case flags&APPEND > 0 && value != "" && idx == -1:
-					// always append
-					v := reflect.New(fv.Type().Elem())
-					if v.CanInterface() && v.Type().Implements(textUnmarshalerType) {
-						if err := v.Interface().(encoding.TextUnmarshaler).UnmarshalText([]byte(value)); err != nil {
-							return err
-						}
-					} else if err := setValue(v, value); err != nil {
-						return err
-					}
+// setElem sets an element, optionally growing the slice. Slices may be shared, so
+// this works on a copy.
+func setElem(fv reflect.Value, idx int, v reflect.Value) {
+	if fv.Kind() != reflect.Slice {
+		fv.Index(idx).Set(v)
+		return
+	}
+	l := Max(fv.Len(), idx+1)
+	nv := reflect.MakeSlice(fv.Type(), l, l)
+	reflect.Copy(nv, fv)
+	for i := fv.Len(); i < idx; i++ {
+		if e := nv.Index(i); e.Kind() == reflect.Ptr {
+			e.Set(reflect.New(e.Type().Elem()))
+		}
+	}
+	nv.Index(idx).Set(v)
+	fv.Set(nv)
+}
 
-					fv.Set(reflect.Append(fv, v.Elem()))
+func setTag(fv reflect.Value, walker Path, value string, flags SyncFlags) error {
+	name, walker := walker.PopFront()
+	if name == "" || walker.Len() > 0 || !isTagName(name) {
+		return fmt.Errorf("path field %s: invalid name", name)
+	}
+	l := append(TagList{}, fv.Interface().(TagList)...)
+	idx := -1
+	for i := range l {
+		if l[i].pathName() == name {
+			idx = i
+			break
+		}
+	}
+	switch {
+	case value == "" && flags&DELETE == 0:
+		return fmt.Errorf("DELETE flag required to clear %s", name)
+	case value == "" && idx == -1:
+	case value == "":
+		l = append(l[:idx], l[idx+1:]...)
+	case idx == -1 && flags&CREATE == 0:
+		return fmt.Errorf("CREATE flag required to make %s", name)
+	case idx == -1:
+		l.addAttr(name, value)
+	case flags&REPLACE == 0:
+		return fmt.Errorf("REPLACE flag required for overwriting value at %s", name)
+	default:
+		l[idx].Value = value
+	}
+	fv.Set(reflect.ValueOf(l))
+	return nil
+}
 
-				case flags&(REPLACE|CREATE) > 0 && value != "" && idx > -1:
-					// replace or create slice element at index
-					v := reflect.New(fv.Type().Elem())
-					if v.CanInterface() && v.Type().Implements(textUnmarshalerType) {
-						if err := v.Interface().(encoding.TextUnmarshaler).UnmarshalText([]byte(value)); err != nil {
-							return err
-						}
-					} else if err := setValue(v, value); err != nil {
-						return err
-					}
-					// optionally growing the slice
-					growSlice(fv, idx)
-					// overwrite current entry,
-					fv.Index(idx).Set(v.Elem())
-
-				case flags&(REPLACE|CREATE) > 0 && value != "" && idx == -1:
-					// replace entire slice with a single element
-					v := reflect.New(fv.Type().Elem())
-					if v.CanInterface() && v.Type().Implements(textUnmarshalerType) {
-						if err := v.Interface().(encoding.TextUnmarshaler).UnmarshalText([]byte(value)); err != nil {
-							return err
-						}
-					} else if err := setValue(v, value); err != nil {
-						return err
-					}
-					fv.Set(reflect.Zero(fv.Type()))
-					fv.Set(reflect.Append(fv, v.Elem()))
-
-				case flags&DELETE > 0 && value == "" && idx > -1:
-					// delete slice element at index
-					l := fv.Len()
-					if l <= idx {
-						return fmt.Errorf("slice %s index %d out of bounds", name, idx)
-					}
-					switch {
-					case idx == 0:
-						fv.Set(fv.Slice(1, l))
-					case idx == l-1:
-						fv.Set(fv.Slice(0, idx))
-					default:
-						fv.Set(reflect.AppendSlice(fv.Slice3(0, idx, l-1), fv.Slice(idx+1, l)))
-					}
+// getPath returns the value at a path in an extension.
+func (x *Extension) getPath(path Path) (string, error) {
+	if s, n, err := x.roots().getPath(path); err != nil || n != nil && s != "" {
+		return s, err
+	}
+	return (*Node)(x).GetPath(path)
+}
 
-				case flags&DELETE > 0 && value == "" && idx == -1:
-					// delete the entire slice
-					fv.Set(reflect.Zero(fv.Type()))
-				default:
-					return fmt.Errorf("unsupported flag combination %v", flags)
-				}
-				return nil
-			}
+// roots returns the namespace nodes in an extension.
+func (x *Extension) roots() NodeList {
+	var l NodeList
+	if x.Model != nil {
+		l = append(l, (*Node)(x))
+	}
+	for _, v := range x.Nodes {
+		if v.Model != nil || !hasPrefix(v.FullName()) {
+			l = append(l, v)
 		}
+	}
+	return l
+}
 
-		// for simple values, check current value before replacing
-		if flags&REPLACE == 0 && value != "" && !isEmptyValue(fv) {
-			return fmt.Errorf("REPLACE flag required for overwriting value at %s on path %s", name, path)
+func (x *Extension) setPath(path Path, value string, flags SyncFlags) error {
+	prefix := path.PeekNamespacePrefix()
+	s, n, err := x.roots().getPath(path)
+	if err != nil {
+		return err
+	}
+	if s == "" {
+		if v, err := (*Node)(x).GetPath(path); err == nil && v != "" {
+			return (*Node)(x).SetPath(path, value, flags)
 		}
+	}
+	if n != nil {
+		return n.setTopPath(path, value, flags)
+	}
+	if value == "" {
+		return nil
+	}
+	if !isTagName(prefix) {
+		return fmt.Errorf("invalid name '%s'", prefix)
+	}
+	n = NewNode(NewName(prefix))
+	if ns, err := GetNamespace(prefix); err == nil {
+		n.Model = ns.NewModel()
+	}
+	if err := n.setTopPath(path, value, flags); err != nil {
+		return err
+	}
+	x.Nodes = append(x.Nodes, n)
+	return nil
+}
 
-		// Text
-		if fv.CanAddr() {
-			pv := fv.Addr()
-			if pv.CanInterface() && (finfo != nil && finfo.flags&fTextUnmarshal > 0 || pv.Type().Implements(textUnmarshalerType)) {
-				return pv.Interface().(encoding.TextUnmarshaler).UnmarshalText([]byte(value))
-			}
+func (x *ExtensionArray) setPath(idx int, path Path, value string, flags SyncFlags) error {
+	switch {
+	case path.Len() == 0 && value != "":
+		return fmt.Errorf("extension without property")
+	case path.Len() == 0 && flags&DELETE == 0:
+		return fmt.Errorf("DELETE flag required to clear extension")
+	case path.Len() == 0 && idx == -1:
+		*x = nil
+		return nil
+	case path.Len() == 0:
+		if idx < len(*x) {
+			*x = append((*x)[:idx:idx], (*x)[idx+1:]...)
 		}
+		return nil
+	}
+	idx = Max(idx, 0)
+	if idx < len(*x) && (*x)[idx] != nil {
+		return (*x)[idx].setPath(path, value, flags)
+	}
+	if value == "" {
+		return nil
+	}
+	if flags&(CREATE|APPEND) == 0 {
+		return fmt.Errorf("CREATE flag required to add extension")
+	}
+	ext := (*Extension)(NewNode(EmptyName))
+	if err := ext.setPath(path, value, flags); err != nil {
+		return err
+	}
+	for len(*x) <= idx {
+		*x = append(*x, (*Extension)(NewNode(EmptyName)))
+	}
+	(*x)[idx] = ext
+	return nil
+}
 
-		// otherwise set simple value directly
-		return setValue(fv, value)
+// node returns a node that has the extensions as children.
+func (x NamedExtensionArray) node() *Node {
+	n := &Node{}
+	for _, v := range x {
+		n.Nodes = append(n.Nodes, (*Node)(v))
+	}
+	return n
+}
+
+func (x *NamedExtensionArray) setPath(path Path, value string, flags SyncFlags) error {
+	if path.Len() == 0 {
+		switch {
+		case value != "":
+			return fmt.Errorf("extension without name")
+		case flags&DELETE == 0:
+			return fmt.Errorf("DELETE flag required to clear extensions")
+		}
+		*x = nil
+		return nil
+	}
+	n := x.node()
+	if err := n.SetPath(path, value, flags); err != nil {
+		return err
+	}
+	l := make(NamedExtensionArray, 0, len(n.Nodes))
+	for _, v := range n.Nodes {
+		l = append(l, (*Extension)(v))
 	}
+	*x = l
 	return nil
 }
 
@@ -979,23 +1187,32 @@ func (d *Document) ListPaths() (PathValueList, error) {
 	if err := d.syncToXMP(); err != nil {
 		return nil, err
 	}
-	l := make(PathValueList, 0)
-	for _, v := range d.nodes {
+	return d.nodes.listPaths()
+}
+
+// listPaths lists the paths that getPath reads.
+func (l NodeList) listPaths() (PathValueList, error) {
+	pvl := make(PathValueList, 0)
+	for _, v := range l {
+		r, err := v.ListPaths(NewPath(v.Name()))
+		if err != nil {
+			return nil, err
+		}
 		if v.Model != nil {
-			if pvl, err := ListModelPaths(v.Model); err != nil {
+			m, err := ListModelPaths(v.Model)
+			if err != nil {
 				return nil, err
-			} else {
-				l = append(l, pvl...)
 			}
+			r = append(m, r...)
 		}
-		r, err := v.ListPaths(NewPath(v.Name()))
-		if err != nil {
-			return nil, err
+		for _, pv := range r {
+			if l.pathNode(pv.Path) == v {
+				pvl = append(pvl, pv)
+			}
 		}
-		l = append(l, r...)
 	}
-	sort.Sort(byPath(l))
-	return l.Unique(), nil
+	sort.Stable(byPath(pvl))
+	return pvl.Unique(), nil
 }
 
 func ListModelPaths(v Model) (PathValueList, error) {
@@ -1063,6 +1280,21 @@ func listPaths(val reflect.Value, path Path) (PathValueList, error) {
 		}
 		typ = fv.Type()
 
+		if typ == tagListType {
+			for _, v := range fv.Interface().(TagList) {
+				pvl.Add(path.Push(fname, v.pathName()), v.Value)
+			}
+			continue
+		}
+
+		if isPathAlt(typ) {
+			// AltString types are always at the end of a path
+			for _, v := range fv.Convert(altStringType).Interface().(AltString) {
+				pvl.Add(path.Push(fname).AppendIndexString(v.GetLang()), v.Value)
+			}
+			continue
+		}
+
 		// handle XMP array types
 		av := fv
 		isArray := false
@@ -1080,58 +1312,29 @@ func listPaths(val reflect.Value, path Path) (PathValueList, error) {
 			switch arr := av.Interface().(type) {
 			case ExtensionArray:
 				for i, v := range arr {
-					subpath := path.Push(fname).AppendIndex(i)
-					// name := fmt.Sprintf("%s[%d]", fname, i)
-					if v.Model != nil {
-						if l, err := listPaths(reflect.ValueOf(v.Model), subpath); err != nil {
-							return nil, err
-						} else {
-							pvl = append(pvl, l...)
-						}
+					if v == nil {
+						continue
 					}
-					if v.XMLName.Local == "" || (*Node)(v).FullName() == "rdf:Description" {
-						for _, child := range v.Nodes {
-							if child.Model != nil {
-								if l, err := listPaths(reflect.ValueOf(child.Model), subpath); err != nil {
-									return nil, err
-								} else {
-									pvl = append(pvl, l...)
-								}
-							} else {
-								if l, err := child.ListPaths(subpath); err != nil {
-									return nil, err
-								} else {
-									pvl = append(pvl, l...)
-								}
-							}
-						}
-					} else {
-						node := (*Node)(v)
-						if l, err := node.ListPaths(subpath); err != nil {
-							return nil, err
-						} else {
-							pvl = append(pvl, l...)
-						}
+					subpath := path.Push(fname).AppendIndex(i)
+					l, err := v.listPaths(subpath)
+					if err != nil {
+						return nil, err
 					}
+					pvl = append(pvl, l...)
 				}
 			case NamedExtensionArray:
-				for _, v := range arr {
-					node := (*Node)(v)
-					if l, err := node.ListPaths(path.Push(fname, node.Name())); err != nil {
-						return nil, err
-					} else {
-						pvl = append(pvl, l...)
-					}
+				l, err := arr.node().ListPaths(path.Push(fname))
+				if err != nil {
+					return nil, err
 				}
+				pvl = append(pvl, l...)
 
-			case AltString:
-				// AltString types are always at the end of a path
-				for _, v := range arr {
-					pvl.Add(path.Push(fname).AppendIndexString(v.GetLang()), v.Value)
-				}
 			default:
 				for i, l := 0, av.Len(); i < l; i++ {
-					v := derefValue(av.Index(i))
+					v := pathElem(av.Index(i))
+					if !v.IsValid() {
+						continue
+					}
 
 					// check for text marshaler
 					isText := false
@@ -1256,7 +1459,7 @@ func parsePathSegment(name string) (string, int, string) {
 	var lang string
 	var idx int = -1
 	// split lang or array index from name, be safe with slice indexes
-	if k := strings.Index(name, "["); k > 0 && len(name) > k+1 {
+	if k := strings.Index(name, "["); k >= 0 && len(name) > k+1 {
 		s := strings.TrimSuffix(name[k+1:], "]")
 		if len(s) == 0 {
 			idx = 0
@@ -1270,17 +1473,48 @@ func parsePathSegment(name string) (string, int, string) {
 	return name, idx, lang
 }
 
-func growSlice(v reflect.Value, n int) {
-	if v.Kind() != reflect.Slice {
-		return
+// isTagName reports whether a name can be used as element name.
+func isTagName(name string) bool {
+	if name == "" || strings.ContainsAny(name, ":/<>&=\"' \t\r\n") {
+		return false
+	}
+	t, err := xml.NewDecoder(strings.NewReader("<" + name + ">")).Token()
+	if err != nil {
+		return false
 	}
-	if l := v.Len(); l <= n {
-		if v.Cap() <= n {
-			ncap := Max(n*2, 4)
-			nv := reflect.MakeSlice(v.Type(), l, ncap)
-			reflect.Copy(nv, v)
-			v.Set(nv)
+	x, ok := t.(xml.StartElement)
+	return ok && x.Name.Local == name && len(x.Attr) == 0
+}
+
+// listPaths lists the properties in an extension.
+func (x *Extension) listPaths(path Path) (PathValueList, error) {
+	raw := &Node{Attr: x.Attr, Value: x.Value}
+	var l PathValueList
+	if x.Model != nil {
+		r, err := listPaths(reflect.ValueOf(x.Model), path)
+		if err != nil {
+			return nil, err
+		}
+		l = append(l, r...)
+	}
+	for _, v := range x.Nodes {
+		if v.Model == nil && hasPrefix(v.FullName()) {
+			raw.Nodes = append(raw.Nodes, v)
+			continue
 		}
-		v.SetLen(n + 1)
+		if v.Model != nil {
+			r, err := listPaths(reflect.ValueOf(v.Model), path)
+			if err != nil {
+				return nil, err
+			}
+			l = append(l, r...)
+		}
+		r, err := v.ListPaths(path)
+		if err != nil {
+			return nil, err
+		}
+		l = append(l, r...)
 	}
+	r, err := raw.ListPaths(path)
+	return append(l, r...), err
 }
-- 
2.43.0


From 7efe7b27aeacc588c6778df80dcb92db8fb2ad60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:38 +0000
Subject: [PATCH 26/80] fix: keep exif tables that lack a dimension

---
 models/exif/types.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/models/exif/types.go b/models/exif/types.go
index 3f9c9be..b8e4841 100644
--- a/models/exif/types.go
+++ b/models/exif/types.go
@@ -164,7 +164,7 @@ type OECF struct {
 }
 
 func (x OECF) IsZero() bool {
-	return x.Columns == 0 || x.Rows == 0
+	return x.Columns == 0 && x.Rows == 0 && len(x.Names) == 0 && len(x.Values) == 0
 }
 
 func (x *OECF) Addr() *OECF {
@@ -215,7 +215,7 @@ type CFAPattern struct {
 }
 
 func (x CFAPattern) IsZero() bool {
-	return x.Columns == 0 || x.Rows == 0
+	return x.Columns == 0 && x.Rows == 0 && len(x.Values) == 0
 }
 
 func (x *CFAPattern) Addr() *CFAPattern {
@@ -266,7 +266,7 @@ type DeviceSettings struct {
 }
 
 func (x DeviceSettings) IsZero() bool {
-	return x.Columns == 0 || x.Rows == 0
+	return x.Columns == 0 && x.Rows == 0 && len(x.Values) == 0
 }
 
 func (x *DeviceSettings) Addr() *DeviceSettings {
-- 
2.43.0


From 3c92fb117753f5a68450a6b376cfe71b6b2848c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:41 +0000
Subject: [PATCH 27/80] fix: don't crash on exif tables with negative or huge
 dimensions

---
 models/exif/types.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/models/exif/types.go b/models/exif/types.go
index b8e4841..203f63e 100644
--- a/models/exif/types.go
+++ b/models/exif/types.go
@@ -183,12 +183,10 @@ func (x *OECF) UnmarshalText(data []byte) error {
 			if o.Columns, err = strconv.Atoi(v); err != nil {
 				return fmt.Errorf("exif: invalid OECF columns value '%s': %v", v, err)
 			}
-			o.Names = make(xmp.StringArray, 0, o.Columns)
 		case i == 1:
 			if o.Rows, err = strconv.Atoi(v); err != nil {
 				return fmt.Errorf("exif: invalid OECF rows value '%s': %v", v, err)
 			}
-			o.Values = make(xmp.RationalArray, 0, o.Columns*o.Rows)
 		case i > 1 && i < o.Columns+1:
 			o.Names = append(o.Names, v)
 		default:
@@ -238,7 +236,6 @@ func (x *CFAPattern) UnmarshalText(data []byte) error {
 			if c.Rows, err = strconv.Atoi(v); err != nil {
 				return fmt.Errorf("exif: invalid CFA rows value '%s': %v", v, err)
 			}
-			c.Values = make(ByteArray, 0, c.Columns*c.Rows)
 		default:
 			if j, err := strconv.ParseUint(v, 10, 8); err != nil {
 				return fmt.Errorf("exif: invalid CFA value '%s': %v", v, err)
@@ -289,7 +286,6 @@ func (x *DeviceSettings) UnmarshalText(data []byte) error {
 			if s.Rows, err = strconv.Atoi(v); err != nil {
 				return fmt.Errorf("exif: invalid device settings rows value '%s': %v", v, err)
 			}
-			s.Values = make(xmp.StringArray, 0, s.Columns*s.Rows)
 		default:
 			s.Values = append(s.Values, v)
 		}
-- 
2.43.0


From 5f7ff8ef60a05c94bed259d47335844eec8c191b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:29 +0000
Subject: [PATCH 28/80] fix: delete structures by path, extend lists in
 extensions

---
 xmp/path.go | 36 +++++++++++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/xmp/path.go b/xmp/path.go
index 52b61f7..e97d516 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -346,6 +346,24 @@ func (n *Node) getTopPath(path Path) (string, error) {
 	return n.GetPath(path)
 }
 
+// hasStruct reports whether a path in a top-level node addresses values that have
+// no text on their own.
+func (n *Node) hasStruct(path Path) bool {
+	if n == nil || !n.hasTopValue(path.PeekNamespacePrefix(), path.peekName()) {
+		return false
+	}
+	l, err := NodeList{n}.listPaths()
+	if err != nil {
+		return false
+	}
+	for _, v := range l {
+		if p := strings.TrimPrefix(string(v.Path), string(path)); p != string(v.Path) && (p[0] == '/' || p[0] == '[') {
+			return true
+		}
+	}
+	return false
+}
+
 // setTopPath changes the value at a path in a top-level node.
 func (n *Node) setTopPath(path Path, value string, flags SyncFlags) error {
 	if n.Model != nil {
@@ -376,9 +394,12 @@ func (n *Node) isTopList(path Path) bool {
 			}
 			path = walker
 			if val.Kind() == reflect.Slice && isPathArray(val, f) {
-				if _, ok := val.Interface().(ExtensionArray); ok || val.Len() <= Max(idx, 0) {
+				if val.Len() <= Max(idx, 0) {
 					return false
 				}
+				if arr, ok := val.Interface().(ExtensionArray); ok {
+					return arr[Max(idx, 0)].isList(walker)
+				}
 				val = pathElem(val.Index(Max(idx, 0)))
 			}
 			if val.Kind() != reflect.Struct {
@@ -625,7 +646,8 @@ func (d *Document) setPath(path Path, uri, value string, flags SyncFlags) error
 
 	// get current version of path value
 	dest, n, err := d.nodes.getPath(path)
-	if err != nil {
+	isStruct := value == "" && dest == "" && n.hasStruct(path)
+	if err != nil && !isStruct {
 		return err
 	}
 	if n == nil && flags&CREATE == 0 {
@@ -634,7 +656,7 @@ func (d *Document) setPath(path Path, uri, value string, flags SyncFlags) error
 
 	// skip when equal, unless a list may change
 	isList := n != nil && n.isTopList(path)
-	if dest == value && (!isList || flags&UNIQUE > 0 && value != "") {
+	if dest == value && !isStruct && (!isList || flags&UNIQUE > 0 && value != "") {
 		if n == nil && value != "" {
 			err = errNotFound
 		}
@@ -1069,6 +1091,14 @@ func (x *Extension) getPath(path Path) (string, error) {
 	return (*Node)(x).GetPath(path)
 }
 
+func (x *Extension) isList(path Path) bool {
+	if x == nil {
+		return false
+	}
+	n := x.roots().pathNode(path)
+	return n != nil && n.isTopList(path) || (*Node)(x).isList(path)
+}
+
 // roots returns the namespace nodes in an extension.
 func (x *Extension) roots() NodeList {
 	var l NodeList
-- 
2.43.0


From 831c61ee40a865c83014e94901030f7aaf3481a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:03 +0000
Subject: [PATCH 29/80] fix: array types ignore empty values and keep copies
 intact

---
 models/ixml/enum.go      | 49 +++++++++++++++++++---------------------
 models/xmp_base/types.go |  6 +++++
 models/xmp_dm/types.go   |  5 +++-
 models/xmp_mm/types.go   |  6 ++---
 xmp/array.go             | 15 ++++++++----
 5 files changed, 47 insertions(+), 34 deletions(-)

diff --git a/models/ixml/enum.go b/models/ixml/enum.go
index f36ccc9..4749295 100644
--- a/models/ixml/enum.go
+++ b/models/ixml/enum.go
@@ -44,7 +44,7 @@ func (x TakeTypeList) Contains(t TakeType) bool {
 }
 
 func (x *TakeTypeList) Add(t TakeType) {
-	if !x.Contains(t) {
+	if t != "" && !x.Contains(t) {
 		*x = append(*x, t)
 	}
 }
@@ -57,7 +57,7 @@ func (x *TakeTypeList) Del(t TakeType) {
 		}
 	}
 	if idx > -1 {
-		*x = append((*x)[:idx], (*x)[idx+1:]...)
+		*x = append((*x)[:idx:idx], (*x)[idx+1:]...)
 	}
 }
 
@@ -105,12 +105,11 @@ func (x TakeTypeList) MarshalText() ([]byte, error) {
 
 func (x *TakeTypeList) UnmarshalText(data []byte) error {
 	fields := strings.Split(string(data), ",")
-	if len(fields) == 0 {
-		return nil
-	}
-	ttl := make(TakeTypeList, len(fields))
-	for i, v := range fields {
-		ttl[i] = ParseTakeType(v)
+	ttl := make(TakeTypeList, 0, len(fields))
+	for _, v := range fields {
+		if v != "" {
+			ttl = append(ttl, ParseTakeType(v))
+		}
 	}
 	*x = ttl
 	return nil
@@ -140,7 +139,7 @@ func ParseLocationType(s string) LocationType {
 }
 
 func (x *LocationTypeList) Add(t LocationType) {
-	if !x.Contains(t) {
+	if t != "" && !x.Contains(t) {
 		*x = append(*x, t)
 	}
 }
@@ -153,7 +152,7 @@ func (x *LocationTypeList) Del(t LocationType) {
 		}
 	}
 	if idx > -1 {
-		*x = append((*x)[:idx], (*x)[idx+1:]...)
+		*x = append((*x)[:idx:idx], (*x)[idx+1:]...)
 	}
 }
 
@@ -170,12 +169,11 @@ func (x LocationTypeList) MarshalText() ([]byte, error) {
 
 func (x *LocationTypeList) UnmarshalText(data []byte) error {
 	fields := strings.Split(string(data), ",")
-	if len(fields) == 0 {
-		return nil
-	}
-	ttl := make(LocationTypeList, len(fields))
-	for i, v := range fields {
-		ttl[i] = ParseLocationType(v)
+	ttl := make(LocationTypeList, 0, len(fields))
+	for _, v := range fields {
+		if v != "" {
+			ttl = append(ttl, ParseLocationType(v))
+		}
 	}
 	*x = ttl
 	return nil
@@ -232,7 +230,7 @@ func ParseLocationTime(s string) LocationTime {
 }
 
 func (x *LocationTimeList) Add(t LocationTime) {
-	if !x.Contains(t) {
+	if t != "" && !x.Contains(t) {
 		*x = append(*x, t)
 	}
 }
@@ -245,7 +243,7 @@ func (x *LocationTimeList) Del(t LocationTime) {
 		}
 	}
 	if idx > -1 {
-		*x = append((*x)[:idx], (*x)[idx+1:]...)
+		*x = append((*x)[:idx:idx], (*x)[idx+1:]...)
 	}
 }
 
@@ -262,12 +260,11 @@ func (x LocationTimeList) MarshalText() ([]byte, error) {
 
 func (x *LocationTimeList) UnmarshalText(data []byte) error {
 	fields := strings.Split(string(data), ",")
-	if len(fields) == 0 {
-		return nil
-	}
-	ttl := make(LocationTimeList, len(fields))
-	for i, v := range fields {
-		ttl[i] = ParseLocationTime(v)
+	ttl := make(LocationTimeList, 0, len(fields))
+	for _, v := range fields {
+		if v != "" {
+			ttl = append(ttl, ParseLocationTime(v))
+		}
 	}
 	*x = ttl
 	return nil
@@ -383,7 +380,7 @@ func (x FunctionSet) Contains(t FunctionType) bool {
 }
 
 func (x *FunctionSet) Add(t FunctionType) {
-	if !x.Contains(t) {
+	if t != "" && !x.Contains(t) {
 		*x = append(*x, t)
 	}
 }
@@ -396,7 +393,7 @@ func (x *FunctionSet) Del(t FunctionType) {
 		}
 	}
 	if idx > -1 {
-		*x = append((*x)[:idx], (*x)[idx+1:]...)
+		*x = append((*x)[:idx:idx], (*x)[idx+1:]...)
 	}
 }
 
diff --git a/models/xmp_base/types.go b/models/xmp_base/types.go
index 81bd0ad..5d88fa6 100644
--- a/models/xmp_base/types.go
+++ b/models/xmp_base/types.go
@@ -132,6 +132,9 @@ func (x *IdentifierArray) AddUnique(v string) error {
 }
 
 func (x *IdentifierArray) Add(value string) {
+	if value == "" {
+		return
+	}
 	*x = append(*x, Identifier{ID: value})
 }
 
@@ -140,6 +143,9 @@ func (x *IdentifierArray) Contains(v string) bool {
 }
 
 func (x *IdentifierArray) Index(val string) int {
+	if val == "" {
+		return -1
+	}
 	for i, v := range *x {
 		if v.ID == val {
 			return i
diff --git a/models/xmp_dm/types.go b/models/xmp_dm/types.go
index 0ee62e4..3ded93e 100644
--- a/models/xmp_dm/types.go
+++ b/models/xmp_dm/types.go
@@ -136,10 +136,13 @@ func (x PartList) String() string {
 }
 
 func (x *PartList) Add(v string) {
-	*x = append(*x, Part{Path: v})
+	x.AddPart(Part{Path: v})
 }
 
 func (x *PartList) AddPart(p Part) {
+	if p.IsZero() {
+		return
+	}
 	*x = append(*x, p)
 }
 
diff --git a/models/xmp_mm/types.go b/models/xmp_mm/types.go
index 104f8de..3df5c96 100644
--- a/models/xmp_mm/types.go
+++ b/models/xmp_mm/types.go
@@ -73,7 +73,7 @@ type ResourceRefArray []*ResourceRef
 
 func (x ResourceRefArray) Index(did xmp.GUID) int {
 	for i, v := range x {
-		if v.DocumentID == did {
+		if v != nil && v.DocumentID == did {
 			return i
 		}
 	}
@@ -81,10 +81,10 @@ func (x ResourceRefArray) Index(did xmp.GUID) int {
 }
 
 func (x *ResourceRefArray) DeleteIndex(idx int) {
-	if idx < 0 || idx > len(*x) {
+	if idx < 0 || idx >= len(*x) {
 		return
 	}
-	*x = append((*x)[:idx], ((*x)[idx+1:])...)
+	*x = append((*x)[:idx:idx], (*x)[idx+1:]...)
 }
 
 func (x ResourceRefArray) Typ() xmp.ArrayType {
diff --git a/xmp/array.go b/xmp/array.go
index bb45303..c5b40d5 100644
--- a/xmp/array.go
+++ b/xmp/array.go
@@ -285,7 +285,7 @@ func (x AltStringArray) IsZero() bool {
 }
 
 func (x *AltStringArray) Add(v *AltString) error {
-	if v == nil {
+	if v == nil || v.IsZero() {
 		return nil
 	}
 	*x = append(*x, v)
@@ -298,7 +298,10 @@ func (x AltStringArray) Typ() ArrayType {
 
 func NewAltStringArray(items ...*AltString) AltStringArray {
 	x := make(AltStringArray, 0, len(items))
-	return append(x, items...)
+	for _, v := range items {
+		x.Add(v)
+	}
+	return x
 }
 
 func (x AltStringArray) MarshalXMP(e *Encoder, node *Node, m Model) error {
@@ -456,7 +459,9 @@ func (x *StringList) UnmarshalXMP(d *Decoder, node *Node, m Model) error {
 
 func (x *StringList) UnmarshalText(data []byte) error {
 	list := strings.Split(strings.Replace(string(data), "\r\n", "\n", -1), "\n")
-	*x = append(*x, list...)
+	for _, v := range list {
+		x.Add(v)
+	}
 	return nil
 }
 
@@ -546,7 +551,9 @@ func (x *StringArray) UnmarshalXMP(d *Decoder, node *Node, m Model) error {
 
 func (x *StringArray) UnmarshalText(data []byte) error {
 	list := strings.Split(strings.Replace(string(data), "\r\n", "\n", -1), "\n")
-	*x = append(*x, list...)
+	for _, v := range list {
+		x.Add(v)
+	}
 	return nil
 }
 
-- 
2.43.0


From 29e45e21adde1070ad96b1e2943f1cc5b75a3f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:49 +0000
Subject: [PATCH 30/80] fix: sync and merge follow their flags

---
 xmp/path.go | 13 +++++++++--
 xmp/sync.go | 67 ++++++++++++++++++++++++++++++++---------------------
 2 files changed, 52 insertions(+), 28 deletions(-)

diff --git a/xmp/path.go b/xmp/path.go
index e97d516..b5682d8 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -1003,11 +1003,11 @@ func updateArray(fv reflect.Value, name string, idx int, walker Path, value stri
 		// always append
 		setElem(fv, fv.Len(), v)
 
-	case flags&(REPLACE|CREATE) > 0 && value != "" && idx > -1:
+	case value != "" && idx > -1 && (flags&REPLACE > 0 || flags&CREATE > 0 && isEmptyElem(fv, idx)):
 		// replace or create slice element at index
 		setElem(fv, idx, v)
 
-	case flags&(REPLACE|CREATE) > 0 && value != "" && idx == -1:
+	case value != "" && idx == -1 && (flags&REPLACE > 0 || flags&CREATE > 0 && fv.Len() == 0):
 		// replace entire slice with a single element
 		fv.Set(reflect.Zero(fv.Type()))
 		setElem(fv, 0, v)
@@ -1032,6 +1032,15 @@ func updateArray(fv reflect.Value, name string, idx int, walker Path, value stri
 	return nil
 }
 
+// isEmptyElem reports whether a list has no value at idx.
+func isEmptyElem(fv reflect.Value, idx int) bool {
+	if idx >= fv.Len() {
+		return true
+	}
+	v := pathElem(fv.Index(idx))
+	return !v.IsValid() || isEmptyValue(v)
+}
+
 // setElem sets an element, optionally growing the slice. Slices may be shared, so
 // this works on a copy.
 func setElem(fv reflect.Value, idx int, v reflect.Value) {
diff --git a/xmp/sync.go b/xmp/sync.go
index 588833e..9838aca 100644
--- a/xmp/sync.go
+++ b/xmp/sync.go
@@ -178,32 +178,49 @@ func (d *Document) Sync(sPath, dPath Path, flags SyncFlags, v Model, f Converter
 		return nil
 	}
 
+	sValue, err := GetModelPath(sModel, sPath)
+	if err != nil {
+		if flags&NOFAIL > 0 {
+			return nil
+		}
+		return err
+	}
+
+	// convert the source value if requested
+	if f != nil && sValue != "" {
+		sValue = f(sValue)
+	}
+
+	// empty source will only be used with delete flag
+	if sValue == "" && flags&DELETE == 0 {
+		return nil
+	}
+
 	dModel := v
 	if dModel != nil {
 		// dPath model must match dPath namespace
-		if !dPath.MatchNamespace(dModel.Namespaces()[0]) {
+		match := false
+		for _, ns := range dModel.Namespaces() {
+			match = match || dPath.MatchNamespace(ns)
+		}
+		if !match {
 			return nil
 		}
 	} else {
 		dModel = d.FindModel(dNs)
 	}
 
-	// create dPath model
-	if dModel == nil {
-		if flags&CREATE == 0 {
+	// create dPath model, there is nothing to clear without
+	isNew := dModel == nil
+	if isNew {
+		if flags&CREATE == 0 || sValue == "" {
 			return nil
 		}
-		dModel = dNs.NewModel()
-		d.AddModel(dModel)
-	}
-
-	sValue, err := GetModelPath(sModel, sPath)
-	if err != nil {
-		if flags&NOFAIL > 0 {
+		if dModel = dNs.NewModel(); dModel == nil {
 			return nil
 		}
-		return err
 	}
+
 	dValue, err := GetModelPath(dModel, dPath)
 	if err != nil {
 		if flags&NOFAIL > 0 {
@@ -212,14 +229,12 @@ func (d *Document) Sync(sPath, dPath Path, flags SyncFlags, v Model, f Converter
 		return err
 	}
 
-	// skip when equal
+	// skip when equal, unless a list may change
 	if sValue == dValue {
-		return nil
-	}
-
-	// empty source will only be used with delete flag
-	if sValue == "" && flags&DELETE == 0 {
-		return nil
+		_, err := GetModelPath(dModel, dPath.AppendIndex(1))
+		if err != nil || sValue == "" || flags&UNIQUE > 0 {
+			return nil
+		}
 	}
 
 	// empty destination values require create flag
@@ -227,22 +242,22 @@ func (d *Document) Sync(sPath, dPath Path, flags SyncFlags, v Model, f Converter
 		return nil
 	}
 
-	// existing destination values require replace/delete/append/unique flag
-	if dValue != "" && flags&(REPLACE|DELETE|APPEND|UNIQUE) == 0 {
+	// existing destination values require replace/append/unique flag
+	if dValue != "" && sValue != "" && flags&(REPLACE|APPEND|UNIQUE) == 0 {
 		return nil
 	}
 
-	// convert the source value if requested
-	if f != nil {
-		sValue = f(sValue)
-	}
-
 	if err = SetModelPath(dModel, dPath, sValue, flags); err != nil {
 		if flags&NOFAIL > 0 {
 			return nil
 		}
 		return err
 	}
+	if isNew {
+		if _, err = d.AddModel(dModel); err != nil {
+			return err
+		}
+	}
 	d.SetDirty()
 	return nil
 }
-- 
2.43.0


From 3fd9bb98bbab56f4712e4dd9a43a29f812ab3d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:04 +0000
Subject: [PATCH 31/80] fix: merge fills in what the document does not have

---
 xmp/sync.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/xmp/sync.go b/xmp/sync.go
index 9838aca..4464f3a 100644
--- a/xmp/sync.go
+++ b/xmp/sync.go
@@ -276,9 +276,20 @@ func (d *Document) Merge(b *Document, flags SyncFlags) error {
 		d.extNsMap[n] = v
 	}
 
+	// values a new model or structure starts with do not count as existing
+	missing := make(map[Path]bool)
+	for _, v := range p {
+		if s, _, err := d.nodes.getPath(v.Path); err == nil && s == "" {
+			missing[v.Path] = true
+		}
+	}
+
 	// copy content
 	for _, v := range p {
 		v.Flags = flags
+		if v.Flags&CREATE > 0 && missing[v.Path] {
+			v.Flags |= REPLACE
+		}
 		if err := d.SetPath(v); err != nil {
 			return err
 		}
-- 
2.43.0


From 2aaf36e31aa722b4eb1d0a40db88cec40ed2b3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:04 +0000
Subject: [PATCH 32/80] fix: removing a namespace keeps what other nodes hold

---
 xmp/document.go | 57 +++++++++++++++++++++++++++++++++++--------------
 1 file changed, 41 insertions(+), 16 deletions(-)

diff --git a/xmp/document.go b/xmp/document.go
index 2c895b0..66cc714 100644
--- a/xmp/document.go
+++ b/xmp/document.go
@@ -36,6 +36,10 @@ type Document struct {
 
 	// local namespace map for tracking unknown namespaces
 	extNsMap map[string]*Namespace
+
+	// URIs of namespaces whose node was removed; they stay known because
+	// other nodes may nest properties in them
+	goneNsMap map[string]bool
 }
 
 // high-level XMP document interface
@@ -110,11 +114,13 @@ func (d *Document) syncToXMP() error {
 
 func (d *Document) Namespaces() NamespaceList {
 	var l NamespaceList
-	for _, v := range d.intNsMap {
-		l = append(l, v)
-	}
-	for _, v := range d.extNsMap {
-		l = append(l, v)
+	for _, m := range []map[string]*Namespace{d.intNsMap, d.extNsMap} {
+		for uri, v := range m {
+			if d.goneNsMap[uri] && d.FindNode(v) == nil {
+				continue
+			}
+			l = append(l, v)
+		}
 	}
 	return l
 }
@@ -154,9 +160,16 @@ func (d *Document) MakeModel(ns *Namespace) (Model, error) {
 		if m = ns.NewModel(); m == nil {
 			return nil, fmt.Errorf("xmp: cannot create '%s' model", ns.GetName())
 		}
-		n := NewNode(ns.XMLName(""))
+		// like when reading, the node is named by the model's first namespace
+		if l := m.Namespaces(); len(l) > 0 {
+			ns = l[0]
+		}
+		n := d.FindNode(ns)
+		if n == nil {
+			n = NewNode(ns.XMLName(""))
+			d.nodes = append(d.nodes, n)
+		}
 		n.Model = m
-		d.nodes = append(d.nodes, n)
 		for _, v := range m.Namespaces() {
 			d.intNsMap[v.GetURI()] = v
 		}
@@ -192,17 +205,29 @@ func (d *Document) RemoveNamespace(ns *Namespace) bool {
 	}
 	name := ns.GetName()
 	removed := false
-	for i, v := range d.nodes {
-		if v.Name() == name {
-			d.nodes = append(d.nodes[:i], d.nodes[i+1:]...)
-			removed = true
-			delete(d.intNsMap, ns.GetURI())
-			delete(d.extNsMap, ns.GetURI())
-			v.Close()
-			d.SetDirty()
-			break
+	nodes := make(NodeList, 0, len(d.nodes))
+	for _, v := range d.nodes {
+		if v.Name() != name {
+			nodes = append(nodes, v)
+			continue
 		}
+		removed = true
+		gone := NamespaceList{ns, d.findNsByPrefix(name)}
+		if v.Model != nil {
+			gone = append(gone, v.Model.Namespaces()...)
+		}
+		for _, ns := range gone {
+			if ns != nil {
+				if d.goneNsMap == nil {
+					d.goneNsMap = make(map[string]bool)
+				}
+				d.goneNsMap[ns.GetURI()] = true
+			}
+		}
+		v.Close()
+		d.SetDirty()
 	}
+	d.nodes = nodes
 	return removed
 }
 
-- 
2.43.0


From b65727a448da2e3abcb43f2b98418f6b10f9be10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:04 +0000
Subject: [PATCH 33/80] fix: including an empty group keeps nothing

---
 xmp/filter.go    | 8 ++++----
 xmp/namespace.go | 9 +++++++++
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/xmp/filter.go b/xmp/filter.go
index 7a1cd3a..12ccdbf 100644
--- a/xmp/filter.go
+++ b/xmp/filter.go
@@ -46,7 +46,7 @@ func ParseFilterStrict(s string) (*Filter, error) {
 			v = v[1:]
 			// 1st try parsing as group
 			if g := ParseNamespaceGroup(v); g != NoMetadata {
-				f.exclude = append(f.exclude, g.Namespaces()...)
+				f.exclude = append(f.exclude, g.members()...)
 				break
 			}
 			// 2nd try as namespace
@@ -61,7 +61,7 @@ func ParseFilterStrict(s string) (*Filter, error) {
 		default:
 			// 1st try parsing as group
 			if g := ParseNamespaceGroup(v); g != NoMetadata {
-				f.include = append(f.include, g.Namespaces()...)
+				f.include = append(f.include, g.members()...)
 				break
 			}
 			// 2nd try as namespace
@@ -89,7 +89,7 @@ func ParseFilter(s string) *Filter {
 			v = v[1:]
 			// 1st try parsing as group
 			if g := ParseNamespaceGroup(v); g != NoMetadata {
-				f.exclude = append(f.exclude, g.Namespaces()...)
+				f.exclude = append(f.exclude, g.members()...)
 				break
 			}
 			// 2nd try as namespace
@@ -104,7 +104,7 @@ func ParseFilter(s string) *Filter {
 		default:
 			// 1st try parsing as group
 			if g := ParseNamespaceGroup(v); g != NoMetadata {
-				f.include = append(f.include, g.Namespaces()...)
+				f.include = append(f.include, g.members()...)
 				break
 			}
 			// 2nd try as namespace
diff --git a/xmp/namespace.go b/xmp/namespace.go
index 5b9177d..7fdf6b7 100644
--- a/xmp/namespace.go
+++ b/xmp/namespace.go
@@ -82,6 +82,15 @@ func (g NamespaceGroup) Namespaces() NamespaceList {
 	return l
 }
 
+// like Namespaces, but never empty, so that a filter which includes a group
+// without namespaces keeps nothing
+func (g NamespaceGroup) members() NamespaceList {
+	if l := g.Namespaces(); len(l) > 0 {
+		return l
+	}
+	return NamespaceList{&Namespace{Name: string(g)}}
+}
+
 func (g NamespaceGroup) Contains(ns *Namespace) bool {
 	for _, v := range g.Namespaces() {
 		if v.GetName() == ns.GetName() {
-- 
2.43.0


From 3da424a4177e529673feac7e53f1d331f764b9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:47 +0000
Subject: [PATCH 34/80] fix: report short writes and late writer errors

---
 xmp/marshal.go | 39 +++++++++++++++------------------------
 1 file changed, 15 insertions(+), 24 deletions(-)

diff --git a/xmp/marshal.go b/xmp/marshal.go
index fa8179c..19c4049 100644
--- a/xmp/marshal.go
+++ b/xmp/marshal.go
@@ -59,37 +59,28 @@ type countWriter struct {
 	w     io.Writer
 }
 
-func min(a, b int64) int64 {
-	if a < b {
-		return a
-	}
-	return b
-}
-
 func newCountWriter(w io.Writer) *countWriter {
 	return &countWriter{w: w}
 }
 
 func (w *countWriter) Write(b []byte) (int, error) {
-	if w.limit > 0 {
-		if w.n >= w.limit {
-			return 0, ErrOverflow
-		}
-		bLen := int64(len(b))
-		copied, err := io.CopyN(w.w, bytes.NewReader(b), min(w.limit-w.n, bLen))
-		w.n += copied
-		if err != nil {
-			return int(copied), err
-		}
-		if copied < bLen {
-			return int(copied), ErrOverflow
+	var overflow error
+	if w.limit > 0 && int64(len(b)) > w.limit-w.n {
+		overflow = ErrOverflow
+		b = b[:w.limit-w.n]
+		if len(b) == 0 {
+			return 0, overflow
 		}
-		return int(copied), nil
-	} else {
-		n, err := w.w.Write(b)
-		w.n += int64(n)
-		return n, err
 	}
+	n, err := w.w.Write(b)
+	w.n += int64(n)
+	if err == nil && n < len(b) {
+		err = io.ErrShortWrite
+	}
+	if err == nil {
+		err = overflow
+	}
+	return n, err
 }
 
 func NewEncoder(w io.Writer) *Encoder {
-- 
2.43.0


From f8b1a3d7a6e725d283e3c0a3c3cc3efcb45f2c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:47 +0000
Subject: [PATCH 35/80] fix: declare namespaces in a fixed order

---
 xmp/node.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/xmp/node.go b/xmp/node.go
index 9e70069..707e232 100644
--- a/xmp/node.go
+++ b/xmp/node.go
@@ -254,7 +254,12 @@ func (n *Node) Namespaces(d *Document) NamespaceList {
 		l = append(l, v.Namespaces(d)...)
 	}
 
+	names := make([]string, 0, len(m))
 	for name, _ := range m {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	for _, name := range names {
 		ns := d.findNsByPrefix(name)
 		if ns != nil && ns != nsRDF && ns != nsXML {
 			l = append(l, ns)
-- 
2.43.0


From 2102e2a4a597a77430f3d4d8b9f7a02b1273aaa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:47 +0000
Subject: [PATCH 36/80] fix: forget unknown namespaces of earlier documents

---
 xmp/json.go      | 1 +
 xmp/unmarshal.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/xmp/json.go b/xmp/json.go
index e07933e..967a381 100644
--- a/xmp/json.go
+++ b/xmp/json.go
@@ -285,6 +285,7 @@ func (d *Document) UnmarshalJSON(data []byte) error {
 	d.nodes = dec.nodes
 	d.intNsMap = dec.intNsMap
 	d.extNsMap = dec.extNsMap
+	d.goneNsMap = nil
 	return d.syncFromXMP()
 }
 
diff --git a/xmp/unmarshal.go b/xmp/unmarshal.go
index 53b1e45..271eecf 100644
--- a/xmp/unmarshal.go
+++ b/xmp/unmarshal.go
@@ -140,6 +140,7 @@ func (d *Decoder) Decode(x *Document) error {
 	x.nodes = d.nodes
 	x.intNsMap = d.intNsMap
 	x.extNsMap = d.extNsMap
+	x.goneNsMap = nil
 	return x.syncFromXMP()
 }
 
-- 
2.43.0


From 8c745d3aac8dc1acf7cc27890243b550c842bc84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:33 +0000
Subject: [PATCH 37/80] fix: print and read scalar values exactly

---
 xmp/units.go     | 32 ++++++++++++++++-------
 xmp/xmp_types.go | 68 ++++++++++++++++++++++++++++++++++++------------
 2 files changed, 74 insertions(+), 26 deletions(-)

diff --git a/xmp/units.go b/xmp/units.go
index 31f3c82..4a92c41 100644
--- a/xmp/units.go
+++ b/xmp/units.go
@@ -102,6 +102,10 @@ func (x SplitInt) Value() uint32 {
 	return uint32(x)
 }
 
+func (x *SplitInt) UnmarshalJSON(data []byte) error {
+	return x.UnmarshalText(bytes.Trim(data, "\""))
+}
+
 func (x *SplitInt) UnmarshalText(data []byte) error {
 	d := string(data)
 	switch d {
@@ -109,12 +113,12 @@ func (x *SplitInt) UnmarshalText(data []byte) error {
 		return nil
 	default:
 		// parse integer
-		if i, err := strconv.ParseInt(d, 10, 32); err == nil {
+		if i, err := strconv.ParseUint(d, 10, 32); err == nil {
 			*x = SplitInt(i)
 		} else if f := strings.Split(d, ":"); len(f) == 4 {
 			var u uint32
 			for i := 0; i < 4; i++ {
-				if v, err := strconv.ParseInt(f[i], 10, 8); err != nil {
+				if v, err := strconv.ParseUint(f[i], 10, 8); err != nil {
 					return fmt.Errorf("xmp: parsing SplitInt '%s': invalid syntax", d)
 				} else {
 					u += uint32(v) << uint32((3-i)*8)
@@ -229,10 +233,18 @@ func (d Duration) String() string {
 	return time.Duration(d).String()
 }
 
+func secondsToDuration(i int64) (Duration, error) {
+	d := time.Duration(i) * time.Second
+	if int64(d/time.Second) != i {
+		return 0, fmt.Errorf("xmp: duration of %d seconds is out of range", i)
+	}
+	return Duration(d), nil
+}
+
 func ParseDuration(d string) (Duration, error) {
 	// parse integer values as seconds
 	if i, err := strconv.ParseInt(d, 10, 64); err == nil {
-		return Duration(time.Duration(i) * time.Second), nil
+		return secondsToDuration(i)
 	}
 	// parse as duration string (note: no whitespace allowed)
 	if i, err := time.ParseDuration(d); err == nil {
@@ -272,8 +284,8 @@ func (d *Duration) UnmarshalJSON(data []byte) error {
 		return d.UnmarshalText(bytes.Trim(data, "\""))
 	}
 	if i, err := strconv.ParseInt(string(data), 10, 64); err == nil {
-		*d = Duration(time.Duration(i) * time.Second)
-		return nil
+		*d, err = secondsToDuration(i)
+		return err
 	}
 	return fmt.Errorf("xmp: parsing duration '%s': invalid syntax", string(data))
 }
@@ -317,7 +329,7 @@ func (f NullFloat) Value() float64 {
 	return float64(f)
 }
 
-var cleanFloat = regexp.MustCompile("[^0-9e.+-]")
+var cleanFloat = regexp.MustCompile("[^0-9eE.+-]")
 
 func ParseNullFloat(d string) (NullFloat, error) {
 	switch strings.ToLower(d) {
@@ -361,9 +373,9 @@ func (f NullFloat) MarshalJSON() ([]byte, error) {
 	case math.IsNaN(f.Value()):
 		return []byte("\"NaN\""), nil
 	case math.IsInf(f.Value(), -1):
-		return []byte("\"+Inf\""), nil
-	case math.IsInf(f.Value(), 1):
 		return []byte("\"-Inf\""), nil
+	case math.IsInf(f.Value(), 1):
+		return []byte("\"+Inf\""), nil
 	default:
 		return json.Marshal(f.Value())
 	}
@@ -432,9 +444,9 @@ func (f NullFloat64) MarshalJSON() ([]byte, error) {
 	case math.IsNaN(f.Value()):
 		return []byte("\"NaN\""), nil
 	case math.IsInf(f.Value(), -1):
-		return []byte("\"+Inf\""), nil
-	case math.IsInf(f.Value(), 1):
 		return []byte("\"-Inf\""), nil
+	case math.IsInf(f.Value(), 1):
+		return []byte("\"+Inf\""), nil
 	default:
 		return json.Marshal(f.Value())
 	}
diff --git a/xmp/xmp_types.go b/xmp/xmp_types.go
index a16bc47..6a20112 100644
--- a/xmp/xmp_types.go
+++ b/xmp/xmp_types.go
@@ -40,6 +40,8 @@ import (
 	"bytes"
 	"encoding/json"
 	"fmt"
+	"math"
+	"math/big"
 	"strconv"
 	"strings"
 	"time"
@@ -85,6 +87,10 @@ func (x Bool) MarshalJSON() ([]byte, error) {
 	return json.Marshal(x.Value())
 }
 
+func (x *Bool) UnmarshalJSON(data []byte) error {
+	return x.UnmarshalText(bytes.Trim(data, "\""))
+}
+
 // 8.2.1.2 Date
 type Date time.Time
 
@@ -105,7 +111,7 @@ func (x Date) Value() time.Time {
 }
 
 func (x Date) String() string {
-	return time.Time(x).Format(time.RFC3339)
+	return time.Time(x).Format(time.RFC3339Nano)
 }
 
 func (x Date) IsZero() bool {
@@ -173,7 +179,9 @@ func repairTZ(value string) string {
 	a, b, c := value[l-5], value[l-2], value[l-6]
 	switch a {
 	case '+', '-', 'Z':
-		return value[:l-4] + "0" + value[l-4:]
+		if value[l-3] == ':' {
+			return value[:l-4] + "0" + value[l-4:]
+		}
 	}
 	switch b {
 	case '+', '-', 'Z':
@@ -181,7 +189,7 @@ func repairTZ(value string) string {
 	}
 	switch c {
 	case '+', '-', 'Z':
-		if !strings.Contains(value[l-6:], ":") {
+		if value[l-5] == '0' && !strings.Contains(value[l-6:], ":") {
 			return value[:l-5] + value[l-4:]
 		}
 	}
@@ -248,7 +256,7 @@ func (x Time) Value() time.Time {
 }
 
 func (x Time) String() string {
-	return time.Time(x).Format("15:04:05-07:00")
+	return time.Time(x).Format("15:04:05.999999999-07:00")
 }
 
 func (x Time) IsZero() bool {
@@ -570,20 +578,11 @@ func (x *Rational) UnmarshalText(data []byte) error {
 	r := Rational{}
 	switch {
 	case strings.Contains(v, "."):
-		var f float64
-		f, err = strconv.ParseFloat(v, 32)
-		if err == nil {
-			if f < 1 {
-				r = Rational{1, int64(1000/f+50) / 1000}
-			} else {
-				r = FloatToRational(float32(f))
-			}
-			// fmt.Printf("Float %f in Rational %d/%d\n", f, r.Num, r.Den)
-		}
+		r, err = parseDecimal(v)
 	case strings.Contains(v, "/"):
-		_, err = fmt.Sscanf(v, "%d/%d", &r.Num, &r.Den)
+		r, err = parseFraction(strings.Split(v, "/"))
 	case strings.Contains(v, " "):
-		_, err = fmt.Sscanf(v, "%d %d", &r.Num, &r.Den)
+		r, err = parseFraction(strings.Fields(v))
 	default:
 		r.Num, err = strconv.ParseInt(v, 10, 64)
 		r.Den = 1
@@ -595,6 +594,43 @@ func (x *Rational) UnmarshalText(data []byte) error {
 	return nil
 }
 
+// parseDecimal converts a decimal number without loss.
+func parseDecimal(s string) (Rational, error) {
+	s = strings.TrimSpace(s)
+	f, err := strconv.ParseFloat(s, 64)
+	if err != nil {
+		return Rational{}, err
+	}
+	if f = math.Abs(f); f != 0 && f < 1e-19 || f >= 1e19 {
+		return Rational{}, strconv.ErrRange
+	}
+	if f == 0 {
+		if m := strings.FieldsFunc(s, func(r rune) bool { return r == 'e' || r == 'E' }); strings.ContainsAny(m[0], "123456789") {
+			return Rational{}, strconv.ErrRange
+		}
+		return Rational{0, 1}, nil
+	}
+	x, ok := new(big.Rat).SetString(s)
+	if !ok {
+		return Rational{}, strconv.ErrSyntax
+	}
+	if !x.Num().IsInt64() || !x.Denom().IsInt64() {
+		return Rational{}, strconv.ErrRange
+	}
+	return Rational{x.Num().Int64(), x.Denom().Int64()}, nil
+}
+
+func parseFraction(s []string) (r Rational, err error) {
+	if len(s) != 2 {
+		return r, strconv.ErrSyntax
+	}
+	if r.Num, err = strconv.ParseInt(strings.TrimSpace(s[0]), 10, 64); err != nil {
+		return r, err
+	}
+	r.Den, err = strconv.ParseInt(strings.TrimSpace(s[1]), 10, 64)
+	return r, err
+}
+
 type RationalArray []Rational
 
 func (a RationalArray) Typ() ArrayType {
-- 
2.43.0


From d654ff1c1dc7198bcb9b8f8f0e171299fce1f439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:33 +0000
Subject: [PATCH 38/80] fix: a version with only minor or patch is not zero

---
 xmp/semver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmp/semver.go b/xmp/semver.go
index 01fda9e..93d8b2b 100644
--- a/xmp/semver.go
+++ b/xmp/semver.go
@@ -61,7 +61,7 @@ func (v Version) String() string {
 }
 
 func (v Version) IsZero() bool {
-	return v.Major+v.Minor+v.Patch == 0
+	return v.Major == 0 && v.Minor == 0 && v.Patch == 0
 }
 
 func (v Version) Between(a, b Version) bool {
-- 
2.43.0


From 67e8dd17c4f3746c60db6c3209726446c0374b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:33 +0000
Subject: [PATCH 39/80] fix: print frame counts, rates and parts exactly

---
 models/xmp_dm/types.go | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/models/xmp_dm/types.go b/models/xmp_dm/types.go
index 3ded93e..173cf22 100644
--- a/models/xmp_dm/types.go
+++ b/models/xmp_dm/types.go
@@ -64,14 +64,6 @@ func (x Part) IsZero() bool {
 	return x.Path == "" && x.Start.IsZero() && x.Duration.IsZero()
 }
 
-func (x Part) MarshalXMP(e *xmp.Encoder, node *xmp.Node, m xmp.Model) error {
-	if x.IsZero() {
-		return nil
-	}
-	type _t Part
-	return e.EncodeElement(_t(x), node)
-}
-
 func (x *Part) UnmarshalText(data []byte) error {
 	p := Part{}
 	v := string(data)
@@ -114,7 +106,7 @@ func (x Part) MarshalText() ([]byte, error) {
 	if len(x.Path) > 0 && !strings.HasSuffix(x.Path, "/") {
 		buf.WriteByte('/')
 	}
-	if x.Duration.IsZero() {
+	if x.Duration.IsZero() && x.Start.IsZero() {
 		return buf.Bytes(), nil
 	}
 	buf.WriteString("time:")
@@ -229,17 +221,22 @@ func (x *FrameCount) UnmarshalText(data []byte) error {
 }
 
 func (x FrameCount) String() string {
+	buf := bytes.Buffer{}
 	switch x.Count {
 	case 0:
-		return "0"
+		buf.WriteByte('0')
 	case -1:
-		return "maximum"
+		buf.WriteString("maximum")
 	default:
-		buf := bytes.Buffer{}
 		buf.WriteString(strconv.FormatInt(x.Count, 10))
 		buf.WriteString(x.Rate.String())
 		return buf.String()
 	}
+	// the default rate may be missing
+	if !x.Rate.IsZero() && x.Rate != (FrameRate{1, 1}) {
+		buf.WriteString(x.Rate.String())
+	}
+	return buf.String()
 }
 
 func (x FrameCount) MarshalText() ([]byte, error) {
@@ -283,6 +280,10 @@ func (x *CuePointParamArray) UnmarshalXMP(d *xmp.Decoder, node *xmp.Node, m xmp.
 
 type VideoFrameRate float64
 
+func (x *VideoFrameRate) UnmarshalJSON(data []byte) error {
+	return x.UnmarshalText(bytes.Trim(data, "\""))
+}
+
 func (x *VideoFrameRate) UnmarshalText(data []byte) error {
 	// try detecting supported strings
 	switch strings.ToUpper(string(data)) {
@@ -294,9 +295,10 @@ func (x *VideoFrameRate) UnmarshalText(data []byte) error {
 		return nil
 	}
 
-	// try parsing as rational
+	// try parsing as rational, plain numbers are parsed below
 	rat := &xmp.Rational{}
-	if err := rat.UnmarshalText(data); err == nil {
+	_, ferr := strconv.ParseFloat(string(data), 64)
+	if err := rat.UnmarshalText(data); ferr != nil && err == nil && rat.Den != 0 {
 		*x = VideoFrameRate(rat.Value())
 		return nil
 	}
@@ -332,7 +334,7 @@ func (x FrameRate) String() string {
 	buf := bytes.Buffer{}
 	buf.WriteByte('f')
 	buf.WriteString(strconv.FormatInt(x.Rate, 10))
-	if x.Base > 1 {
+	if x.Base != 0 && x.Base != 1 {
 		buf.WriteByte('s')
 		buf.WriteString(strconv.FormatInt(x.Base, 10))
 	}
@@ -349,7 +351,7 @@ func (x *FrameRate) UnmarshalText(data []byte) error {
 	}
 	v := data[1:]
 	r := FrameRate{}
-	tokens := bytes.Split(v, []byte("s"))
+	tokens := bytes.SplitN(v, []byte("s"), 2)
 	var err error
 	r.Rate, err = strconv.ParseInt(string(tokens[0]), 10, 64)
 	if err != nil {
-- 
2.43.0


From 3f3e46d3e29faa00f4d8fc4ba3b1d932dc33a450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:33 +0000
Subject: [PATCH 40/80] fix: refuse broken flash, genre, track and GPS values

---
 models/exif/types.go |  4 ++--
 models/id3/types.go  | 16 +++++++++-------
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/models/exif/types.go b/models/exif/types.go
index 203f63e..4b1a5ff 100644
--- a/models/exif/types.go
+++ b/models/exif/types.go
@@ -320,7 +320,7 @@ func (x *Flash) UnmarshalText(data []byte) error {
 	}
 	v, err := strconv.ParseInt(string(data), 10, 32)
 	if err != nil {
-		return fmt.Errorf("exif: invalid flash value '%d': %v", v, err)
+		return fmt.Errorf("exif: invalid flash value '%s': %v", string(data), err)
 	}
 	x.Fired = v&0x01 > 0
 	x.Return = FlashReturnMode(v >> 1 & 0x3)
@@ -355,7 +355,7 @@ type GPSCoord [3]xmp.Rational
 func (x *GPSCoord) UnmarshalText(data []byte) error {
 	s := string(data)
 	f, err := strconv.ParseFloat(s, 64)
-	if err != nil || s[0] != '-' && len(strings.Split(s, ".")[0]) > 3 {
+	if err != nil || !(math.Abs(f) < 1000) {
 		return fmt.Errorf("exif: invalid decimal GPS coordinate '%s'", s)
 	}
 	val := math.Abs(f)
diff --git a/models/id3/types.go b/models/id3/types.go
index 4bbe12b..33847b4 100644
--- a/models/id3/types.go
+++ b/models/id3/types.go
@@ -35,7 +35,7 @@ import (
 
 const (
 	TIME_FORMAT_23 = "1504" // HHMM
-	DATE_FORMAT_23 = "0102" // DDMM
+	DATE_FORMAT_23 = "0201" // DDMM
 )
 
 type Bool int // 0 no, 1 yes
@@ -135,7 +135,7 @@ func ParseGenreV1(s string) (GenreV1, error) {
 			return i, nil
 		}
 	}
-	if t, err := strconv.Atoi(s); err == nil {
+	if t, err := strconv.ParseUint(s, 10, 8); err == nil {
 		return GenreV1(t), nil
 	}
 	return 0xff, fmt.Errorf("id3: invalid genre '%s'", s)
@@ -193,13 +193,15 @@ func (x *TrackNum) UnmarshalText(data []byte) error {
 	var err error
 	v := string(data)
 	n := TrackNum{}
-	if strings.Contains(v, "/") {
-		_, err = fmt.Sscanf(v, "%d/%d", &n.Track, &n.Total)
-	} else {
-		n.Track, err = strconv.Atoi(v)
+	if i := strings.Index(v, "/"); i > -1 {
+		n.Total, err = strconv.Atoi(strings.TrimSpace(v[i+1:]))
+		v = v[:i]
+	}
+	if err == nil {
+		n.Track, err = strconv.Atoi(strings.TrimSpace(v))
 	}
 	if err != nil {
-		return fmt.Errorf("id3: invalid track number '%s': %v", v, err)
+		return fmt.Errorf("id3: invalid track number '%s': %v", string(data), err)
 	}
 	*x = n
 	return nil
-- 
2.43.0


From 0cfffe5186b64da61194644abf8b723d6ac38cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:33 +0000
Subject: [PATCH 41/80] fix: refuse broken points, ratings and gapless info

---
 models/crs/types.go    | 12 +++++++++++-
 models/itunes/types.go |  8 ++++----
 models/qt/types.go     | 36 ++++++++++++++++++++++--------------
 3 files changed, 37 insertions(+), 19 deletions(-)

diff --git a/models/crs/types.go b/models/crs/types.go
index cb736e4..e590b4a 100644
--- a/models/crs/types.go
+++ b/models/crs/types.go
@@ -18,6 +18,8 @@ import (
 	"bytes"
 	"fmt"
 	"strconv"
+	"strings"
+
 	"github.com/trimmer-io/go-xmp/xmp"
 )
 
@@ -47,7 +49,15 @@ func (x Point) MarshalText() ([]byte, error) {
 func (x *Point) UnmarshalText(data []byte) error {
 	v := string(data)
 	r := Point{}
-	if _, err := fmt.Sscanf(v, "%d, %d", &r.X, &r.Y); err != nil {
+	i := strings.Index(v, ",")
+	if i < 0 {
+		return fmt.Errorf("xmp: invalid point '%s'", v)
+	}
+	var err error
+	if r.X, err = strconv.ParseInt(strings.TrimSpace(v[:i]), 10, 64); err != nil {
+		return fmt.Errorf("xmp: invalid point '%s': %v", v, err)
+	}
+	if r.Y, err = strconv.ParseInt(strings.TrimSpace(v[i+1:]), 10, 64); err != nil {
 		return fmt.Errorf("xmp: invalid point '%s': %v", v, err)
 	}
 	*x = r
diff --git a/models/itunes/types.go b/models/itunes/types.go
index e0c44fc..2a2e390 100644
--- a/models/itunes/types.go
+++ b/models/itunes/types.go
@@ -40,11 +40,11 @@ func (x *SMPB) UnmarshalText(data []byte) error {
 	for i, v := range bytes.Fields(data) {
 		switch i {
 		case 1:
-			if sm.EncoderDelay, err = strconv.ParseInt(string(v), 16, 32); err != nil {
+			if sm.EncoderDelay, err = strconv.ParseInt(string(v), 16, 64); err != nil {
 				return fmt.Errorf("iTunes: cannot parse SMPB '%s': %v", string(data), err)
 			}
 		case 2:
-			if sm.EndPadding, err = strconv.ParseInt(string(v), 16, 32); err != nil {
+			if sm.EndPadding, err = strconv.ParseInt(string(v), 16, 64); err != nil {
 				return fmt.Errorf("iTunes: cannot parse SMPB '%s': %v", string(data), err)
 			}
 		case 3:
@@ -75,7 +75,7 @@ type ContentRating struct {
 }
 
 func (x ContentRating) IsZero() bool {
-	return x.Standard == "" && x.Rating == ""
+	return x.Standard == "" && x.Rating == "" && x.Score == "" && x.Reasons == ""
 }
 
 func (x ContentRating) String() string {
@@ -98,7 +98,7 @@ func (x *ContentRating) UnmarshalText(data []byte) error {
 	v = strings.TrimSpace(v)
 	v = strings.TrimPrefix(v, "(")
 	v = strings.TrimSuffix(v, ")")
-	for i, s := range strings.Split(v, "|") {
+	for i, s := range strings.SplitN(v, "|", 4) {
 		switch i {
 		case 0:
 			cr.Standard = s
diff --git a/models/qt/types.go b/models/qt/types.go
index 59f729c..c0dd662 100644
--- a/models/qt/types.go
+++ b/models/qt/types.go
@@ -81,19 +81,27 @@ func (x Point) String() string {
 
 func (x *Point) UnmarshalText(data []byte) error {
 	v := string(data)
-	f := "%d,%d"
-	switch true {
-	case strings.Contains(v, "/"):
-		f = "%d/%d"
-	case strings.Contains(v, ":"):
-		f = "%d:%d"
-	case strings.Contains(v, " "):
-		f = "%d %d"
-	case strings.Contains(v, ";"):
-		f = "%d;%d"
+	var f []string
+	for _, sep := range []string{",", "/", ":", ";"} {
+		if strings.Contains(v, sep) {
+			f = strings.Split(v, sep)
+			break
+		}
+	}
+	if f == nil {
+		f = strings.Fields(v)
+	}
+	if len(f) != 2 {
+		return fmt.Errorf("qt: invalid point value '%s'", v)
+	}
+	var (
+		p   Point
+		err error
+	)
+	if p.X, err = strconv.Atoi(strings.TrimSpace(f[0])); err != nil {
+		return fmt.Errorf("qt: invalid point value '%s': %v", v, err)
 	}
-	p := Point{}
-	if _, err := fmt.Sscanf(v, f, &p.X, &p.Y); err != nil {
+	if p.Y, err = strconv.Atoi(strings.TrimSpace(f[1])); err != nil {
 		return fmt.Errorf("qt: invalid point value '%s': %v", v, err)
 	}
 	*x = p
@@ -115,7 +123,7 @@ type ContentRating struct {
 }
 
 func (x ContentRating) IsZero() bool {
-	return x.Standard == "" && x.Rating == ""
+	return x.Standard == "" && x.Rating == "" && x.Score == "" && x.Reasons == ""
 }
 
 func (x ContentRating) String() string {
@@ -138,7 +146,7 @@ func (x *ContentRating) UnmarshalText(data []byte) error {
 	v = strings.TrimSpace(v)
 	v = strings.TrimPrefix(v, "(")
 	v = strings.TrimSuffix(v, ")")
-	for i, s := range strings.Split(v, "|") {
+	for i, s := range strings.SplitN(v, "|", 4) {
 		switch i {
 		case 0:
 			cr.Standard = s
-- 
2.43.0


From c0ea411f9844549f0aab7f23b96384604670bf1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:00 +0000
Subject: [PATCH 42/80] fix: print fractions of photo mechanic times

---
 models/pm/model.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/models/pm/model.go b/models/pm/model.go
index 8396e48..a641182 100644
--- a/models/pm/model.go
+++ b/models/pm/model.go
@@ -118,7 +118,7 @@ type Photomechanic struct {
 
 type Time time.Time
 
-const pmTimeFormat = "150405-0700"
+const pmTimeFormat = "150405.999999999-0700"
 
 // HH = 24hr hour value (0-23)
 // MM = minute value (0-59)
-- 
2.43.0


From 792dc66c4262ea7acd4cf284e175e9ed1582d2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:52 +0000
Subject: [PATCH 43/80] fix: refuse extensions in attributes

---
 xmp/xmp_ext.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xmp/xmp_ext.go b/xmp/xmp_ext.go
index e7f6267..c083ba4 100644
--- a/xmp/xmp_ext.go
+++ b/xmp/xmp_ext.go
@@ -16,6 +16,7 @@ package xmp
 
 import (
 	"encoding/xml"
+	"fmt"
 	"strings"
 )
 
@@ -77,7 +78,7 @@ func (x Extension) MarshalXMP(e *Encoder, node *Node, m Model) error {
 }
 
 func (x *Extension) UnmarshalXMPAttr(d *Decoder, a Attr) error {
-	return d.decodeAttribute(&x.Nodes, a)
+	return fmt.Errorf("xmp: extension %s cannot be an attribute", a.Name.Local)
 }
 
 func (x *Extension) UnmarshalXMP(d *Decoder, src *Node, m Model) error {
-- 
2.43.0


From d83f10735493ad489cd07c6b7260b57bc47976d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:52 +0000
Subject: [PATCH 44/80] fix: convert nested lists to JSON once

---
 xmp/json.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xmp/json.go b/xmp/json.go
index 967a381..262865f 100644
--- a/xmp/json.go
+++ b/xmp/json.go
@@ -142,6 +142,7 @@ func nodeToJson(n *Node) (interface{}, error) {
 			if isPlain || err != nil {
 				return a, err
 			}
+			return map[string]interface{}{n.Nodes[0].FullName(): a}, nil
 		}
 	}
 
-- 
2.43.0


From 8c89a75e28dab8ab40dd84a4ffdae4b55e1c9aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:53 +0000
Subject: [PATCH 45/80] fix: limit nesting and list growth

---
 xmp/node.go | 16 +++++++++++++++-
 xmp/path.go | 12 ++++++++++++
 2 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/xmp/node.go b/xmp/node.go
index 707e232..2e1c455 100644
--- a/xmp/node.go
+++ b/xmp/node.go
@@ -27,8 +27,12 @@ var (
 	nodePool                             = make(chan *Node, 5000)
 	npAllocs, npFrees, npHits, npReturns int64
 	errNotFound                          = errors.New("not found")
+	errDepth                             = errors.New("xmp: exceeded max depth")
 )
 
+// maxDepth limits nesting the same way Go's XML and JSON decoders do.
+const maxDepth = 10000
+
 type Node struct {
 	XMLName xml.Name // node name and namespace
 	Attr    AttrList // captures all unbound attributes and XMP qualifiers
@@ -433,6 +437,13 @@ func (n *Node) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
 }
 
 func (n *Node) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
+	return n.unmarshalXML(d, start, 0)
+}
+
+func (n *Node) unmarshalXML(d *xml.Decoder, start xml.StartElement, depth int) error {
+	if depth >= maxDepth {
+		return errDepth
+	}
 	var nodes []*Node
 	var text strings.Builder
 	var done bool
@@ -447,7 +458,7 @@ func (n *Node) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 			text.Write(t)
 		case xml.StartElement:
 			x := NewNode(emptyName)
-			if err := x.UnmarshalXML(d, t); err != nil {
+			if err := x.unmarshalXML(d, t, depth+1); err != nil {
 				return err
 			}
 			nodes = append(nodes, x)
@@ -866,6 +877,9 @@ func (arr *Node) setArrayItem(path Path, idx int, lang, value string, flags Sync
 	if flags&(CREATE|APPEND|UNIQUE) == 0 {
 		return fmt.Errorf("CREATE flag required to extend an array")
 	}
+	if idx > len(arr.Nodes)+maxGrow {
+		return fmt.Errorf("array index %d out of bounds", idx)
+	}
 	li = NewNode(NewName("rdf:li"))
 	if isAlt {
 		if lang == "" {
diff --git a/xmp/path.go b/xmp/path.go
index b5682d8..b530fa4 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -616,6 +616,9 @@ func (d *Document) setPath(path Path, uri, value string, flags SyncFlags) error
 	if !path.IsXmpPath() {
 		return fmt.Errorf("xmp: invalid path '%s'", path.String())
 	}
+	if strings.Count(string(path), "/") > maxDepth {
+		return errDepth
+	}
 
 	ns, err := path.Namespace(d)
 	if ns == nil || err != nil {
@@ -924,11 +927,17 @@ func parsePathText(t reflect.Type, value string) (reflect.Value, error) {
 }
 
 // updateArray changes a list or one of its elements.
+// maxGrow limits how far beyond its end a list is extended.
+const maxGrow = 1 << 16
+
 func updateArray(fv reflect.Value, name string, idx int, walker Path, value string, flags SyncFlags) error {
 	isFixed := fv.Kind() == reflect.Array
 	if isFixed && fv.Len() <= idx {
 		return fmt.Errorf("array %s index %d out of bounds", name, idx)
 	}
+	if value != "" && idx > fv.Len()+maxGrow {
+		return fmt.Errorf("slice %s index %d out of bounds", name, idx)
+	}
 
 	// change a part of an element
 	if walker.Len() > 0 {
@@ -1178,6 +1187,9 @@ func (x *ExtensionArray) setPath(idx int, path Path, value string, flags SyncFla
 	if flags&(CREATE|APPEND) == 0 {
 		return fmt.Errorf("CREATE flag required to add extension")
 	}
+	if idx > len(*x)+maxGrow {
+		return fmt.Errorf("extension index %d out of bounds", idx)
+	}
 	ext := (*Extension)(NewNode(EmptyName))
 	if err := ext.setPath(path, value, flags); err != nil {
 		return err
-- 
2.43.0


From 016c5d121d427ddea586cdb32c8425bb6fc59256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:53 +0000
Subject: [PATCH 46/80] fix: list and read native tags of any type

---
 xmp/native.go | 115 +++++++++-----------------------------------------
 1 file changed, 21 insertions(+), 94 deletions(-)

diff --git a/xmp/native.go b/xmp/native.go
index 3c6312d..b5471c7 100644
--- a/xmp/native.go
+++ b/xmp/native.go
@@ -141,8 +141,6 @@ func GetNativeField(v Model, name string) (string, error) {
 	}
 
 	fv := finfo.value(val)
-	typ := fv.Type()
-
 	if !fv.IsValid() {
 		return "", nil
 	}
@@ -155,43 +153,25 @@ func GetNativeField(v Model, name string) (string, error) {
 		return "", nil
 	}
 
-	// Drill into interfaces and pointers.
-	// This can turn into an infinite loop given a cyclic chain,
-	// but it matches the Go 1 behavior.
-	for fv.Kind() == reflect.Interface || fv.Kind() == reflect.Ptr {
-		fv = fv.Elem()
-	}
+	return nativeText(derefValue(fv))
+}
 
-	// Check for text marshaler and marshal as node value
-	if fv.CanAddr() {
-		pv := fv.Addr()
-		if pv.CanInterface() && (finfo != nil && finfo.flags&fTextMarshal > 0 || pv.Type().Implements(textMarshalerType)) {
-			b, err := pv.Interface().(encoding.TextMarshaler).MarshalText()
-			if err != nil || b == nil {
-				return "", err
-			}
-			return string(b), nil
-		}
+// nativeText returns the text of a native tag. Simple values and values with a
+// text marshaler are just fine, any other type (slice, array, struct) fails.
+func nativeText(fv reflect.Value) (string, error) {
+	if fv.CanAddr() && fv.Addr().Type().Implements(textMarshalerType) {
+		b, err := fv.Addr().Interface().(encoding.TextMarshaler).MarshalText()
+		return string(b), err
 	}
-
-	if fv.CanInterface() && (finfo != nil && finfo.flags&fTextMarshal > 0 || typ.Implements(textMarshalerType)) {
+	if fv.Type().Implements(textMarshalerType) {
 		b, err := fv.Interface().(encoding.TextMarshaler).MarshalText()
-		if err != nil || b == nil {
-			return "", err
-		}
-		return string(b), nil
+		return string(b), err
 	}
-
-	// simple values are just fine, but any other type (slice, array, struct)
-	// without textmarshaler will fail
-	if s, b, err := marshalSimple(typ, fv); err != nil {
-		return "", err
-	} else {
-		if b != nil {
-			s = string(b)
-		}
-		return s, nil
+	s, b, err := marshalSimple(fv.Type(), fv)
+	if b != nil {
+		s = string(b)
 	}
+	return s, err
 }
 
 func SetNativeField(v Model, name, value string) error {
@@ -294,7 +274,7 @@ func GetLocaleField(v Model, lang string, name string) (string, error) {
 
 	f := finfo.value(val)
 
-	if f.Kind() != reflect.Slice && f.Type().Elem() != reflect.TypeOf(AltItem{}) {
+	if f.Kind() != reflect.Slice || f.Type().Elem() != reflect.TypeOf(AltItem{}) {
 		return "", fmt.Errorf("field '%s' must be of type AltString, found %s (%s)", name, f.Type().String(), f.Kind())
 	}
 
@@ -339,54 +319,11 @@ func ListNativeFields(v Model) (TagList, error) {
 			continue
 		}
 
-		// Drill into interfaces and pointers.
-		// This can turn into an infinite loop given a cyclic chain,
-		// but it matches the Go 1 behavior.
-		for fv.Kind() == reflect.Interface || fv.Kind() == reflect.Ptr {
-			fv = fv.Elem()
-		}
-
-		tag := Tag{
-			Key: finfo.name,
-		}
-
-		// Check for text marshaler and marshal as node value
-		if fv.CanInterface() && typ.Implements(textMarshalerType) {
-			b, err := fv.Interface().(encoding.TextMarshaler).MarshalText()
-			if err != nil {
-				return nil, err
-			}
-			if len(b) == 0 {
-				continue
-			}
-			tag.Value = string(b)
-			tagList = append(tagList, tag)
-			continue
-		}
-
-		if fv.CanAddr() {
-			pv := fv.Addr()
-			if pv.CanInterface() && pv.Type().Implements(textMarshalerType) {
-				b, err := pv.Interface().(encoding.TextMarshaler).MarshalText()
-				if err != nil {
-					return nil, err
-				}
-				if len(b) == 0 {
-					continue
-				}
-				tag.Value = string(b)
-				tagList = append(tagList, tag)
-				continue
-			}
-		}
+		fv = derefValue(fv)
 
 		// handle multi-language arrays
-		if fv.Kind() == reflect.Slice && fv.Type().Elem() == reflect.TypeOf(AltItem{}) {
-			a, ok := fv.Interface().(AltString)
-			if !ok {
-				return nil, fmt.Errorf("field '%s' must be of type AltString", finfo.name)
-			}
-			for _, v := range a {
+		if isPathAlt(fv.Type()) {
+			for _, v := range fv.Convert(altStringType).Interface().(AltString) {
 				tagList = append(tagList, Tag{
 					Key:   finfo.name,
 					Lang:  v.Lang,
@@ -396,19 +333,9 @@ func ListNativeFields(v Model) (TagList, error) {
 			continue
 		}
 
-		// simple values are just fine, but any other type (slice, array, struct)
-		// without textmarshaler will fail here
-		if s, b, err := marshalSimple(typ, fv); err != nil {
-			return nil, err
-		} else {
-			if b != nil {
-				s = string(b)
-			}
-			if len(s) == 0 {
-				continue
-			}
-			tag.Value = s
-			tagList = append(tagList, tag)
+		// skip fields without a text form, they cannot be native tags
+		if s, err := nativeText(fv); err == nil && s != "" {
+			tagList = append(tagList, Tag{Key: finfo.name, Value: s})
 		}
 	}
 
-- 
2.43.0


From cc57a45c348c550d58aec7b7d21a275c060de6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:18 +0000
Subject: [PATCH 47/80] fix: unlimited and open version ranges

---
 xmp/semver.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/xmp/semver.go b/xmp/semver.go
index 93d8b2b..8325e58 100644
--- a/xmp/semver.go
+++ b/xmp/semver.go
@@ -64,16 +64,18 @@ func (v Version) IsZero() bool {
 	return v.Major == 0 && v.Minor == 0 && v.Patch == 0
 }
 
+// Between reports whether v is in the range from a to b, including both. Zero
+// values don't limit a range and a zero version is in every range.
 func (v Version) Between(a, b Version) bool {
 	switch {
 	case v.IsZero():
 		return true
-	case a.IsZero():
-		return v.Before(b) || v.Equal(a)
-	case b.IsZero():
-		return v.After(a) || v.Equal(a)
+	case !a.IsZero() && v.Before(a):
+		return false
+	case !b.IsZero() && v.After(b):
+		return false
 	default:
-		return v.Equal(a) || v.Equal(b) || (v.After(a) && v.Before(b))
+		return true
 	}
 }
 
-- 
2.43.0


From e617a6f292daf1fc90d2b7da54535bbf9a272b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:22 +0000
Subject: [PATCH 48/80] fix: detect overlapping version ranges of same-named
 fields

---
 xmp/typeinfo.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmp/typeinfo.go b/xmp/typeinfo.go
index c84ba01..43bf73d 100644
--- a/xmp/typeinfo.go
+++ b/xmp/typeinfo.go
@@ -312,10 +312,10 @@ func addFieldInfo(typ reflect.Type, tinfo *typeInfo, newf *fieldInfo, ns string)
 
 		// Same name is a conflict unless versions don't overlap.
 		if newf.name == oldf.name {
-			if !newf.minVersion.Between(oldf.minVersion, oldf.maxVersion) {
+			if !oldf.maxVersion.IsZero() && newf.minVersion.After(oldf.maxVersion) {
 				continue
 			}
-			if !newf.maxVersion.Between(oldf.minVersion, oldf.maxVersion) {
+			if !newf.maxVersion.IsZero() && newf.maxVersion.Before(oldf.minVersion) {
 				continue
 			}
 			conflicts = append(conflicts, i)
-- 
2.43.0


From 578a9bba4f6f6ed4ede90c6c64d69f1e7c5c3902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:27 +0000
Subject: [PATCH 49/80] fix: select the version to encode

---
 xmp/marshal.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/xmp/marshal.go b/xmp/marshal.go
index 19c4049..3599fdf 100644
--- a/xmp/marshal.go
+++ b/xmp/marshal.go
@@ -104,6 +104,11 @@ func (e *Encoder) SetFlags(flags int) {
 	e.flags = flags & eMode
 }
 
+// SetVersion limits output to fields which exist in version v.
+func (e *Encoder) SetVersion(v Version) {
+	e.version = v
+}
+
 func (e *Encoder) Indent(prefix, indent string) {
 	e.e.Indent(prefix, indent)
 }
-- 
2.43.0


From da4b5a8f0cc600aba2af20eccd3b9e690ac88287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:02 +0000
Subject: [PATCH 50/80] fix: skip structure fields of other versions

---
 xmp/unmarshal.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/xmp/unmarshal.go b/xmp/unmarshal.go
index 271eecf..e3383e0 100644
--- a/xmp/unmarshal.go
+++ b/xmp/unmarshal.go
@@ -265,7 +265,7 @@ func (d *Decoder) unmarshal(val reflect.Value, finfo *fieldInfo, src *Node) erro
 				if err := d.unmarshalAttr(field, finfo, a); err != nil {
 					return err
 				}
-			} else {
+			} else if !d.isOtherVersion(val, a.Name.Local) {
 				return fmt.Errorf("xmp: unmarshal model %s: field for attr %s not found in type %v", src.FullName(), a.Name.Local, val.Type())
 			}
 		}
@@ -287,7 +287,7 @@ func (d *Decoder) unmarshal(val reflect.Value, finfo *fieldInfo, src *Node) erro
 					if err := d.unmarshal(field, finfo, n); err != nil {
 						return err
 					}
-				} else {
+				} else if !d.isOtherVersion(val, name) {
 					return fmt.Errorf("xmp: unmarshal model %s: struct field %s not found (not stored)", src.FullName(), name)
 				}
 			}
@@ -549,6 +549,21 @@ func (d *Decoder) findStructField(val reflect.Value, name string) (*fieldInfo, r
 	return finfo, v
 }
 
+// isOtherVersion reports whether the struct val has a field with this name, but
+// not in the version that's being decoded.
+func (d *Decoder) isOtherVersion(val reflect.Value, name string) bool {
+	tinfo, err := getTypeInfo(val.Type(), "xmp")
+	if err != nil {
+		return false
+	}
+	for _, v := range tinfo.fields {
+		if v.name == name && !d.version.Between(v.minVersion, v.maxVersion) {
+			return true
+		}
+	}
+	return false
+}
+
 func (d *Decoder) lookupNode(ctx *NodeList, name xml.Name) (*Node, error) {
 	// check namespace has been registered (i.e. exists in document)
 	ns := d.findNs(name)
-- 
2.43.0


From d15100254fd3981cef5b728a01db8b538e819f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:39 +0000
Subject: [PATCH 51/80] fix: decode several documents with one decoder

---
 xmp/unmarshal.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/xmp/unmarshal.go b/xmp/unmarshal.go
index e3383e0..1d11826 100644
--- a/xmp/unmarshal.go
+++ b/xmp/unmarshal.go
@@ -74,6 +74,13 @@ func (d *Decoder) Decode(x *Document) error {
 		return nil
 	}
 
+	// reset state left from a previous document
+	d.about = ""
+	d.toolkit = ""
+	d.nodes = make(NodeList, 0)
+	d.intNsMap = make(map[string]*Namespace)
+	d.extNsMap = make(map[string]*Namespace)
+
 	// 1  parse node tree from XML
 	root := NewNode(emptyName)
 	gc := root
-- 
2.43.0


From 285e89d3a0eb8a57097962c685f222072cb58f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:42 +0000
Subject: [PATCH 52/80] fix: merge documents with different namespaces of one
 prefix

---
 xmp/path.go | 16 ++++++++++++++++
 xmp/sync.go | 23 +++++++++++++++++++++--
 2 files changed, 37 insertions(+), 2 deletions(-)

diff --git a/xmp/path.go b/xmp/path.go
index b530fa4..8f4b363 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -271,6 +271,22 @@ func (x Path) peekName() string {
 	return name
 }
 
+// rename replaces namespace prefixes.
+func (x Path) rename(names map[string]string) Path {
+	if len(names) == 0 {
+		return x
+	}
+	segments := strings.Split(string(x), "/")
+	for i, v := range segments {
+		if j := strings.Index(v, ":"); j > -1 {
+			if n, ok := names[v[:j]]; ok {
+				segments[i] = n + v[j:]
+			}
+		}
+	}
+	return Path(strings.Join(segments, "/"))
+}
+
 func (x *Path) UnmarshalText(data []byte) error {
 	p := Path(string(data))
 	if !p.IsXmpPath() {
diff --git a/xmp/sync.go b/xmp/sync.go
index 4464f3a..6b4307c 100644
--- a/xmp/sync.go
+++ b/xmp/sync.go
@@ -272,8 +272,27 @@ func (d *Document) Merge(b *Document, flags SyncFlags) error {
 	for n, v := range b.intNsMap {
 		d.intNsMap[n] = v
 	}
-	for n, v := range b.extNsMap {
-		d.extNsMap[n] = v
+
+	// both documents may use different prefixes for the same unknown namespace
+	// or the same prefix for different ones
+	names := make(map[string]string)
+	for _, uri := range sortedKeys(b.extNsMap) {
+		ns := b.extNsMap[uri]
+		prefix := ns.GetName()
+		if v := d.findNsByURI(uri); v != nil {
+			ns = v
+		} else {
+			for i := 1; d.findNsByPrefix(ns.GetName()) != nil; i++ {
+				ns = NewNamespace(fmt.Sprintf("ns%d", i), uri, emptyFactory)
+			}
+			d.extNsMap[uri] = ns
+		}
+		if ns.GetName() != prefix {
+			names[prefix] = ns.GetName()
+		}
+	}
+	for i := range p {
+		p[i].Path = p[i].Path.rename(names)
 	}
 
 	// values a new model or structure starts with do not count as existing
-- 
2.43.0


From f031280db3f24160d97fd95e109bbd7e4cd8a94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:54 +0000
Subject: [PATCH 53/80] fix: keep native values without a standard value

---
 models/pdf/model.go  | 24 ++++++++++++++++++------
 models/riff/model.go |  8 ++++++--
 models/tiff/model.go | 16 ++++++++++++----
 3 files changed, 36 insertions(+), 12 deletions(-)

diff --git a/models/pdf/model.go b/models/pdf/model.go
index 25f04d1..02f5262 100644
--- a/models/pdf/model.go
+++ b/models/pdf/model.go
@@ -80,17 +80,29 @@ func (x *PDFInfo) SyncModel(d *xmp.Document) error {
 
 func (x *PDFInfo) SyncFromXMP(d *xmp.Document) error {
 	if m := dc.FindModel(d); m != nil {
-		x.Title = m.Title
-		x.Author = m.Creator
-		x.Subject = m.Description
+		if len(m.Title) > 0 {
+			x.Title = m.Title
+		}
+		if len(m.Creator) > 0 {
+			x.Author = m.Creator
+		}
+		if len(m.Description) > 0 {
+			x.Subject = m.Description
+		}
 		if s := m.Rights.Default(); s != "" {
 			x.Copyright = s
 		}
 	}
 	if base := xmpbase.FindModel(d); base != nil {
-		x.Creator = base.CreatorTool
-		x.CreationDate = base.CreateDate
-		x.ModifyDate = base.ModifyDate
+		if !base.CreatorTool.IsZero() {
+			x.Creator = base.CreatorTool
+		}
+		if !base.CreateDate.IsZero() {
+			x.CreationDate = base.CreateDate
+		}
+		if !base.ModifyDate.IsZero() {
+			x.ModifyDate = base.ModifyDate
+		}
 	}
 	return nil
 }
diff --git a/models/riff/model.go b/models/riff/model.go
index ef04520..be92ac1 100644
--- a/models/riff/model.go
+++ b/models/riff/model.go
@@ -173,13 +173,17 @@ func (x *RiffInfo) SyncFromXMP(d *xmp.Document) error {
 		if len(m.Title) > 0 {
 			x.Title = AltString(m.Title)
 		}
-		x.SourceMedium = m.Source
+		if m.Source != "" {
+			x.SourceMedium = m.Source
+		}
 	}
 	if base := xmpbase.FindModel(d); base != nil {
 		if !base.CreateDate.IsZero() {
 			x.CreateDate = base.CreateDate
 		}
-		x.Software = base.CreatorTool
+		if !base.CreatorTool.IsZero() {
+			x.Software = base.CreatorTool
+		}
 	}
 	if dm := xmpdm.FindModel(d); dm != nil {
 		if dm.Artist != "" {
diff --git a/models/tiff/model.go b/models/tiff/model.go
index 9e7d205..144bdce 100644
--- a/models/tiff/model.go
+++ b/models/tiff/model.go
@@ -105,12 +105,20 @@ func (x *TiffInfo) SyncModel(d *xmp.Document) error {
 
 func (x *TiffInfo) SyncFromXMP(d *xmp.Document) error {
 	if m := dc.FindModel(d); m != nil {
-		x.Artist = m.Creator
-		x.ImageDescription = m.Description
-		x.Copyright = m.Rights
+		if len(m.Creator) > 0 {
+			x.Artist = m.Creator
+		}
+		if len(m.Description) > 0 {
+			x.ImageDescription = m.Description
+		}
+		if len(m.Rights) > 0 {
+			x.Copyright = m.Rights
+		}
 	}
 	if m := xmpbase.FindModel(d); m != nil {
-		x.DateTime = m.ModifyDate
+		if !m.ModifyDate.IsZero() {
+			x.DateTime = m.ModifyDate
+		}
 		if m.CreatorTool != "" {
 			x.Software = m.CreatorTool.String()
 		}
-- 
2.43.0


From d6058c30be88cc55478780fb7a2cdb47e57046a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:14 +0000
Subject: [PATCH 54/80] fix: remap tiff:Software

---
 models/tiff/model.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/models/tiff/model.go b/models/tiff/model.go
index 144bdce..7031969 100644
--- a/models/tiff/model.go
+++ b/models/tiff/model.go
@@ -165,6 +165,9 @@ func (x TiffInfo) SyncToXMP(d *xmp.Document) error {
 	if base.CreatorTool.IsZero() && x.Software != "" {
 		base.CreatorTool = xmp.AgentName(x.Software)
 	}
+	if base.CreatorTool.IsZero() && x.X_Software != "" {
+		base.CreatorTool = xmp.AgentName(x.X_Software)
+	}
 	return nil
 }
 
-- 
2.43.0


From ac1940d5686cffe2719bbbaee445987e5801c5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:45 +0000
Subject: [PATCH 55/80] fix: convert EXIF dates and artists both ways and keep
 present values

---
 models/exif/model.go | 109 ++++++++++++++++++++++++++++++-------------
 models/exif/types.go |  19 ++++++--
 2 files changed, 92 insertions(+), 36 deletions(-)

diff --git a/models/exif/model.go b/models/exif/model.go
index f1d5308..4f61d75 100644
--- a/models/exif/model.go
+++ b/models/exif/model.go
@@ -27,7 +27,6 @@ package exif
 
 import (
 	"fmt"
-	"strconv"
 	"strings"
 
 	"github.com/trimmer-io/go-xmp/models/dc"
@@ -267,7 +266,7 @@ func (x *ExifInfo) SyncFromXMP(d *xmp.Document) error {
 
 	if !x.DateTimeDigitizedXMP.IsZero() {
 		x.DateTimeDigitized = Date(x.DateTimeDigitizedXMP.Value())
-		x.SubSecTimeDigitized = strconv.Itoa(x.DateTimeDigitizedXMP.Value().Nanosecond())
+		x.SubSecTimeDigitized = subSeconds(x.DateTimeDigitizedXMP)
 	}
 
 	if len(x.ISOSpeedRatings) > 0 {
@@ -278,51 +277,97 @@ func (x *ExifInfo) SyncFromXMP(d *xmp.Document) error {
 	// convert GPS from XMP to exif values
 
 	if m := dc.FindModel(d); m != nil {
-		x.ArtistXMP = m.Creator
-		x.Artist = strings.Join(m.Creator, ",")
-		x.ImageDescriptionXMP = m.Description
-		x.ImageDescription = m.Description.Default()
-		x.CopyrightXMP = m.Rights
-		x.Copyright = m.Rights.Default()
+		if len(m.Creator) > 0 {
+			x.ArtistXMP = m.Creator
+			x.Artist = strings.Join(m.Creator, ";")
+		}
+		if len(m.Description) > 0 {
+			x.ImageDescriptionXMP = m.Description
+			x.ImageDescription = m.Description.Default()
+		}
+		if len(m.Rights) > 0 {
+			x.CopyrightXMP = m.Rights
+			x.Copyright = m.Rights.Default()
+		}
 	}
 	if base := xmpbase.FindModel(d); base != nil {
 		if !base.ModifyDate.IsZero() {
 			x.DateTimeXMP = base.ModifyDate
 			x.DateTime = Date(base.ModifyDate.Value())
-			x.SubSecTime = strconv.Itoa(base.ModifyDate.Value().Nanosecond())
+			x.SubSecTime = subSeconds(base.ModifyDate)
 		}
-		if base.CreatorTool.IsZero() {
+		if !base.CreatorTool.IsZero() {
 			x.SoftwareXMP = base.CreatorTool
 			x.Software = base.CreatorTool.String()
 		}
 	}
 	if tff := tiff.FindModel(d); tff != nil {
-		x.BitsPerSample = tff.BitsPerSample
-		x.Compression = tff.Compression
-		x.ImageLength = tff.ImageLength
-		x.ImageWidth = tff.ImageWidth
-		x.Make = tff.Make
-		x.Model = tff.Model
-		x.Orientation = tff.Orientation
-		x.PhotometricInterpretation = tff.PhotometricInterpretation
-		x.PlanarConfiguration = tff.PlanarConfiguration
-		x.PrimaryChromaticities = tff.PrimaryChromaticities
-		x.ReferenceBlackWhite = tff.ReferenceBlackWhite
-		x.ResolutionUnit = tff.ResolutionUnit
-		x.SamplesPerPixel = tff.SamplesPerPixel
-		x.TransferFunction = tff.TransferFunction
-		x.WhitePoint = tff.WhitePoint
-		x.XResolution = tff.XResolution
-		x.YCbCrCoefficients = tff.YCbCrCoefficients
-		x.YCbCrPositioning = tff.YCbCrPositioning
-		x.YCbCrSubSampling = tff.YCbCrSubSampling
-		x.YResolution = tff.YResolution
+		if len(tff.BitsPerSample) > 0 {
+			x.BitsPerSample = tff.BitsPerSample
+		}
+		if tff.Compression != 0 {
+			x.Compression = tff.Compression
+		}
+		if tff.ImageLength != 0 {
+			x.ImageLength = tff.ImageLength
+		}
+		if tff.ImageWidth != 0 {
+			x.ImageWidth = tff.ImageWidth
+		}
+		if tff.Make != "" {
+			x.Make = tff.Make
+		}
+		if tff.Model != "" {
+			x.Model = tff.Model
+		}
+		if tff.Orientation != 0 {
+			x.Orientation = tff.Orientation
+		}
+		if tff.PhotometricInterpretation != 0 {
+			x.PhotometricInterpretation = tff.PhotometricInterpretation
+		}
+		if tff.PlanarConfiguration != 0 {
+			x.PlanarConfiguration = tff.PlanarConfiguration
+		}
+		if len(tff.PrimaryChromaticities) > 0 {
+			x.PrimaryChromaticities = tff.PrimaryChromaticities
+		}
+		if len(tff.ReferenceBlackWhite) > 0 {
+			x.ReferenceBlackWhite = tff.ReferenceBlackWhite
+		}
+		if tff.ResolutionUnit != 0 {
+			x.ResolutionUnit = tff.ResolutionUnit
+		}
+		if tff.SamplesPerPixel != 0 {
+			x.SamplesPerPixel = tff.SamplesPerPixel
+		}
+		if len(tff.TransferFunction) > 0 {
+			x.TransferFunction = tff.TransferFunction
+		}
+		if len(tff.WhitePoint) > 0 {
+			x.WhitePoint = tff.WhitePoint
+		}
+		if !tff.XResolution.IsZero() {
+			x.XResolution = tff.XResolution
+		}
+		if len(tff.YCbCrCoefficients) > 0 {
+			x.YCbCrCoefficients = tff.YCbCrCoefficients
+		}
+		if tff.YCbCrPositioning != 0 {
+			x.YCbCrPositioning = tff.YCbCrPositioning
+		}
+		if len(tff.YCbCrSubSampling) > 0 {
+			x.YCbCrSubSampling = tff.YCbCrSubSampling
+		}
+		if !tff.YResolution.IsZero() {
+			x.YResolution = tff.YResolution
+		}
 	}
 	if m := ps.FindModel(d); m != nil {
 		if !m.DateCreated.IsZero() {
 			x.DateTimeOriginalXMP = m.DateCreated
 			x.DateTimeOriginal = Date(m.DateCreated.Value())
-			x.SubSecTimeOriginal = strconv.Itoa(m.DateCreated.Value().Nanosecond())
+			x.SubSecTimeOriginal = subSeconds(m.DateCreated)
 		}
 	}
 	return nil
@@ -339,7 +384,7 @@ func (x *ExifInfo) SyncToXMP(d *xmp.Document) error {
 	if !x.DateTime.IsZero() {
 		x.DateTimeXMP, _ = convertDateToXMP(x.DateTime, x.SubSecTime)
 	}
-	if x.Artist != "" {
+	if x.Artist != "" && x.Artist != strings.Join(x.ArtistXMP, ";") {
 		x.ArtistXMP = xmp.StringList(strings.Split(x.Artist, ";"))
 	}
 	if x.ImageDescription != "" && len(x.ImageDescriptionXMP) == 0 {
diff --git a/models/exif/types.go b/models/exif/types.go
index 4b1a5ff..1159a45 100644
--- a/models/exif/types.go
+++ b/models/exif/types.go
@@ -121,19 +121,30 @@ func convertDateToXMP(d Date, s string) (xmp.Date, error) {
 	}
 	xd := xmp.Date(d)
 	s = strings.TrimSpace(s)
-	if s != "" {
+	if s == "" {
 		return xd, nil
 	}
+	if len(s) > 9 {
+		s = s[:9]
+	}
 	if i, err := strconv.ParseInt(s, 10, 64); err != nil {
 		return xd, fmt.Errorf("exif: invalid subsecond format '%s': %v", s, err)
 	} else {
-		sec := d.Value().Unix()
-		nsec := i * int64(math.Pow10(9-len(s)))
-		xd = xmp.Date(time.Unix(sec, nsec))
+		t := d.Value()
+		nsec := i*int64(math.Pow10(9-len(s))) - int64(t.Nanosecond())
+		xd = xmp.Date(t.Add(time.Duration(nsec)))
 	}
 	return xd, nil
 }
 
+// subSeconds returns the digits after the decimal point of a date's seconds.
+func subSeconds(d xmp.Date) string {
+	if d.Value().Nanosecond() == 0 {
+		return ""
+	}
+	return strings.TrimRight(fmt.Sprintf("%09d", d.Value().Nanosecond()), "0")
+}
+
 type ComponentArray []Component
 
 func (x ComponentArray) String() string {
-- 
2.43.0


From 125258e57cb9228f22f8c81065c5cb240330dccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:45 +0000
Subject: [PATCH 56/80] fix: synchronize documents after reading

---
 xmp/json.go      | 1 +
 xmp/unmarshal.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/xmp/json.go b/xmp/json.go
index 262865f..de57a97 100644
--- a/xmp/json.go
+++ b/xmp/json.go
@@ -287,6 +287,7 @@ func (d *Document) UnmarshalJSON(data []byte) error {
 	d.intNsMap = dec.intNsMap
 	d.extNsMap = dec.extNsMap
 	d.goneNsMap = nil
+	d.SetDirty()
 	return d.syncFromXMP()
 }
 
diff --git a/xmp/unmarshal.go b/xmp/unmarshal.go
index 1d11826..404d674 100644
--- a/xmp/unmarshal.go
+++ b/xmp/unmarshal.go
@@ -148,6 +148,7 @@ func (d *Decoder) Decode(x *Document) error {
 	x.intNsMap = d.intNsMap
 	x.extNsMap = d.extNsMap
 	x.goneNsMap = nil
+	x.SetDirty()
 	return x.syncFromXMP()
 }
 
-- 
2.43.0


From a410b45a741a93323b6db2b9c2ebc3c9d8d9df91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:04 +0000
Subject: [PATCH 57/80] fix: keep standard values without a native value

---
 models/id3/model.go  | 10 +++++-----
 models/ixml/model.go | 32 ++++++++++++++++++++++++--------
 2 files changed, 29 insertions(+), 13 deletions(-)

diff --git a/models/id3/model.go b/models/id3/model.go
index 9aebeb7..32428d8 100644
--- a/models/id3/model.go
+++ b/models/id3/model.go
@@ -118,8 +118,6 @@ func (x *ID3) SyncFromXMP(d *xmp.Document) error {
 		}
 		if dm.PartOfCompilation.Value() {
 			x.IsCompilation = True
-		} else {
-			x.IsCompilation = False
 		}
 		if dm.Composer != "" {
 			x.Composer = dm.Composer
@@ -186,7 +184,9 @@ func (x ID3) SyncToXMP(d *xmp.Document) error {
 	if x.AlbumTitle != "" {
 		dm.Album = x.AlbumTitle
 	}
-	dm.PartOfCompilation = xmp.Bool(x.IsCompilation.Value())
+	if x.IsCompilation.Value() {
+		dm.PartOfCompilation = xmp.True
+	}
 	if x.Composer != "" {
 		dm.Composer = x.Composer
 	}
@@ -199,10 +199,10 @@ func (x ID3) SyncToXMP(d *xmp.Document) error {
 	if x.ModifiedBy != "" {
 		dm.Engineer = x.ModifiedBy
 	}
-	if !x.PartOfASet.IsZero() {
+	if x.PartOfASet.Track > 0 {
 		dm.DiscNumber = x.PartOfASet.Track
 	}
-	if !x.TrackNumber.IsZero() {
+	if x.TrackNumber.Track > 0 {
 		dm.TrackNumber = x.TrackNumber.Track
 	}
 	if len(x.UnsynchronizedLyrics) > 0 {
diff --git a/models/ixml/model.go b/models/ixml/model.go
index 99a73f2..09c459b 100644
--- a/models/ixml/model.go
+++ b/models/ixml/model.go
@@ -115,15 +115,31 @@ func (x *IXML) SyncToXMP(d *xmp.Document) error {
 	if err != nil {
 		return err
 	}
-	dm.TapeName = x.SoundRoll
-	dm.Scene = x.SceneName
-	dm.TrackNumber = x.Take
-	dm.LogComment = x.Note
-	dm.ProjectName = x.Project
-	dm.Good = xmp.Bool(x.IsCircled.Value())
+	if x.SoundRoll != "" {
+		dm.TapeName = x.SoundRoll
+	}
+	if x.SceneName != "" {
+		dm.Scene = x.SceneName
+	}
+	if x.Take != 0 {
+		dm.TrackNumber = x.Take
+	}
+	if x.Note != "" {
+		dm.LogComment = x.Note
+	}
+	if x.Project != "" {
+		dm.ProjectName = x.Project
+	}
+	if x.IsCircled.Value() {
+		dm.Good = xmp.True
+	}
 	if x.Speed != nil {
-		dm.StartTimecode = x.Speed.XmpTimecode()
-		dm.AudioSampleRate = x.Speed.FileSampleRate.Value()
+		if tc := x.Speed.XmpTimecode(); !tc.IsZero() {
+			dm.StartTimecode = tc
+		}
+		if rate := x.Speed.FileSampleRate.Value(); rate != 0 {
+			dm.AudioSampleRate = rate
+		}
 	}
 	return nil
 }
-- 
2.43.0


From 2686826fb4b9cb8073e969792eb6a9be48ce8c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:04 +0000
Subject: [PATCH 58/80] fix: count frames of iXML timecodes

---
 models/ixml/types.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/models/ixml/types.go b/models/ixml/types.go
index 8f1a769..f476274 100644
--- a/models/ixml/types.go
+++ b/models/ixml/types.go
@@ -158,7 +158,10 @@ func (x Speed) XmpTimecode() xmpdm.Timecode {
 	h := sec / 3600
 	m := (sec - h*3600) / 60
 	s := sec - h*3600 - m*60
-	f := int((samples % rate) * x.TimecodeRate.Num / rate / 1000)
+	var f int
+	if x.TimecodeRate.Den != 0 {
+		f = int((samples % rate) * x.TimecodeRate.Num / x.TimecodeRate.Den / rate)
+	}
 	isDrop := x.TimecodeFlag == TimecodeFlagDF
 	return xmpdm.Timecode{
 		Format:      xmpdm.ParseTimecodeFormat(x.TimecodeRate.Value(), isDrop),
-- 
2.43.0


From e75ab2a4590fb3e654f9fd0468a1e034c0e1fd15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:57 +0000
Subject: [PATCH 59/80] fix: ignore an absent iXML sample rate

---
 models/ixml/model.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/models/ixml/model.go b/models/ixml/model.go
index 09c459b..332296b 100644
--- a/models/ixml/model.go
+++ b/models/ixml/model.go
@@ -137,8 +137,8 @@ func (x *IXML) SyncToXMP(d *xmp.Document) error {
 		if tc := x.Speed.XmpTimecode(); !tc.IsZero() {
 			dm.StartTimecode = tc
 		}
-		if rate := x.Speed.FileSampleRate.Value(); rate != 0 {
-			dm.AudioSampleRate = rate
+		if rate := x.Speed.FileSampleRate; rate.Num != 0 && rate.Den != 0 {
+			dm.AudioSampleRate = rate.Value()
 		}
 	}
 	return nil
-- 
2.43.0


From 74f025012bdc34879596055b22d7aca1a52d80eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:37 +0000
Subject: [PATCH 60/80] fix: a refused native tag changes nothing

---
 xmp/native.go | 165 ++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 118 insertions(+), 47 deletions(-)

diff --git a/xmp/native.go b/xmp/native.go
index b5471c7..db1ce6f 100644
--- a/xmp/native.go
+++ b/xmp/native.go
@@ -149,6 +149,15 @@ func GetNativeField(v Model, name string) (string, error) {
 		return "", nil
 	}
 
+	if finfo.flags&fAny > 0 {
+		for _, v := range fv.Interface().(TagList) {
+			if v.Key == name {
+				return v.Value, nil
+			}
+		}
+		return "", nil
+	}
+
 	if finfo.flags&fEmpty == 0 && isEmptyValue(fv) {
 		return "", nil
 	}
@@ -156,8 +165,45 @@ func GetNativeField(v Model, name string) (string, error) {
 	return nativeText(derefValue(fv))
 }
 
-// nativeText returns the text of a native tag. Simple values and values with a
-// text marshaler are just fine, any other type (slice, array, struct) fails.
+// CanNativeField returns true when the model accepts a text for the tag.
+func CanNativeField(v Model, name string) bool {
+	nsName, err := getNamespaceName(v)
+	if err != nil {
+		return false
+	}
+	val := derefIndirect(v)
+	finfo, err := findField(val, name, nsName)
+	if err != nil {
+		return false
+	}
+	return finfo.flags&fAny > 0 || hasNativeText(val.Type().FieldByIndex(finfo.idx).Type)
+}
+
+// hasNativeText returns true for types that can be set from text.
+func hasNativeText(t reflect.Type) bool {
+	if t.Kind() == reflect.Ptr {
+		t = t.Elem()
+	}
+	p := reflect.PtrTo(t)
+	switch {
+	case p.Implements(binaryUnmarshalerType), p.Implements(textUnmarshalerType), isPathAlt(t):
+		return true
+	}
+	switch t.Kind() {
+	case reflect.Bool, reflect.String,
+		reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
+		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr,
+		reflect.Float32, reflect.Float64:
+		return true
+	case reflect.Slice:
+		return t.Elem().Kind() == reflect.Uint8
+	}
+	return false
+}
+
+// nativeText returns the text of a native tag. Simple values, values with a
+// text marshaler and language alternatives (the default) are just fine, any
+// other type (slice, array, struct) fails.
 func nativeText(fv reflect.Value) (string, error) {
 	if fv.CanAddr() && fv.Addr().Type().Implements(textMarshalerType) {
 		b, err := fv.Addr().Interface().(encoding.TextMarshaler).MarshalText()
@@ -167,6 +213,9 @@ func nativeText(fv reflect.Value) (string, error) {
 		b, err := fv.Interface().(encoding.TextMarshaler).MarshalText()
 		return string(b), err
 	}
+	if isPathAlt(fv.Type()) {
+		return fv.Convert(altStringType).Interface().(AltString).Default(), nil
+	}
 	s, b, err := marshalSimple(fv.Type(), fv)
 	if b != nil {
 		s = string(b)
@@ -188,35 +237,56 @@ func SetNativeField(v Model, name, value string) error {
 
 	f := finfo.value(val)
 
-	// allocate memory for pointer values in structs
-	if f.Type().Kind() == reflect.Ptr && f.IsNil() && f.CanSet() {
-		f.Set(reflect.New(f.Type().Elem()))
+	if finfo.flags&fAny > 0 {
+		return setNativeTag(f.Addr().Interface().(*TagList), name, value)
 	}
 
-	// load and potentially create value
-	f = derefValue(f)
-
-	// try unmarshalers
-	if f.CanAddr() {
-		pv := f.Addr()
-		if pv.CanInterface() && (finfo != nil && finfo.flags&fBinaryUnmarshal > 0 || pv.Type().Implements(binaryUnmarshalerType)) {
-			return pv.Interface().(encoding.BinaryUnmarshaler).UnmarshalBinary([]byte(value))
-		}
+	// use a new value so that a refused text changes nothing
+	x := reflect.New(f.Type()).Elem()
+	if err := setNativeValue(derefValue(x), f, value); err != nil {
+		return err
 	}
+	f.Set(x)
+	return nil
+}
 
-	if f.CanInterface() && (finfo != nil && finfo.flags&fBinaryUnmarshal > 0 || f.Type().Implements(binaryUnmarshalerType)) {
-		return f.Interface().(encoding.BinaryUnmarshaler).UnmarshalBinary([]byte(value))
+// setNativeTag keeps the text of a tag without a field.
+func setNativeTag(x *TagList, name, value string) error {
+	if name == "" {
+		return fmt.Errorf("empty tag name")
 	}
-
-	if f.CanAddr() {
-		pv := f.Addr()
-		if pv.CanInterface() && (finfo != nil && finfo.flags&fTextUnmarshal > 0 || pv.Type().Implements(textUnmarshalerType)) {
-			return pv.Interface().(encoding.TextUnmarshaler).UnmarshalText([]byte(value))
+	l := make(TagList, 0, len(*x)+1)
+	for _, v := range *x {
+		if v.Key != name {
+			l = append(l, v)
 		}
 	}
+	if value != "" {
+		l = append(l, Tag{Key: name, Value: value})
+	}
+	*x = l
+	return nil
+}
 
-	if f.CanInterface() && (finfo != nil && finfo.flags&fTextUnmarshal > 0 || f.Type().Implements(textUnmarshalerType)) {
-		return f.Interface().(encoding.TextUnmarshaler).UnmarshalText([]byte(value))
+// setNativeValue sets f from text, old is the value it replaces.
+func setNativeValue(f, old reflect.Value, value string) error {
+	switch u := f.Addr().Interface().(type) {
+	case encoding.BinaryUnmarshaler:
+		return u.UnmarshalBinary([]byte(value))
+	case encoding.TextUnmarshaler:
+		return u.UnmarshalText([]byte(value))
+	}
+
+	// set the default of language alternatives, keep other languages
+	if isPathAlt(f.Type()) {
+		old = reflect.Indirect(old)
+		a := AltString{}
+		if old.IsValid() {
+			a = append(a, old.Convert(altStringType).Interface().(AltString)...)
+		}
+		a.Set("", value)
+		f.Set(reflect.ValueOf(a).Convert(f.Type()))
+		return nil
 	}
 
 	// otherwise set simple field value directly or fail
@@ -236,27 +306,21 @@ func SetLocaleField(v Model, lang string, name, value string) error {
 	}
 
 	f := finfo.value(val)
-
-	// allocate memory for pointer values in structs
-	if f.Type().Kind() == reflect.Ptr && f.IsNil() && f.CanSet() {
-		f.Set(reflect.New(f.Type().Elem()))
+	typ := f.Type()
+	if typ.Kind() == reflect.Ptr {
+		typ = typ.Elem()
+	}
+	if finfo.flags&fAny > 0 || !isPathAlt(typ) {
+		return fmt.Errorf("field '%s' must be of type xmp.AltString, found type '%s' kind '%s'", name, typ.String(), typ.Kind())
 	}
 
 	// load and potentially create value
 	f = derefValue(f)
 
-	if f.Kind() != reflect.Slice || f.Type().Elem() != reflect.TypeOf(AltItem{}) {
-		return fmt.Errorf("field '%s' must be of type xmp.AltString, found type '%s' kind '%s'", name, f.Type().String(), f.Kind())
-	}
-
-	// we need a pointer to AltString slices for appending
-	a, ok := f.Addr().Interface().(*AltString)
-	if !ok {
-		return fmt.Errorf("field '%s' must be of type xmp.AltString", name)
-	}
-
 	// use AltString interface to add value
+	a := f.Convert(altStringType).Interface().(AltString)
 	a.Set(lang, value)
+	f.Set(reflect.ValueOf(a).Convert(typ))
 	return nil
 }
 
@@ -272,19 +336,17 @@ func GetLocaleField(v Model, lang string, name string) (string, error) {
 		return "", err
 	}
 
-	f := finfo.value(val)
-
-	if f.Kind() != reflect.Slice || f.Type().Elem() != reflect.TypeOf(AltItem{}) {
-		return "", fmt.Errorf("field '%s' must be of type AltString, found %s (%s)", name, f.Type().String(), f.Kind())
+	f := reflect.Indirect(finfo.value(val))
+	if !f.IsValid() {
+		return "", nil
 	}
 
-	a, ok := f.Interface().(AltString)
-	if !ok {
-		return "", fmt.Errorf("field '%s' must be of type AltString", name)
+	if finfo.flags&fAny > 0 || !isPathAlt(f.Type()) {
+		return "", fmt.Errorf("field '%s' must be of type AltString, found %s (%s)", name, f.Type().String(), f.Kind())
 	}
 
 	// use AltString interface to get value
-	return a.Get(lang), nil
+	return f.Convert(altStringType).Interface().(AltString).Get(lang), nil
 }
 
 func ListNativeFields(v Model) (TagList, error) {
@@ -319,6 +381,12 @@ func ListNativeFields(v Model) (TagList, error) {
 			continue
 		}
 
+		// list tags without a field
+		if l, ok := fv.Interface().(TagList); ok && finfo.flags&fAny > 0 {
+			tagList = append(tagList, l...)
+			continue
+		}
+
 		fv = derefValue(fv)
 
 		// handle multi-language arrays
@@ -358,9 +426,12 @@ func findField(val reflect.Value, name, ns string) (*fieldInfo, error) {
 		// 	continue
 		// }
 
-		// save `any` field in case
+		// save `any` field in case, it has no name of its own
 		if v.flags&fAny > 0 {
-			any = i
+			if typ.FieldByIndex(v.idx).Type == tagListType {
+				any = i
+			}
+			continue
 		}
 
 		// field name must match
-- 
2.43.0


From 40ad13dfdd59e00d3eb8d9f6573e1f5e1a79d8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:37 +0000
Subject: [PATCH 61/80] fix: ID3 texts of older tags and languages

---
 models/id3/model.go |  11 +++--
 models/id3/types.go | 100 --------------------------------------------
 2 files changed, 7 insertions(+), 104 deletions(-)

diff --git a/models/id3/model.go b/models/id3/model.go
index 32428d8..9ab8f1b 100644
--- a/models/id3/model.go
+++ b/models/id3/model.go
@@ -360,7 +360,7 @@ var V22_TO_V24_TAGS map[string]string = map[string]string{
 	"TAL": "TALB", //   Album/Movie/Show title
 	"TBP": "TBPM", //   BPM (Beats Per Minute)
 	"TCM": "TCOM", //   Composer
-	"TCO": "TMED", //   Content type
+	"TCO": "TCON", //   Content type
 	"TCR": "TCOP", //   Copyright message
 	"TDA": "TDRC", // # Date, arguably this could also be release date TDRL
 	"TDY": "TDLY", //   Playlist delay
@@ -433,8 +433,7 @@ func (x *ID3) CanTag(tag string) bool {
 	if err != nil {
 		return false
 	}
-	_, err = xmp.GetNativeField(x, t)
-	return err == nil
+	return xmp.CanNativeField(x, t)
 }
 
 func (x *ID3) GetTag(tag string) (string, error) {
@@ -475,7 +474,11 @@ func (x *ID3) GetLocaleTag(lang string, tag string) (string, error) {
 }
 
 func (x *ID3) SetLocaleTag(lang string, tag, value string) error {
-	if err := xmp.SetLocaleField(x, lang, tag, value); err != nil {
+	t, err := mapTagToV24(tag)
+	if err != nil {
+		return err
+	}
+	if err := xmp.SetLocaleField(x, lang, t, value); err != nil {
 		return fmt.Errorf("%s: %v", NsID3.GetName(), err)
 	}
 	return nil
diff --git a/models/id3/types.go b/models/id3/types.go
index 33847b4..20d9496 100644
--- a/models/id3/types.go
+++ b/models/id3/types.go
@@ -226,11 +226,6 @@ type Owner struct {
 	Seller       string   `xmp:"id3:seller"`
 }
 
-func (x *Owner) UnmarshalText(data []byte) error {
-	// TODO: need samples
-	return nil
-}
-
 // ETCO
 type Marker struct {
 	MarkerType MarkerType `xmp:"id3:type,attr"`
@@ -240,11 +235,6 @@ type Marker struct {
 
 type MarkerList []Marker
 
-func (x *MarkerList) UnmarshalText(data []byte) error {
-	// TODO: need samples
-	return nil
-}
-
 func (x MarkerList) Typ() xmp.ArrayType {
 	return xmp.ArrayTypeOrdered
 }
@@ -288,11 +278,6 @@ func (x *TimedLyricsArray) UnmarshalXMP(d *xmp.Decoder, node *xmp.Node, m xmp.Mo
 //    " night" $00 xx xx 0A "Ex" $00 xx xx "chang" $00 xx xx "ing" $00 xx
 //    xx "glan" $00 xx xx "ces" $00 xx xx
 //
-func (x *TimedLyricsArray) UnmarshalText(data []byte) error {
-	// TODO: need samples
-	return nil
-}
-
 type TimedText struct {
 	Text      string `xmp:"id3:text,attr"`
 	Timestamp int64  `xmp:"id3:timestamp,attr"`
@@ -353,11 +338,6 @@ type VolumeAdjust struct {
 
 type VolumeAdjustArray []VolumeAdjust
 
-func (x *VolumeAdjustArray) UnmarshalText(data []byte) error {
-	// TODO: need samples
-	return nil
-}
-
 func (x VolumeAdjustArray) Typ() xmp.ArrayType {
 	return xmp.ArrayTypeUnordered
 }
@@ -380,11 +360,6 @@ type Equalization struct {
 
 type EqualizationList []Equalization
 
-func (x *EqualizationList) UnmarshalText(data []byte) error {
-	// TODO: need samples
-	return nil
-}
-
 func (x EqualizationList) Typ() xmp.ArrayType {
 	return xmp.ArrayTypeUnordered
 }
@@ -430,11 +405,6 @@ type Reverb struct {
 	PremixRtoL         byte `xmp:"id3:premixRtoL"`
 }
 
-func (x *Reverb) UnmarshalText(data []byte) error {
-	// TODO: need samples
-	return nil
-}
-
 // APIC
 //
 type AttachedPicture struct {
@@ -446,11 +416,6 @@ type AttachedPicture struct {
 
 type AttachedPictureArray []AttachedPicture
 
-func (x *AttachedPictureArray) UnmarshalText(data []byte) error {
-	// TODO: need samples
-	return nil
-}
-
 func (x AttachedPictureArray) Typ() xmp.ArrayType {
 	return xmp.ArrayTypeUnordered
 }
@@ -474,11 +439,6 @@ type EncapsulatedObject struct {
 
 type EncapsulatedObjectArray []EncapsulatedObject
 
-func (x *EncapsulatedObjectArray) UnmarshalText(data []byte) error {
-	// TODO: need samples
-	return nil
-}
-
 func (x EncapsulatedObjectArray) Typ() xmp.ArrayType {
 	return xmp.ArrayTypeUnordered
 }
@@ -501,11 +461,6 @@ type Popularimeter struct {
 
 type PopularimeterArray []Popularimeter
 
-func (x *PopularimeterArray) UnmarshalText(data []byte) error {
-	// TODO: need samples
-	return nil
-}
-
 func (x PopularimeterArray) Typ() xmp.ArrayType {
 	return xmp.ArrayTypeUnordered
 }
@@ -526,11 +481,6 @@ type BufferSize struct {
 	NextOffset int64 `xmp:"id3:next,attr"`
 }
 
-func (x *BufferSize) UnmarshalText(data []byte) error {
-	// TODO: need samples
-	return nil
-}
-
 // AENC
 //
 type AudioEncryption struct {
@@ -540,11 +490,6 @@ type AudioEncryption struct {
 	EncryptionInfo []byte `xmp:"id3:encryptionInfo"`
 }
 
-func (x *AudioEncryption) UnmarshalText(data []byte) error {
-	// TODO: need samples
-	return nil
-}
-
 // LINK
 //
 type Link struct {
@@ -555,11 +500,6 @@ type Link struct {
 
 type LinkArray []Link
 
-func (x *LinkArray) UnmarshalText(data []byte) error {
-	// TODO: need samples
-	return nil
-}
-
 func (x LinkArray) Typ() xmp.ArrayType {
 	return xmp.ArrayTypeUnordered
 }
@@ -592,11 +532,6 @@ type Commercial struct {
 	LogoImage    []byte         `xmp:"id3:logoImage"`
 }
 
-func (x *Commercial) UnmarshalText(data []byte) error {
-	// TODO: need samples
-	return nil
-}
-
 type Price struct {
 	Currency string
 	Amount   float32
@@ -626,11 +561,6 @@ type EncryptionMethod struct {
 
 type EncryptionMethodArray []EncryptionMethod
 
-func (x *EncryptionMethodArray) UnmarshalText(data []byte) error {
-	// TODO: need samples
-	return nil
-}
-
 func (x EncryptionMethodArray) Typ() xmp.ArrayType {
 	return xmp.ArrayTypeUnordered
 }
@@ -653,11 +583,6 @@ type Group struct {
 
 type GroupArray []Group
 
-func (x *GroupArray) UnmarshalText(data []byte) error {
-	// TODO: need samples
-	return nil
-}
-
 func (x GroupArray) Typ() xmp.ArrayType {
 	return xmp.ArrayTypeUnordered
 }
@@ -679,11 +604,6 @@ type PrivateData struct {
 
 type PrivateDataArray []PrivateData
 
-func (x *PrivateDataArray) UnmarshalText(data []byte) error {
-	// TODO: need samples
-	return nil
-}
-
 func (x PrivateDataArray) Typ() xmp.ArrayType {
 	return xmp.ArrayTypeUnordered
 }
@@ -705,11 +625,6 @@ type Signature struct {
 
 type SignatureArray []Signature
 
-func (x *SignatureArray) UnmarshalText(data []byte) error {
-	// TODO: need samples
-	return nil
-}
-
 func (x SignatureArray) Typ() xmp.ArrayType {
 	return xmp.ArrayTypeUnordered
 }
@@ -732,22 +647,12 @@ type AudioSeekIndex struct {
 	Points         xmp.IntList `xmp:"id3:points"`
 }
 
-func (x *AudioSeekIndex) UnmarshalText(data []byte) error {
-	// TODO: need samples
-	return nil
-}
-
 // CHAP
 //
 type Chapter xmpdm.Marker
 
 type ChapterList []Chapter
 
-func (x *ChapterList) UnmarshalText(data []byte) error {
-	// TODO: need samples
-	return nil
-}
-
 func (x ChapterList) Typ() xmp.ArrayType {
 	return xmp.ArrayTypeOrdered
 }
@@ -770,11 +675,6 @@ type TocEntry struct {
 
 type TocEntryList []TocEntry
 
-func (x *TocEntryList) UnmarshalText(data []byte) error {
-	// TODO: need samples
-	return nil
-}
-
 func (x TocEntryList) Typ() xmp.ArrayType {
 	return xmp.ArrayTypeOrdered
 }
-- 
2.43.0


From 6907d257fed56a360636bceb2d3b77a3586264d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:37 +0000
Subject: [PATCH 62/80] fix: EXIF tag names keep their case

---
 models/exif/model.go | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/models/exif/model.go b/models/exif/model.go
index 4f61d75..658b038 100644
--- a/models/exif/model.go
+++ b/models/exif/model.go
@@ -420,14 +420,20 @@ func (x *ExifInfo) SyncToXMP(d *xmp.Document) error {
 	return nil
 }
 
+// nativeTag converts tag numbers to the lower case form used in struct tags.
+func nativeTag(tag string) string {
+	if t := strings.ToLower(tag); strings.HasPrefix(t, "0x") {
+		return t
+	}
+	return tag
+}
+
 func (x *ExifInfo) CanTag(tag string) bool {
-	_, err := xmp.GetNativeField(x, tag)
-	return err == nil
+	return xmp.CanNativeField(x, nativeTag(tag))
 }
 
 func (x *ExifInfo) GetTag(tag string) (string, error) {
-	tag = strings.ToLower(tag)
-	if v, err := xmp.GetNativeField(x, tag); err != nil {
+	if v, err := xmp.GetNativeField(x, nativeTag(tag)); err != nil {
 		return "", fmt.Errorf("exif: %v", err)
 	} else {
 		return v, nil
@@ -435,16 +441,14 @@ func (x *ExifInfo) GetTag(tag string) (string, error) {
 }
 
 func (x *ExifInfo) SetTag(tag, value string) error {
-	tag = strings.ToLower(tag)
-	if err := xmp.SetNativeField(x, tag, value); err != nil {
+	if err := xmp.SetNativeField(x, nativeTag(tag), value); err != nil {
 		return fmt.Errorf("exif: %v", err)
 	}
 	return nil
 }
 
 func (x *ExifInfo) GetLocaleTag(lang string, tag string) (string, error) {
-	tag = strings.ToLower(tag)
-	if val, err := xmp.GetLocaleField(x, lang, tag); err != nil {
+	if val, err := xmp.GetLocaleField(x, lang, nativeTag(tag)); err != nil {
 		return "", fmt.Errorf("exif: %v", err)
 	} else {
 		return val, nil
@@ -452,8 +456,7 @@ func (x *ExifInfo) GetLocaleTag(lang string, tag string) (string, error) {
 }
 
 func (x *ExifInfo) SetLocaleTag(lang string, tag, value string) error {
-	tag = strings.ToLower(tag)
-	if err := xmp.SetLocaleField(x, lang, tag, value); err != nil {
+	if err := xmp.SetLocaleField(x, lang, nativeTag(tag), value); err != nil {
 		return fmt.Errorf("exif: %v", err)
 	}
 	return nil
@@ -502,8 +505,7 @@ func (x ExifEXInfo) SyncToXMP(d *xmp.Document) error {
 }
 
 func (x *ExifEXInfo) CanTag(tag string) bool {
-	_, err := xmp.GetNativeField(x, tag)
-	return err == nil
+	return xmp.CanNativeField(x, tag)
 }
 
 func (x *ExifEXInfo) GetTag(tag string) (string, error) {
@@ -569,8 +571,7 @@ func (x ExifAuxInfo) SyncToXMP(d *xmp.Document) error {
 }
 
 func (x *ExifAuxInfo) CanTag(tag string) bool {
-	_, err := xmp.GetNativeField(x, tag)
-	return err == nil
+	return xmp.CanNativeField(x, tag)
 }
 
 func (x *ExifAuxInfo) GetTag(tag string) (string, error) {
-- 
2.43.0


From f053641239b6e8d4f28d2ab24986e1fafd437264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:37 +0000
Subject: [PATCH 63/80] fix: RIFF tags are unique

---
 models/riff/model.go | 7 +++----
 models/riff/types.go | 4 ++++
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/models/riff/model.go b/models/riff/model.go
index be92ac1..8c2381d 100644
--- a/models/riff/model.go
+++ b/models/riff/model.go
@@ -79,7 +79,7 @@ type RiffInfo struct {
 	SoundSchemeTitle    string `riffinfo:"DISP" xmp:"riffinfo:SoundSchemeTitle"`
 	DateTimeOriginal    string `riffinfo:"DTIM" xmp:"riffinfo:DateTimeOriginal"`
 	Genre2              string `riffinfo:"GENR" xmp:"riffinfo:Genre"`
-	ArchivalLocation    string `riffinfo:"IARL" xmp:"riffinfo:ArchivalLocation"`
+	ArchivalLocation    string `riffinfo:"-" xmp:"riffinfo:ArchivalLocation"`
 	FirstLanguage       string `riffinfo:"IAS1" xmp:"riffinfo:FirstLanguage"`
 	SecondLanguage      string `riffinfo:"IAS2" xmp:"riffinfo:SecondLanguage"`
 	ThirdLanguage       string `riffinfo:"IAS3" xmp:"riffinfo:ThirdLanguage"`
@@ -92,7 +92,7 @@ type RiffInfo struct {
 	BaseURL             string `riffinfo:"IBSU" xmp:"riffinfo:BaseURL"`
 	DefaultAudioStream  string `riffinfo:"ICAS" xmp:"riffinfo:DefaultAudioStream"`
 	CostumeDesigner     string `riffinfo:"ICDS" xmp:"riffinfo:CostumeDesigner"`
-	Commissioned        string `riffinfo:"ICMS" xmp:"riffinfo:Commissioned"`
+	Commissioned        string `riffinfo:"-" xmp:"riffinfo:Commissioned"`
 	Cinematographer     string `riffinfo:"ICNM" xmp:"riffinfo:Cinematographer"`
 	Country             string `riffinfo:"ICNT" xmp:"riffinfo:Country"`
 	Cropped             string `riffinfo:"ICRP" xmp:"riffinfo:Cropped"`
@@ -224,8 +224,7 @@ func (x *RiffInfo) SyncToXMP(d *xmp.Document) error {
 }
 
 func (x *RiffInfo) CanTag(tag string) bool {
-	_, err := xmp.GetNativeField(x, tag)
-	return err == nil
+	return xmp.CanNativeField(x, tag)
 }
 
 func (x *RiffInfo) GetTag(tag string) (string, error) {
diff --git a/models/riff/types.go b/models/riff/types.go
index 168d471..adf89eb 100644
--- a/models/riff/types.go
+++ b/models/riff/types.go
@@ -30,6 +30,10 @@ func (x *StringArray) UnmarshalText(data []byte) error {
 	return nil
 }
 
+func (x StringArray) MarshalText() ([]byte, error) {
+	return []byte(strings.Join(x, "; ")), nil
+}
+
 func (x StringArray) MarshalXMP(e *xmp.Encoder, node *xmp.Node, m xmp.Model) error {
 	return xmp.MarshalArray(e, node, x.Typ(), x)
 }
-- 
2.43.0


From e3594361da9c1c95599bdf5027ab2f6c5f040f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:37 +0000
Subject: [PATCH 64/80] fix: QuickTime tags are found by prefix

---
 models/qt/model.go       | 176 ++++++++++++++++++++++-----------------
 models/qt/qt_metadata.go |   3 +-
 models/qt/qt_player.go   |   3 +-
 models/qt/qt_proapps.go  |   3 +-
 models/qt/qt_userdata.go |   3 +-
 5 files changed, 103 insertions(+), 85 deletions(-)

diff --git a/models/qt/model.go b/models/qt/model.go
index 76ebc1b..817061e 100644
--- a/models/qt/model.go
+++ b/models/qt/model.go
@@ -173,100 +173,69 @@ func (x QtInfo) SyncToXMP(d *xmp.Document) error {
 	return nil
 }
 
+// isIXMLTag returns true for tags which contain an iXML document.
+func isIXMLTag(tag string) bool {
+	return tag == "iXML" || tag == "info.ixml.xml" || tag == "info.ixml.metadata" || tag == "info.ixml.info"
+}
+
 func (x *QtInfo) CanTag(tag string) bool {
 	switch {
-	case len(tag) == 4:
-		v := &QtUserdata{}
-		_, err := xmp.GetNativeField(v, tag)
-		return err == nil
-	case strings.HasPrefix("com.apple.quicktime.player", tag):
-		v := &QtPlayer{}
-		return v.CanTag(tag)
-	case strings.HasPrefix("com.apple.quicktime", tag):
-		v := &QtMetadata{}
-		return v.CanTag(tag)
-	case strings.HasPrefix("com.apple.proapps", tag):
-		v := &QtProApps{}
-		return v.CanTag(tag)
-	case tag == "XMP_" || tag == "iXML" || tag == "info.ixml.xml" || tag == "info.ixml.metadata" || tag == "info.ixml.info":
+	case tag == "XMP_" || isIXMLTag(tag):
 		return true
+	case len(tag) == 4:
+		return xmp.CanNativeField(&QtUserdata{}, tag)
+	case strings.HasPrefix(tag, "com.apple.quicktime.player"):
+		return xmp.CanNativeField(&QtPlayer{}, tag)
+	case strings.HasPrefix(tag, "com.apple.quicktime"):
+		return xmp.CanNativeField(&QtMetadata{}, tag)
+	case strings.HasPrefix(tag, "com.apple.proapps"):
+		return xmp.CanNativeField(&QtProApps{}, tag)
 	}
-	return false
+	return xmp.CanNativeField(x, tag)
 }
 
 func (x *QtInfo) GetTag(tag string) (string, error) {
+	m := xmp.Model(x)
 	switch {
-	case len(tag) == 4:
-		if x.Udta == nil {
+	case tag == "XMP_":
+		if x.XMP == nil {
 			return "", nil
 		}
-		if v, err := xmp.GetNativeField(x.Udta, tag); err != nil {
-			return "", fmt.Errorf("%s: %v", NsQuicktime.GetName(), err)
-		} else {
-			return v, nil
-		}
-	case strings.HasPrefix(tag, "com.apple.quicktime.player"):
-		if x.Player == nil {
+		v, err := xmp.Marshal(x.XMP)
+		return string(v), err
+	case isIXMLTag(tag):
+		if x.IXML == nil {
 			return "", nil
 		}
-		if v, err := xmp.GetNativeField(x.Player, tag); err != nil {
-			return "", fmt.Errorf("%s: %v", NsQuicktime.GetName(), err)
-		} else {
-			return v, nil
+		return "", fmt.Errorf("%s: tag '%s' has no text form", NsQuicktime.GetName(), tag)
+	case len(tag) == 4:
+		if m = x.Udta; x.Udta == nil {
+			m = &QtUserdata{}
 		}
-	case strings.HasPrefix(tag, "com.apple.quicktime"):
-		if x.Mdta == nil {
-			return "", nil
+	case strings.HasPrefix(tag, "com.apple.quicktime.player"):
+		if m = x.Player; x.Player == nil {
+			m = &QtPlayer{}
 		}
-		if v, err := xmp.GetNativeField(x.Mdta, tag); err != nil {
-			return "", fmt.Errorf("%s: %v", NsQuicktime.GetName(), err)
-		} else {
-			return v, nil
+	case strings.HasPrefix(tag, "com.apple.quicktime"):
+		if m = x.Mdta; x.Mdta == nil {
+			m = &QtMetadata{}
 		}
 	case strings.HasPrefix(tag, "com.apple.proapps"):
-		if x.ProApps == nil {
-			return "", nil
-		}
-		if v, err := xmp.GetNativeField(x.ProApps, tag); err != nil {
-			return "", fmt.Errorf("%s: %v", NsQuicktime.GetName(), err)
-		} else {
-			return v, nil
+		if m = x.ProApps; x.ProApps == nil {
+			m = &QtProApps{}
 		}
 	}
-	return "", nil
+	if v, err := xmp.GetNativeField(m, tag); err != nil {
+		return "", fmt.Errorf("%s: %v", NsQuicktime.GetName(), err)
+	} else {
+		return v, nil
+	}
 }
 
 func (x *QtInfo) SetTag(tag, value string) error {
+	var err error
 	switch {
-	case len(tag) == 4:
-		if x.Udta == nil {
-			x.Udta = &QtUserdata{}
-		}
-		if err := xmp.SetNativeField(x.Udta, tag, value); err != nil {
-			return fmt.Errorf("%s: %v", NsQuicktime.GetName(), err)
-		}
-	case strings.HasPrefix(tag, "com.apple.quicktime.player"):
-		if x.Player == nil {
-			x.Player = &QtPlayer{}
-		}
-		if err := xmp.SetNativeField(x.Player, tag, value); err != nil {
-			return fmt.Errorf("%s: %v", NsQuicktime.GetName(), err)
-		}
-	case strings.HasPrefix(tag, "com.apple.quicktime"):
-		if x.Mdta == nil {
-			x.Mdta = &QtMetadata{}
-		}
-		if err := xmp.SetNativeField(x.Mdta, tag, value); err != nil {
-			return fmt.Errorf("%s: %v", NsQuicktime.GetName(), err)
-		}
-	case strings.HasPrefix(tag, "com.apple.proapps"):
-		if x.ProApps == nil {
-			x.ProApps = &QtProApps{}
-		}
-		if err := xmp.SetNativeField(x.ProApps, tag, value); err != nil {
-			return fmt.Errorf("%s: %v", NsQuicktime.GetName(), err)
-		}
-	case tag == "iXML" || tag == "info.ixml.xml" || tag == "info.ixml.metadata" || tag == "info.ixml.info":
+	case isIXMLTag(tag):
 		i := &ixml.IXML{}
 		if err := i.ParseXML([]byte(value)); err != nil {
 			return fmt.Errorf("%s: parsing ixml: %v", NsQuicktime.GetName(), err)
@@ -280,16 +249,69 @@ func (x *QtInfo) SetTag(tag, value string) error {
 		} else {
 			x.XMP = v
 		}
+	case len(tag) == 4:
+		v := x.Udta
+		if v == nil {
+			v = &QtUserdata{}
+		}
+		if err = xmp.SetNativeField(v, tag, value); err == nil {
+			x.Udta = v
+		}
+	case strings.HasPrefix(tag, "com.apple.quicktime.player"):
+		v := x.Player
+		if v == nil {
+			v = &QtPlayer{}
+		}
+		if err = xmp.SetNativeField(v, tag, value); err == nil {
+			x.Player = v
+		}
+	case strings.HasPrefix(tag, "com.apple.quicktime"):
+		v := x.Mdta
+		if v == nil {
+			v = &QtMetadata{}
+		}
+		if err = xmp.SetNativeField(v, tag, value); err == nil {
+			x.Mdta = v
+		}
+	case strings.HasPrefix(tag, "com.apple.proapps"):
+		v := x.ProApps
+		if v == nil {
+			v = &QtProApps{}
+		}
+		if err = xmp.SetNativeField(v, tag, value); err == nil {
+			x.ProApps = v
+		}
 	default:
-		// silently ignore all other sorts of tags
+		err = xmp.SetNativeField(x, tag, value)
+	}
+	if err != nil {
+		return fmt.Errorf("%s: %v", NsQuicktime.GetName(), err)
 	}
 	return nil
 }
 
+// Lists all non-empty tags.
 func (x *QtInfo) ListTags() (xmp.TagList, error) {
-	if l, err := xmp.ListNativeFields(x); err != nil {
-		return nil, fmt.Errorf("%s: %v", NsQuicktime.GetName(), err)
-	} else {
-		return l, nil
+	var models []xmp.Model
+	if x.Udta != nil {
+		models = append(models, x.Udta)
+	}
+	if x.Player != nil {
+		models = append(models, x.Player)
+	}
+	if x.Mdta != nil {
+		models = append(models, x.Mdta)
+	}
+	if x.ProApps != nil {
+		models = append(models, x.ProApps)
+	}
+	tags := make(xmp.TagList, 0)
+	for _, m := range append(models, x) {
+		l, err := xmp.ListNativeFields(m)
+		if err != nil {
+			return nil, fmt.Errorf("%s: %v", NsQuicktime.GetName(), err)
+		}
+		tags = append(tags, l...)
 	}
+	return tags, nil
 }
diff --git a/models/qt/qt_metadata.go b/models/qt/qt_metadata.go
index ea385fc..d023b55 100644
--- a/models/qt/qt_metadata.go
+++ b/models/qt/qt_metadata.go
@@ -164,8 +164,7 @@ func (x *QtMetadata) SyncToXMP(d *xmp.Document) error {
 }
 
 func (x *QtMetadata) CanTag(tag string) bool {
-	_, err := xmp.GetNativeField(x, tag)
-	return err == nil
+	return xmp.CanNativeField(x, tag)
 }
 
 func (x *QtMetadata) GetTag(tag string) (string, error) {
diff --git a/models/qt/qt_player.go b/models/qt/qt_player.go
index c8a16b6..247b853 100644
--- a/models/qt/qt_player.go
+++ b/models/qt/qt_player.go
@@ -54,8 +54,7 @@ func (x *QtPlayer) SyncToXMP(d *xmp.Document) error {
 }
 
 func (x *QtPlayer) CanTag(tag string) bool {
-	_, err := xmp.GetNativeField(x, tag)
-	return err == nil
+	return xmp.CanNativeField(x, tag)
 }
 
 func (x *QtPlayer) GetTag(tag string) (string, error) {
diff --git a/models/qt/qt_proapps.go b/models/qt/qt_proapps.go
index d2a4b56..b608047 100644
--- a/models/qt/qt_proapps.go
+++ b/models/qt/qt_proapps.go
@@ -92,8 +92,7 @@ func (x *QtProApps) SyncToXMP(d *xmp.Document) error {
 }
 
 func (x *QtProApps) CanTag(tag string) bool {
-	_, err := xmp.GetNativeField(x, tag)
-	return err == nil
+	return xmp.CanNativeField(x, tag)
 }
 
 func (x *QtProApps) GetTag(tag string) (string, error) {
diff --git a/models/qt/qt_userdata.go b/models/qt/qt_userdata.go
index 5976236..9c9f453 100644
--- a/models/qt/qt_userdata.go
+++ b/models/qt/qt_userdata.go
@@ -186,8 +186,7 @@ func (x QtUserdata) SyncToXMP(d *xmp.Document) error {
 }
 
 func (x *QtUserdata) CanTag(tag string) bool {
-	_, err := xmp.GetNativeField(x, tag)
-	return err == nil
+	return xmp.CanNativeField(x, tag)
 }
 
 func (x *QtUserdata) GetTag(tag string) (string, error) {
-- 
2.43.0


From d4a3cfd49e1a190e4109db1ea9935c7f409355a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:37 +0000
Subject: [PATCH 65/80] fix: CanTag says whether a tag can be set

---
 models/cc/model.go         | 3 +--
 models/crs/model.go        | 3 +--
 models/dc/model.go         | 3 +--
 models/digikam/model.go    | 3 +--
 models/dji/dji.go          | 3 +--
 models/itunes/model.go     | 3 +--
 models/ixml/model.go       | 3 +--
 models/mp4/model.go        | 3 +--
 models/pdf/model.go        | 3 +--
 models/pm/model.go         | 3 +--
 models/ps/model.go         | 3 +--
 models/tiff/model.go       | 3 +--
 models/xmp_base/model.go   | 3 +--
 models/xmp_bj/model.go     | 3 +--
 models/xmp_dm/model.go     | 3 +--
 models/xmp_mm/model.go     | 3 +--
 models/xmp_rights/model.go | 3 +--
 models/xmp_tpg/model.go    | 3 +--
 18 files changed, 18 insertions(+), 36 deletions(-)

diff --git a/models/cc/model.go b/models/cc/model.go
index 530daac..292cb7d 100644
--- a/models/cc/model.go
+++ b/models/cc/model.go
@@ -82,8 +82,7 @@ func (x CC) SyncToXMP(d *xmp.Document) error {
 }
 
 func (x *CC) CanTag(tag string) bool {
-	_, err := xmp.GetNativeField(x, tag)
-	return err == nil
+	return xmp.CanNativeField(x, tag)
 }
 
 func (x *CC) GetTag(tag string) (string, error) {
diff --git a/models/crs/model.go b/models/crs/model.go
index a557b7f..2ab559c 100644
--- a/models/crs/model.go
+++ b/models/crs/model.go
@@ -270,8 +270,7 @@ func (x CameraRawInfo) SyncToXMP(d *xmp.Document) error {
 }
 
 func (x *CameraRawInfo) CanTag(tag string) bool {
-	_, err := xmp.GetNativeField(x, tag)
-	return err == nil
+	return xmp.CanNativeField(x, tag)
 }
 
 func (x *CameraRawInfo) GetTag(tag string) (string, error) {
diff --git a/models/dc/model.go b/models/dc/model.go
index 03d1cd7..06d22a7 100644
--- a/models/dc/model.go
+++ b/models/dc/model.go
@@ -90,8 +90,7 @@ func (x DublinCore) SyncToXMP(d *xmp.Document) error {
 }
 
 func (x *DublinCore) CanTag(tag string) bool {
-	_, err := xmp.GetNativeField(x, tag)
-	return err == nil
+	return xmp.CanNativeField(x, tag)
 }
 
 func (x *DublinCore) GetTag(tag string) (string, error) {
diff --git a/models/digikam/model.go b/models/digikam/model.go
index 3c1c222..5929453 100644
--- a/models/digikam/model.go
+++ b/models/digikam/model.go
@@ -67,8 +67,7 @@ func (x Digikam) SyncToXMP(d *xmp.Document) error {
 }
 
 func (x *Digikam) CanTag(tag string) bool {
-	_, err := xmp.GetNativeField(x, tag)
-	return err == nil
+	return xmp.CanNativeField(x, tag)
 }
 
 func (x *Digikam) GetTag(tag string) (string, error) {
diff --git a/models/dji/dji.go b/models/dji/dji.go
index f35c428..3081bf5 100644
--- a/models/dji/dji.go
+++ b/models/dji/dji.go
@@ -69,8 +69,7 @@ func (x DJI) SyncToXMP(d *xmp.Document) error {
 }
 
 func (x *DJI) CanTag(tag string) bool {
-	_, err := xmp.GetNativeField(x, tag)
-	return err == nil
+	return xmp.CanNativeField(x, tag)
 }
 
 func (x *DJI) GetTag(tag string) (string, error) {
diff --git a/models/itunes/model.go b/models/itunes/model.go
index 4148018..510de10 100644
--- a/models/itunes/model.go
+++ b/models/itunes/model.go
@@ -72,8 +72,7 @@ func (x ITunesMetadata) SyncToXMP(d *xmp.Document) error {
 }
 
 func (x *ITunesMetadata) CanTag(tag string) bool {
-	_, err := xmp.GetNativeField(x, tag)
-	return err == nil
+	return xmp.CanNativeField(x, tag)
 }
 
 func (x *ITunesMetadata) GetTag(tag string) (string, error) {
diff --git a/models/ixml/model.go b/models/ixml/model.go
index 332296b..3620753 100644
--- a/models/ixml/model.go
+++ b/models/ixml/model.go
@@ -145,8 +145,7 @@ func (x *IXML) SyncToXMP(d *xmp.Document) error {
 }
 
 func (x *IXML) CanTag(tag string) bool {
-	_, err := xmp.GetNativeField(x, tag)
-	return err == nil
+	return xmp.CanNativeField(x, tag)
 }
 
 func (x *IXML) GetTag(tag string) (string, error) {
diff --git a/models/mp4/model.go b/models/mp4/model.go
index d1fe29c..c00114d 100644
--- a/models/mp4/model.go
+++ b/models/mp4/model.go
@@ -75,8 +75,7 @@ func (x MP4Info) SyncToXMP(d *xmp.Document) error {
 }
 
 func (x *MP4Info) CanTag(tag string) bool {
-	_, err := xmp.GetNativeField(x, tag)
-	return err == nil
+	return xmp.CanNativeField(x, tag)
 }
 
 func (x *MP4Info) GetTag(tag string) (string, error) {
diff --git a/models/pdf/model.go b/models/pdf/model.go
index 02f5262..8e80d0f 100644
--- a/models/pdf/model.go
+++ b/models/pdf/model.go
@@ -143,8 +143,7 @@ func (x PDFInfo) SyncToXMP(d *xmp.Document) error {
 }
 
 func (x *PDFInfo) CanTag(tag string) bool {
-	_, err := xmp.GetNativeField(x, tag)
-	return err == nil
+	return xmp.CanNativeField(x, tag)
 }
 
 func (x *PDFInfo) GetTag(tag string) (string, error) {
diff --git a/models/pm/model.go b/models/pm/model.go
index a641182..85149d8 100644
--- a/models/pm/model.go
+++ b/models/pm/model.go
@@ -76,8 +76,7 @@ func (x Photomechanic) SyncToXMP(d *xmp.Document) error {
 }
 
 func (x *Photomechanic) CanTag(tag string) bool {
-	_, err := xmp.GetNativeField(x, tag)
-	return err == nil
+	return xmp.CanNativeField(x, tag)
 }
 
 func (x *Photomechanic) GetTag(tag string) (string, error) {
diff --git a/models/ps/model.go b/models/ps/model.go
index c3abcd2..8f15370 100644
--- a/models/ps/model.go
+++ b/models/ps/model.go
@@ -99,8 +99,7 @@ func (x PhotoshopInfo) SyncToXMP(d *xmp.Document) error {
 }
 
 func (x *PhotoshopInfo) CanTag(tag string) bool {
-	_, err := xmp.GetNativeField(x, tag)
-	return err == nil
+	return xmp.CanNativeField(x, tag)
 }
 
 func (x *PhotoshopInfo) GetTag(tag string) (string, error) {
diff --git a/models/tiff/model.go b/models/tiff/model.go
index 7031969..99584b7 100644
--- a/models/tiff/model.go
+++ b/models/tiff/model.go
@@ -172,8 +172,7 @@ func (x TiffInfo) SyncToXMP(d *xmp.Document) error {
 }
 
 func (x *TiffInfo) CanTag(tag string) bool {
-	_, err := xmp.GetNativeField(x, tag)
-	return err == nil
+	return xmp.CanNativeField(x, tag)
 }
 
 func (x *TiffInfo) GetTag(tag string) (string, error) {
diff --git a/models/xmp_base/model.go b/models/xmp_base/model.go
index c630a32..c84126c 100644
--- a/models/xmp_base/model.go
+++ b/models/xmp_base/model.go
@@ -123,8 +123,7 @@ func (x XmpBase) SyncToXMP(d *xmp.Document) error {
 }
 
 func (x *XmpBase) CanTag(tag string) bool {
-	_, err := xmp.GetNativeField(x, tag)
-	return err == nil
+	return xmp.CanNativeField(x, tag)
 }
 
 func (x *XmpBase) GetTag(tag string) (string, error) {
diff --git a/models/xmp_bj/model.go b/models/xmp_bj/model.go
index 8977531..cd4cb41 100644
--- a/models/xmp_bj/model.go
+++ b/models/xmp_bj/model.go
@@ -75,8 +75,7 @@ func (x JobTicket) SyncToXMP(d *xmp.Document) error {
 }
 
 func (x *JobTicket) CanTag(tag string) bool {
-	_, err := xmp.GetNativeField(x, tag)
-	return err == nil
+	return xmp.CanNativeField(x, tag)
 }
 
 func (x *JobTicket) GetTag(tag string) (string, error) {
diff --git a/models/xmp_dm/model.go b/models/xmp_dm/model.go
index 50b9623..eb4c238 100644
--- a/models/xmp_dm/model.go
+++ b/models/xmp_dm/model.go
@@ -148,8 +148,7 @@ func (x XmpDM) SyncToXMP(d *xmp.Document) error {
 }
 
 func (x *XmpDM) CanTag(tag string) bool {
-	_, err := xmp.GetNativeField(x, tag)
-	return err == nil
+	return xmp.CanNativeField(x, tag)
 }
 
 func (x *XmpDM) GetTag(tag string) (string, error) {
diff --git a/models/xmp_mm/model.go b/models/xmp_mm/model.go
index e5041ff..1568e13 100644
--- a/models/xmp_mm/model.go
+++ b/models/xmp_mm/model.go
@@ -95,8 +95,7 @@ func (x XmpMM) SyncToXMP(d *xmp.Document) error {
 }
 
 func (x *XmpMM) CanTag(tag string) bool {
-	_, err := xmp.GetNativeField(x, tag)
-	return err == nil
+	return xmp.CanNativeField(x, tag)
 }
 
 func (x *XmpMM) GetTag(tag string) (string, error) {
diff --git a/models/xmp_rights/model.go b/models/xmp_rights/model.go
index 41c3807..c7216a4 100644
--- a/models/xmp_rights/model.go
+++ b/models/xmp_rights/model.go
@@ -77,8 +77,7 @@ func (x XmpRights) SyncToXMP(d *xmp.Document) error {
 }
 
 func (x *XmpRights) CanTag(tag string) bool {
-	_, err := xmp.GetNativeField(x, tag)
-	return err == nil
+	return xmp.CanNativeField(x, tag)
 }
 
 func (x *XmpRights) GetTag(tag string) (string, error) {
diff --git a/models/xmp_tpg/model.go b/models/xmp_tpg/model.go
index 4c4a6dc..a708224 100644
--- a/models/xmp_tpg/model.go
+++ b/models/xmp_tpg/model.go
@@ -85,8 +85,7 @@ func (x PagedText) SyncToXMP(d *xmp.Document) error {
 }
 
 func (x *PagedText) CanTag(tag string) bool {
-	_, err := xmp.GetNativeField(x, tag)
-	return err == nil
+	return xmp.CanNativeField(x, tag)
 }
 
 func (x *PagedText) GetTag(tag string) (string, error) {
-- 
2.43.0


From b79cd33ba7bfc4bc71c35bfd9d60d94c81146b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:52 +0000
Subject: [PATCH 66/80] fix: texts of lists without a text form are refused

---
 xmp/native.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xmp/native.go b/xmp/native.go
index db1ce6f..0302dbf 100644
--- a/xmp/native.go
+++ b/xmp/native.go
@@ -290,6 +290,9 @@ func setNativeValue(f, old reflect.Value, value string) error {
 	}
 
 	// otherwise set simple field value directly or fail
+	if !hasNativeText(f.Type()) {
+		return fmt.Errorf("no method for setting type %s from text", f.Type().String())
+	}
 	return setValue(f, value)
 }
 
-- 
2.43.0


From 34641ce1e71355e77d1518206495e20dda34c970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:52 +0000
Subject: [PATCH 67/80] =?UTF-8?q?fix:=20QuickTime=20atoms=20with=20a=20?=
 =?UTF-8?q?=C2=A9=20are=20found?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 models/qt/model.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/models/qt/model.go b/models/qt/model.go
index 817061e..17c2b3b 100644
--- a/models/qt/model.go
+++ b/models/qt/model.go
@@ -54,6 +54,7 @@ package qt
 import (
 	"fmt"
 	"strings"
+	"unicode/utf8"
 
 	"github.com/trimmer-io/go-xmp/models/ixml"
 	"github.com/trimmer-io/go-xmp/xmp"
@@ -173,6 +174,11 @@ func (x QtInfo) SyncToXMP(d *xmp.Document) error {
 	return nil
 }
 
+// isFourCC returns true for atom types, '©' is a single character.
+func isFourCC(tag string) bool {
+	return utf8.RuneCountInString(tag) == 4
+}
+
 // isIXMLTag returns true for tags which contain an iXML document.
 func isIXMLTag(tag string) bool {
 	return tag == "iXML" || tag == "info.ixml.xml" || tag == "info.ixml.metadata" || tag == "info.ixml.info"
@@ -182,7 +188,7 @@ func (x *QtInfo) CanTag(tag string) bool {
 	switch {
 	case tag == "XMP_" || isIXMLTag(tag):
 		return true
-	case len(tag) == 4:
+	case isFourCC(tag):
 		return xmp.CanNativeField(&QtUserdata{}, tag)
 	case strings.HasPrefix(tag, "com.apple.quicktime.player"):
 		return xmp.CanNativeField(&QtPlayer{}, tag)
@@ -208,7 +214,7 @@ func (x *QtInfo) GetTag(tag string) (string, error) {
 			return "", nil
 		}
 		return "", fmt.Errorf("%s: tag '%s' has no text form", NsQuicktime.GetName(), tag)
-	case len(tag) == 4:
+	case isFourCC(tag):
 		if m = x.Udta; x.Udta == nil {
 			m = &QtUserdata{}
 		}
@@ -249,7 +255,7 @@ func (x *QtInfo) SetTag(tag, value string) error {
 		} else {
 			x.XMP = v
 		}
-	case len(tag) == 4:
+	case isFourCC(tag):
 		v := x.Udta
 		if v == nil {
 			v = &QtUserdata{}
-- 
2.43.0


From 85669df502fe3b0bf65e291b98e428fd89d8a4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:19 +0000
Subject: [PATCH 68/80] fix: call marshalers with pointer receivers for pointer
 fields

---
 xmp/marshal.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/xmp/marshal.go b/xmp/marshal.go
index 3599fdf..c00d11d 100644
--- a/xmp/marshal.go
+++ b/xmp/marshal.go
@@ -302,21 +302,21 @@ func (e *Encoder) marshalValue(val reflect.Value, finfo *fieldInfo, node *Node,
 	typ := val.Type()
 
 	// call marshaler interface
-	if val.CanInterface() && (finfo != nil && finfo.flags&fMarshal > 0 || typ.Implements(marshalerType)) {
+	if val.CanInterface() && typ.Implements(marshalerType) {
 		// log.Debugf("xmp: marshalValue calling MarshalXMP on %v for %s\n", val.Type(), name)
 		return val.Interface().(Marshaler).MarshalXMP(e, node, nil)
 	}
 
 	if val.CanAddr() {
 		pv := val.Addr()
-		if pv.CanInterface() && (finfo != nil && finfo.flags&fMarshal > 0 || pv.Type().Implements(marshalerType)) {
+		if pv.CanInterface() && pv.Type().Implements(marshalerType) {
 			// log.Debugf("xmp: marshalValue calling MarshalXMP on %v for %s\n", val.Type(), name)
 			return pv.Interface().(Marshaler).MarshalXMP(e, node, nil)
 		}
 	}
 
 	// Check for text marshaler and marshal as node value
-	if val.CanInterface() && (finfo != nil && finfo.flags&fTextMarshal > 0 || typ.Implements(textMarshalerType)) {
+	if val.CanInterface() && typ.Implements(textMarshalerType) {
 		// log.Debugf("xmp: marshalValue calling MarshalText on %v for %s\n", val.Type(), name)
 		b, err := val.Interface().(encoding.TextMarshaler).MarshalText()
 		if err != nil || b == nil {
@@ -328,7 +328,7 @@ func (e *Encoder) marshalValue(val reflect.Value, finfo *fieldInfo, node *Node,
 
 	if val.CanAddr() {
 		pv := val.Addr()
-		if pv.CanInterface() && (finfo != nil && finfo.flags&fTextMarshal > 0 || pv.Type().Implements(textMarshalerType)) {
+		if pv.CanInterface() && pv.Type().Implements(textMarshalerType) {
 			// log.Debugf("xmp: marshalValue calling MarshalText on %v for %s\n", val.Type(), name)
 			b, err := pv.Interface().(encoding.TextMarshaler).MarshalText()
 			if err != nil || b == nil {
-- 
2.43.0


From 1aa74d1419dc0924f0f71ebbafa713871e6a2ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:24 +0000
Subject: [PATCH 69/80] fix: read lists and byte arrays of types without own
 methods

---
 xmp/unmarshal.go | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/xmp/unmarshal.go b/xmp/unmarshal.go
index 404d674..e25720a 100644
--- a/xmp/unmarshal.go
+++ b/xmp/unmarshal.go
@@ -300,6 +300,9 @@ func (d *Decoder) unmarshal(val reflect.Value, finfo *fieldInfo, src *Node) erro
 				}
 			}
 		}
+	} else if isList(val.Type()) && val.CanAddr() && src.IsArray() {
+		// lists without an own method are written as array
+		return UnmarshalArray(d, src, ArrayTypeOrdered, val.Addr().Interface())
 	} else {
 		// otherwise set simple value directly
 		text, err := simpleValue(src)
@@ -314,6 +317,15 @@ func (d *Decoder) unmarshal(val reflect.Value, finfo *fieldInfo, src *Node) erro
 	return nil
 }
 
+// isList reports whether typ is a slice or array other than a byte string.
+func isList(typ reflect.Type) bool {
+	switch typ.Kind() {
+	case reflect.Slice, reflect.Array:
+		return typ.Elem().Kind() != reflect.Uint8
+	}
+	return false
+}
+
 // contentError tells that a node holds more than the text its type expects.
 type contentError struct {
 	name string
@@ -636,9 +648,18 @@ func setValue(dst reflect.Value, src string) error {
 		dst.SetString(strings.TrimSpace(src))
 	case reflect.Slice:
 		// make sure it's a byte slice
-		if dst.Type().Elem().Kind() == reflect.Uint8 {
-			dst.SetBytes([]byte(src))
+		if isList(dst.Type()) {
+			return fmt.Errorf("xmp: no method for unmarshalling type %s", dst0.Type().String())
+		}
+		dst.SetBytes([]byte(src))
+	case reflect.Array:
+		if isList(dst.Type()) {
+			return fmt.Errorf("xmp: no method for unmarshalling type %s", dst0.Type().String())
+		}
+		if len(src) != dst.Len() {
+			return fmt.Errorf("xmp: invalid length %d for type %s", len(src), dst0.Type().String())
 		}
+		reflect.Copy(dst, reflect.ValueOf([]byte(src)).Convert(reflect.SliceOf(dst.Type().Elem())))
 	default:
 		return fmt.Errorf("xmp: no method for unmarshalling type %s", dst0.Type().String())
 	}
-- 
2.43.0


From fd8e57764f83fc1551133bf0da537202f63bcb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:28 +0000
Subject: [PATCH 70/80] fix: read empty properties as empty lists

---
 xmp/array.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xmp/array.go b/xmp/array.go
index c5b40d5..f9e981e 100644
--- a/xmp/array.go
+++ b/xmp/array.go
@@ -650,6 +650,10 @@ func UnmarshalArray(d *Decoder, node *Node, typ ArrayType, out interface{}) erro
 	// LogDebugf("+++ Array start node %s\n", node.FullName())
 	//
 	if len(node.Nodes) != 1 {
+		// empty properties are empty lists
+		if text, err := simpleValue(node); err == nil && text == "" {
+			return nil
+		}
 		return fmt.Errorf("xmp: invalid array %s: contains %d nodes", node.FullName(), len(node.Nodes))
 	}
 	arr := node.Nodes[0]
-- 
2.43.0


From 45380f284d8a317b5995ad4fe31d094cc6fb9474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:33 +0000
Subject: [PATCH 71/80] fix: read attribute properties written as elements by
 their attribute method

---
 xmp/unmarshal.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/xmp/unmarshal.go b/xmp/unmarshal.go
index e25720a..748a0ed 100644
--- a/xmp/unmarshal.go
+++ b/xmp/unmarshal.go
@@ -240,6 +240,14 @@ func (d *Decoder) unmarshal(val reflect.Value, finfo *fieldInfo, src *Node) erro
 	// usefully addressable.
 	val = derefValue(val)
 
+	// simple values of attributes may be written as element
+	if finfo != nil && finfo.flags&fAttr > 0 && val.CanAddr() && len(src.Attr) == 0 && len(src.Nodes) == 0 {
+		typ := val.Addr().Type()
+		if typ.Implements(attrUnmarshalerType) || typ.Implements(textUnmarshalerType) {
+			return d.unmarshalAttr(val, finfo, Attr{Name: src.XMLName, Value: src.Value})
+		}
+	}
+
 	// XMP
 	if val.CanAddr() {
 		pv := val.Addr()
-- 
2.43.0


From 9d1b8f781f4347cf81e0a46fb11f9e689dbd0508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:37 +0000
Subject: [PATCH 72/80] fix: call pointer-receiver marshalers of list items

---
 xmp/array.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/xmp/array.go b/xmp/array.go
index f9e981e..07ca429 100644
--- a/xmp/array.go
+++ b/xmp/array.go
@@ -584,6 +584,13 @@ func MarshalArray(e *Encoder, node *Node, typ ArrayType, items interface{}) erro
 		return nil
 	}
 
+	// items may have methods on their pointer type
+	if kind == reflect.Array {
+		v := reflect.New(val.Type()).Elem()
+		v.Set(val)
+		val = v
+	}
+
 	// output enclosing array type
 	arr := NewNode(xml.Name{Local: "rdf:" + string(typ)})
 	node.AddNode(arr)
@@ -633,7 +640,7 @@ func MarshalArray(e *Encoder, node *Node, typ ArrayType, items interface{}) erro
 			}
 		} else {
 			// write to stream
-			if err := e.EncodeElement(v, elem); err != nil {
+			if err := e.marshalValue(val.Index(i), nil, elem, false); err != nil {
 				return err
 			}
 		}
-- 
2.43.0


From 403fabdfad26b795d9c4f2a89095953c847f1c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:42 +0000
Subject: [PATCH 73/80] fix: keep namespaces with only empty properties in JSON

---
 xmp/json.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmp/json.go b/xmp/json.go
index de57a97..1d4f559 100644
--- a/xmp/json.go
+++ b/xmp/json.go
@@ -99,7 +99,7 @@ func (d *Document) MarshalJSON() ([]byte, error) {
 
 	// 3 convert node tree to json, ignore empty root nodes
 	for _, n := range e.root.Nodes {
-		if n.IsZero() {
+		if len(n.Attr) == 0 && len(n.Nodes) == 0 {
 			continue
 		}
 		if m, err := nodeToJson(n); err != nil {
-- 
2.43.0


From bfd7d7fa2347ed39895f007f8126dae15355fbad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:34 +0000
Subject: [PATCH 74/80] fix: read empty elements of plain list fields

---
 xmp/unmarshal.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xmp/unmarshal.go b/xmp/unmarshal.go
index 748a0ed..8d650bd 100644
--- a/xmp/unmarshal.go
+++ b/xmp/unmarshal.go
@@ -317,6 +317,9 @@ func (d *Decoder) unmarshal(val reflect.Value, finfo *fieldInfo, src *Node) erro
 		if err != nil {
 			return err
 		}
+		if text == "" && isList(val.Type()) {
+			return nil
+		}
 		if err := setValue(val, text); err != nil {
 			return fmt.Errorf("xmp: unmarshal %s: %v", src.FullName(), err)
 		}
-- 
2.43.0


From c7335af05ef2ab415e0a1b3615316920d02eb6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:38 +0000
Subject: [PATCH 75/80] fix: write attributes held by interfaces like other
 values

---
 xmp/marshal.go | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/xmp/marshal.go b/xmp/marshal.go
index c00d11d..61dab8d 100644
--- a/xmp/marshal.go
+++ b/xmp/marshal.go
@@ -515,6 +515,15 @@ func isEmptyValue(v reflect.Value) bool {
 }
 
 func (e *Encoder) marshalAttr(node *Node, name xml.Name, val reflect.Value) error {
+	// Dereference or skip nil pointer, interface values.
+	for val.Kind() == reflect.Interface || val.Kind() == reflect.Ptr {
+		if val.IsNil() {
+			// log.Debugf("xmp: marshalAttr field %s is nil\n", name.Local)
+			return nil
+		}
+		val = val.Elem()
+	}
+
 	if val.CanInterface() && val.Type().Implements(attrMarshalerType) {
 		// log.Debugf("xmp: marshalAttr calling MarshalXmpAttr on %v for %s\n", val.Type(), name.Local)
 		attr, err := val.Interface().(MarshalerAttr).MarshalXMPAttr(e, name, node)
@@ -565,16 +574,6 @@ func (e *Encoder) marshalAttr(node *Node, name xml.Name, val reflect.Value) erro
 		}
 	}
 
-	// Dereference or skip nil pointer, interface values.
-	switch val.Kind() {
-	case reflect.Ptr, reflect.Interface:
-		if val.IsNil() {
-			// log.Debugf("xmp: marshalAttr field %s is nil\n", name.Local)
-			return nil
-		}
-		val = val.Elem()
-	}
-
 	s, b, err := marshalSimple(val.Type(), val)
 	if err != nil {
 		return err
-- 
2.43.0


From c6487017619ed84de23e6c9f2cc8c2bb8c8943a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:24 +0000
Subject: [PATCH 76/80] fix: list a document's namespaces in a fixed order

---
 xmp/document.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xmp/document.go b/xmp/document.go
index 66cc714..0a7fad8 100644
--- a/xmp/document.go
+++ b/xmp/document.go
@@ -115,7 +115,8 @@ func (d *Document) syncToXMP() error {
 func (d *Document) Namespaces() NamespaceList {
 	var l NamespaceList
 	for _, m := range []map[string]*Namespace{d.intNsMap, d.extNsMap} {
-		for uri, v := range m {
+		for _, uri := range sortedKeys(m) {
+			v := m[uri]
 			if d.goneNsMap[uri] && d.FindNode(v) == nil {
 				continue
 			}
-- 
2.43.0


From 2b00c5a2b9b3a8d6d10bdcaa6a1bcc955e6bd364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:12 +0000
Subject: [PATCH 77/80] fix: count pool nodes atomically

---
 xmp/dump.go | 17 +++++++++++------
 xmp/node.go |  9 +++++----
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/xmp/dump.go b/xmp/dump.go
index 999c1a1..26ed47f 100644
--- a/xmp/dump.go
+++ b/xmp/dump.go
@@ -17,6 +17,7 @@ package xmp
 import (
 	"fmt"
 	"strings"
+	"sync/atomic"
 )
 
 func (n Node) Dump(d int) {
@@ -59,10 +60,14 @@ func (d *Document) DumpNamespaces() {
 }
 
 func DumpStats() {
-	fmt.Println("xmp: Node Pool Allocs ", npAllocs)
-	fmt.Println("xmp: Node Pool Frees  ", npFrees)
-	fmt.Println("xmp: Node Pool Hits   ", npHits)
-	fmt.Println("xmp: Node Pool Returns", npReturns)
-	fmt.Println("xmp: Node Pool InUse  ", npAllocs+npHits-npReturns-npFrees)
-	fmt.Println("xmp: Node Pool InPool ", Max64(0, npReturns-npHits))
+	allocs := atomic.LoadInt64(&npAllocs)
+	frees := atomic.LoadInt64(&npFrees)
+	hits := atomic.LoadInt64(&npHits)
+	returns := atomic.LoadInt64(&npReturns)
+	fmt.Println("xmp: Node Pool Allocs ", allocs)
+	fmt.Println("xmp: Node Pool Frees  ", frees)
+	fmt.Println("xmp: Node Pool Hits   ", hits)
+	fmt.Println("xmp: Node Pool Returns", returns)
+	fmt.Println("xmp: Node Pool InUse  ", allocs+hits-returns-frees)
+	fmt.Println("xmp: Node Pool InPool ", Max64(0, returns-hits))
 }
diff --git a/xmp/node.go b/xmp/node.go
index 2e1c455..4639f97 100644
--- a/xmp/node.go
+++ b/xmp/node.go
@@ -21,6 +21,7 @@ import (
 	"reflect"
 	"sort"
 	"strings"
+	"sync/atomic"
 )
 
 var (
@@ -94,7 +95,7 @@ func NewNode(name xml.Name) *Node {
 	var n *Node
 	select {
 	case n = <-nodePool: // Try to get one from the nodePool
-		npHits++
+		atomic.AddInt64(&npHits, 1)
 		n.XMLName = name
 		n.Attr = nil
 		n.Nodes = nil
@@ -102,7 +103,7 @@ func NewNode(name xml.Name) *Node {
 		n.Value = ""
 		n.raw = false
 	default: // All in use, create a new, temporary:
-		npAllocs++
+		atomic.AddInt64(&npAllocs, 1)
 		n = &Node{
 			XMLName: name,
 			Attr:    nil,
@@ -126,9 +127,9 @@ func (n *Node) Close() {
 	n.Value = ""
 	select {
 	case nodePool <- n: // try to put back into the nodePool
-		npReturns++
+		atomic.AddInt64(&npReturns, 1)
 	default: // pool is full, will be garbage collected
-		npFrees++
+		atomic.AddInt64(&npFrees, 1)
 	}
 }
 
-- 
2.43.0


From 9e8b64c6d430e84ec174108bf47731c41cd6d57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:43 +0000
Subject: [PATCH 78/80] fix: keep properties whose text or list a structure
 cannot hold

---
 xmp/native.go    | 3 +++
 xmp/unmarshal.go | 5 +++++
 xmp/xmp_ext.go   | 6 ++++++
 3 files changed, 14 insertions(+)

diff --git a/xmp/native.go b/xmp/native.go
index 0302dbf..fb9df01 100644
--- a/xmp/native.go
+++ b/xmp/native.go
@@ -52,6 +52,9 @@ func (x TagList) MarshalXMP(e *Encoder, node *Node, m Model) error {
 }
 
 func (x *TagList) UnmarshalXMP(d *Decoder, node *Node, m Model) error {
+	if node.Value != "" {
+		return &contentError{node.FullName()}
+	}
 	for _, v := range node.Attr {
 		d.translate(&v.Name)
 		if skipField(v.Name) || nsRDF.MatchXMLName(v.Name) {
diff --git a/xmp/unmarshal.go b/xmp/unmarshal.go
index 8d650bd..9b6b3ef 100644
--- a/xmp/unmarshal.go
+++ b/xmp/unmarshal.go
@@ -271,6 +271,11 @@ func (d *Decoder) unmarshal(val reflect.Value, finfo *fieldInfo, src *Node) erro
 
 	// structs
 	if val.Kind() == reflect.Struct {
+		// there's no field for text
+		if src.Value != "" {
+			return &contentError{src.FullName()}
+		}
+
 		// process attributes first
 		for _, a := range src.Attr {
 			d.translate(&a.Name)
diff --git a/xmp/xmp_ext.go b/xmp/xmp_ext.go
index c083ba4..78daef5 100644
--- a/xmp/xmp_ext.go
+++ b/xmp/xmp_ext.go
@@ -82,6 +82,9 @@ func (x *Extension) UnmarshalXMPAttr(d *Decoder, a Attr) error {
 }
 
 func (x *Extension) UnmarshalXMP(d *Decoder, src *Node, m Model) error {
+	if src.Value != "" || src.IsArray() {
+		return &contentError{src.FullName()}
+	}
 	for _, v := range src.Attr {
 		if err := d.decodeAttribute(&x.Nodes, v); err != nil {
 			return err
@@ -198,6 +201,9 @@ func (x NamedExtensionArray) MarshalXMP(e *Encoder, node *Node, m Model) error {
 }
 
 func (x *NamedExtensionArray) UnmarshalXMP(d *Decoder, node *Node, m Model) error {
+	if node.Value != "" {
+		return &contentError{node.FullName()}
+	}
 	for _, v := range node.Attr {
 		d.translate(&v.Name)
 		if skipField(v.Name) || nsRDF.MatchXMLName(v.Name) {
-- 
2.43.0


From d796216fd9d095ffc27f91f5b7c51f1b3da7de47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:11 +0000
Subject: [PATCH 79/80] fix: sort markers by time, not by count times rate

---
 models/xmp_dm/types.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/models/xmp_dm/types.go b/models/xmp_dm/types.go
index 173cf22..f1f2ad1 100644
--- a/models/xmp_dm/types.go
+++ b/models/xmp_dm/types.go
@@ -190,7 +190,15 @@ func (x FrameCount) Sub(y FrameCount) FrameCount {
 }
 
 func (x FrameCount) IsSmaller(y FrameCount) bool {
-	return float64(x.Count)*x.Rate.Value() < float64(y.Count)*y.Rate.Value()
+	return x.seconds() < y.seconds()
+}
+
+// seconds returns the time of the frame, rates are frames per second.
+func (x FrameCount) seconds() float64 {
+	if x.Rate.IsZero() {
+		return float64(x.Count)
+	}
+	return float64(x.Count) * float64(x.Rate.Base) / float64(x.Rate.Rate)
 }
 
 func (x *FrameCount) UnmarshalText(data []byte) error {
-- 
2.43.0


From f92bf61db26d646a6ceb4a6a4506059500a3d2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:19 +0000
Subject: [PATCH 80/80] fix: convert rates when reading ranges of parts

---
 models/xmp_dm/types.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/models/xmp_dm/types.go b/models/xmp_dm/types.go
index f1f2ad1..fe3c23e 100644
--- a/models/xmp_dm/types.go
+++ b/models/xmp_dm/types.go
@@ -183,8 +183,16 @@ func (x FrameCount) IsZero() bool {
 }
 
 func (x FrameCount) Sub(y FrameCount) FrameCount {
+	if x.Count == -1 {
+		// nothing is left out of the maximum
+		return x
+	}
+	n := y.Count
+	if x.Rate != y.Rate && !x.Rate.IsZero() {
+		n = int64(math.Round(y.seconds() * x.Rate.Value()))
+	}
 	return FrameCount{
-		Count: x.Count - y.Count,
+		Count: x.Count - n,
 		Rate:  x.Rate,
 	}
 }
-- 
2.43.0

