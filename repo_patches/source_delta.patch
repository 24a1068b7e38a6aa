From 20623e03d5c61f3aacef4049e838b8bd27480718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:38 +0000
Subject: [PATCH 01/37] fix: read container and string sizes as unsigned and
 check them against the message

---
 encoding/encoding_v1/decoderV1.go | 56 ++++++++++++++++++++++---------
 encoding/encoding_v2/decoderV2.go | 56 ++++++++++++++++++++++---------
 2 files changed, 82 insertions(+), 30 deletions(-)

diff --git a/encoding/encoding_v1/decoderV1.go b/encoding/encoding_v1/decoderV1.go
index d15066f..3cbbd59 100644
--- a/encoding/encoding_v1/decoderV1.go
+++ b/encoding/encoding_v1/decoderV1.go
@@ -159,44 +159,44 @@ func (d DecoderV1) decode(buffer *bytes.Buffer) (interface{}, error) {
 		if size == 0 {
 			return "", nil
 		}
-		return string(buffer.Next(size)), nil
+		return d.decodeString(buffer, size)
 	case marker == encode_consts.String8Marker:
-		var size int8
+		var size uint8
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
-		return string(buffer.Next(int(size))), nil
+		return d.decodeString(buffer, int(size))
 	case marker == encode_consts.String16Marker:
-		var size int16
+		var size uint16
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
-		return string(buffer.Next(int(size))), nil
+		return d.decodeString(buffer, int(size))
 	case marker == encode_consts.String32Marker:
-		var size int32
+		var size uint32
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
-		return string(buffer.Next(int(size))), nil
+		return d.decodeString(buffer, int(size))
 
 	// SLICE
 	case marker >= encode_consts.TinySliceMarker && marker <= encode_consts.TinySliceMarker+0x0F:
 		size := int(marker) - int(encode_consts.TinySliceMarker)
 		return d.decodeSlice(buffer, size)
 	case marker == encode_consts.Slice8Marker:
-		var size int8
+		var size uint8
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading slice size")
 		}
 		return d.decodeSlice(buffer, int(size))
 	case marker == encode_consts.Slice16Marker:
-		var size int16
+		var size uint16
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading slice size")
 		}
 		return d.decodeSlice(buffer, int(size))
 	case marker == encode_consts.Slice32Marker:
-		var size int32
+		var size uint32
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading slice size")
 		}
@@ -207,19 +207,19 @@ func (d DecoderV1) decode(buffer *bytes.Buffer) (interface{}, error) {
 		size := int(marker) - int(encode_consts.TinyMapMarker)
 		return d.decodeMap(buffer, size)
 	case marker == encode_consts.Map8Marker:
-		var size int8
+		var size uint8
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading map size")
 		}
 		return d.decodeMap(buffer, int(size))
 	case marker == encode_consts.Map16Marker:
-		var size int16
+		var size uint16
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading map size")
 		}
 		return d.decodeMap(buffer, int(size))
 	case marker == encode_consts.Map32Marker:
-		var size int32
+		var size uint32
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading map size")
 		}
@@ -230,13 +230,13 @@ func (d DecoderV1) decode(buffer *bytes.Buffer) (interface{}, error) {
 		size := int(marker) - int(encode_consts.TinyStructMarker)
 		return d.decodeStruct(buffer, size)
 	case marker == encode_consts.Struct8Marker:
-		var size int8
+		var size uint8
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading struct size")
 		}
 		return d.decodeStruct(buffer, int(size))
 	case marker == encode_consts.Struct16Marker:
-		var size int16
+		var size uint16
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading struct size")
 		}
@@ -248,7 +248,29 @@ func (d DecoderV1) decode(buffer *bytes.Buffer) (interface{}, error) {
 
 }
 
+// checkSize refuses sizes that can not be right, since every byte of a string and every
+// element of a slice or map takes at least one byte of the message
+func (d DecoderV1) checkSize(buffer *bytes.Buffer, size int) error {
+	if size < 0 || size > buffer.Len() {
+		return errors.New("Size %d exceeds the %d bytes left in the message", size, buffer.Len())
+	}
+
+	return nil
+}
+
+func (d DecoderV1) decodeString(buffer *bytes.Buffer, size int) (interface{}, error) {
+	if err := d.checkSize(buffer, size); err != nil {
+		return nil, err
+	}
+
+	return string(buffer.Next(size)), nil
+}
+
 func (d DecoderV1) decodeSlice(buffer *bytes.Buffer, size int) ([]interface{}, error) {
+	if err := d.checkSize(buffer, size); err != nil {
+		return nil, err
+	}
+
 	slice := make([]interface{}, size)
 	for i := 0; i < size; i++ {
 		item, err := d.decode(buffer)
@@ -262,6 +284,10 @@ func (d DecoderV1) decodeSlice(buffer *bytes.Buffer, size int) ([]interface{}, e
 }
 
 func (d DecoderV1) decodeMap(buffer *bytes.Buffer, size int) (map[string]interface{}, error) {
+	if err := d.checkSize(buffer, size); err != nil {
+		return nil, err
+	}
+
 	mapp := make(map[string]interface{}, size)
 	for i := 0; i < size; i++ {
 		keyInt, err := d.decode(buffer)
diff --git a/encoding/encoding_v2/decoderV2.go b/encoding/encoding_v2/decoderV2.go
index 0641024..bc1125a 100644
--- a/encoding/encoding_v2/decoderV2.go
+++ b/encoding/encoding_v2/decoderV2.go
@@ -154,44 +154,44 @@ func (d DecoderV2) decode(buffer *bytes.Buffer) (interface{}, error) {
 		if size == 0 {
 			return "", nil
 		}
-		return string(buffer.Next(size)), nil
+		return d.decodeString(buffer, size)
 	case marker == encode_consts.String8Marker:
-		var size int8
+		var size uint8
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
-		return string(buffer.Next(int(size))), nil
+		return d.decodeString(buffer, int(size))
 	case marker == encode_consts.String16Marker:
-		var size int16
+		var size uint16
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
-		return string(buffer.Next(int(size))), nil
+		return d.decodeString(buffer, int(size))
 	case marker == encode_consts.String32Marker:
-		var size int32
+		var size uint32
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
-		return string(buffer.Next(int(size))), nil
+		return d.decodeString(buffer, int(size))
 
 	// SLICE
 	case marker >= encode_consts.TinySliceMarker && marker <= encode_consts.TinySliceMarker+0x0F:
 		size := int(marker) - int(encode_consts.TinySliceMarker)
 		return d.decodeSlice(buffer, size)
 	case marker == encode_consts.Slice8Marker:
-		var size int8
+		var size uint8
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading slice size")
 		}
 		return d.decodeSlice(buffer, int(size))
 	case marker == encode_consts.Slice16Marker:
-		var size int16
+		var size uint16
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading slice size")
 		}
 		return d.decodeSlice(buffer, int(size))
 	case marker == encode_consts.Slice32Marker:
-		var size int32
+		var size uint32
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading slice size")
 		}
@@ -202,19 +202,19 @@ func (d DecoderV2) decode(buffer *bytes.Buffer) (interface{}, error) {
 		size := int(marker) - int(encode_consts.TinyMapMarker)
 		return d.decodeMap(buffer, size)
 	case marker == encode_consts.Map8Marker:
-		var size int8
+		var size uint8
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading map size")
 		}
 		return d.decodeMap(buffer, int(size))
 	case marker == encode_consts.Map16Marker:
-		var size int16
+		var size uint16
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading map size")
 		}
 		return d.decodeMap(buffer, int(size))
 	case marker == encode_consts.Map32Marker:
-		var size int32
+		var size uint32
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading map size")
 		}
@@ -225,13 +225,13 @@ func (d DecoderV2) decode(buffer *bytes.Buffer) (interface{}, error) {
 		size := int(marker) - int(encode_consts.TinyStructMarker)
 		return d.decodeStruct(buffer, size)
 	case marker == encode_consts.Struct8Marker:
-		var size int8
+		var size uint8
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading struct size")
 		}
 		return d.decodeStruct(buffer, int(size))
 	case marker == encode_consts.Struct16Marker:
-		var size int16
+		var size uint16
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading struct size")
 		}
@@ -243,7 +243,29 @@ func (d DecoderV2) decode(buffer *bytes.Buffer) (interface{}, error) {
 
 }
 
+// checkSize refuses sizes that can not be right, since every byte of a string and every
+// element of a slice or map takes at least one byte of the message
+func (d DecoderV2) checkSize(buffer *bytes.Buffer, size int) error {
+	if size < 0 || size > buffer.Len() {
+		return errors.New("Size %d exceeds the %d bytes left in the message", size, buffer.Len())
+	}
+
+	return nil
+}
+
+func (d DecoderV2) decodeString(buffer *bytes.Buffer, size int) (interface{}, error) {
+	if err := d.checkSize(buffer, size); err != nil {
+		return nil, err
+	}
+
+	return string(buffer.Next(size)), nil
+}
+
 func (d DecoderV2) decodeSlice(buffer *bytes.Buffer, size int) ([]interface{}, error) {
+	if err := d.checkSize(buffer, size); err != nil {
+		return nil, err
+	}
+
 	slice := make([]interface{}, size)
 	for i := 0; i < size; i++ {
 		item, err := d.decode(buffer)
@@ -257,6 +279,10 @@ func (d DecoderV2) decodeSlice(buffer *bytes.Buffer, size int) ([]interface{}, e
 }
 
 func (d DecoderV2) decodeMap(buffer *bytes.Buffer, size int) (map[string]interface{}, error) {
+	if err := d.checkSize(buffer, size); err != nil {
+		return nil, err
+	}
+
 	mapp := make(map[string]interface{}, size)
 	for i := 0; i < size; i++ {
 		keyInt, err := d.decode(buffer)
-- 
2.43.0


From 1cad2d8411e946c488e5e77f4d1b2a9ff105beed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:12 +0000
Subject: [PATCH 02/37] fix: report graph structures with fields of the wrong
 type instead of panicking

---
 encoding/encoding_v1/decoderV1.go | 30 +++++++++++++++++++++++-------
 encoding/encoding_v2/decoderV2.go | 30 +++++++++++++++++++++++-------
 encoding/util.go                  |  6 +++++-
 3 files changed, 51 insertions(+), 15 deletions(-)

diff --git a/encoding/encoding_v1/decoderV1.go b/encoding/encoding_v1/decoderV1.go
index 3cbbd59..3aa540c 100644
--- a/encoding/encoding_v1/decoderV1.go
+++ b/encoding/encoding_v1/decoderV1.go
@@ -346,12 +346,16 @@ func (d DecoderV1) decodeStruct(buffer *bytes.Buffer, size int) (interface{}, er
 
 func (d DecoderV1) decodeNode(buffer *bytes.Buffer) (graph.Node, error) {
 	node := graph.Node{}
+	var ok bool
 
 	nodeIdentityInt, err := d.decode(buffer)
 	if err != nil {
 		return node, err
 	}
-	node.NodeIdentity = nodeIdentityInt.(int64)
+	node.NodeIdentity, ok = nodeIdentityInt.(int64)
+	if !ok {
+		return node, errors.New("Expected: NodeIdentity int64, but got %T %+v", nodeIdentityInt, nodeIdentityInt)
+	}
 
 	labelInt, err := d.decode(buffer)
 	if err != nil {
@@ -381,26 +385,35 @@ func (d DecoderV1) decodeNode(buffer *bytes.Buffer) (graph.Node, error) {
 
 func (d DecoderV1) decodeRelationship(buffer *bytes.Buffer) (graph.Relationship, error) {
 	rel := graph.Relationship{}
+	var ok bool
 
 	relIdentityInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
 	}
-	rel.RelIdentity = relIdentityInt.(int64)
+	rel.RelIdentity, ok = relIdentityInt.(int64)
+	if !ok {
+		return rel, errors.New("Expected: RelIdentity int64, but got %T %+v", relIdentityInt, relIdentityInt)
+	}
 
 	startNodeIdentityInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
 	}
-	rel.StartNodeIdentity = startNodeIdentityInt.(int64)
+	rel.StartNodeIdentity, ok = startNodeIdentityInt.(int64)
+	if !ok {
+		return rel, errors.New("Expected: StartNodeIdentity int64, but got %T %+v", startNodeIdentityInt, startNodeIdentityInt)
+	}
 
 	endNodeIdentityInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
 	}
-	rel.EndNodeIdentity = endNodeIdentityInt.(int64)
+	rel.EndNodeIdentity, ok = endNodeIdentityInt.(int64)
+	if !ok {
+		return rel, errors.New("Expected: EndNodeIdentity int64, but got %T %+v", endNodeIdentityInt, endNodeIdentityInt)
+	}
 
-	var ok bool
 	typeInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
@@ -466,14 +479,17 @@ func (d DecoderV1) decodePath(buffer *bytes.Buffer) (graph.Path, error) {
 
 func (d DecoderV1) decodeUnboundRelationship(buffer *bytes.Buffer) (graph.UnboundRelationship, error) {
 	rel := graph.UnboundRelationship{}
+	var ok bool
 
 	relIdentityInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
 	}
-	rel.RelIdentity = relIdentityInt.(int64)
+	rel.RelIdentity, ok = relIdentityInt.(int64)
+	if !ok {
+		return rel, errors.New("Expected: RelIdentity int64, but got %T %+v", relIdentityInt, relIdentityInt)
+	}
 
-	var ok bool
 	typeInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
diff --git a/encoding/encoding_v2/decoderV2.go b/encoding/encoding_v2/decoderV2.go
index bc1125a..e3170e6 100644
--- a/encoding/encoding_v2/decoderV2.go
+++ b/encoding/encoding_v2/decoderV2.go
@@ -658,12 +658,16 @@ func (d DecoderV2) decodePoint3D(buffer *bytes.Buffer) (types.Point3D, error) {
 
 func (d DecoderV2) decodeNode(buffer *bytes.Buffer) (graph.Node, error) {
 	node := graph.Node{}
+	var ok bool
 
 	nodeIdentityInt, err := d.decode(buffer)
 	if err != nil {
 		return node, err
 	}
-	node.NodeIdentity = nodeIdentityInt.(int64)
+	node.NodeIdentity, ok = nodeIdentityInt.(int64)
+	if !ok {
+		return node, errors.New("Expected: NodeIdentity int64, but got %T %+v", nodeIdentityInt, nodeIdentityInt)
+	}
 
 	labelInt, err := d.decode(buffer)
 	if err != nil {
@@ -693,26 +697,35 @@ func (d DecoderV2) decodeNode(buffer *bytes.Buffer) (graph.Node, error) {
 
 func (d DecoderV2) decodeRelationship(buffer *bytes.Buffer) (graph.Relationship, error) {
 	rel := graph.Relationship{}
+	var ok bool
 
 	relIdentityInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
 	}
-	rel.RelIdentity = relIdentityInt.(int64)
+	rel.RelIdentity, ok = relIdentityInt.(int64)
+	if !ok {
+		return rel, errors.New("Expected: RelIdentity int64, but got %T %+v", relIdentityInt, relIdentityInt)
+	}
 
 	startNodeIdentityInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
 	}
-	rel.StartNodeIdentity = startNodeIdentityInt.(int64)
+	rel.StartNodeIdentity, ok = startNodeIdentityInt.(int64)
+	if !ok {
+		return rel, errors.New("Expected: StartNodeIdentity int64, but got %T %+v", startNodeIdentityInt, startNodeIdentityInt)
+	}
 
 	endNodeIdentityInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
 	}
-	rel.EndNodeIdentity = endNodeIdentityInt.(int64)
+	rel.EndNodeIdentity, ok = endNodeIdentityInt.(int64)
+	if !ok {
+		return rel, errors.New("Expected: EndNodeIdentity int64, but got %T %+v", endNodeIdentityInt, endNodeIdentityInt)
+	}
 
-	var ok bool
 	typeInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
@@ -778,14 +791,17 @@ func (d DecoderV2) decodePath(buffer *bytes.Buffer) (graph.Path, error) {
 
 func (d DecoderV2) decodeUnboundRelationship(buffer *bytes.Buffer) (graph.UnboundRelationship, error) {
 	rel := graph.UnboundRelationship{}
+	var ok bool
 
 	relIdentityInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
 	}
-	rel.RelIdentity = relIdentityInt.(int64)
+	rel.RelIdentity, ok = relIdentityInt.(int64)
+	if !ok {
+		return rel, errors.New("Expected: RelIdentity int64, but got %T %+v", relIdentityInt, relIdentityInt)
+	}
 
-	var ok bool
 	typeInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
diff --git a/encoding/util.go b/encoding/util.go
index b1409c6..bd6e2b0 100644
--- a/encoding/util.go
+++ b/encoding/util.go
@@ -20,7 +20,11 @@ func SliceInterfaceToString(from []interface{}) ([]string, error) {
 func SliceInterfaceToInt(from []interface{}) ([]int, error) {
 	to := make([]int, len(from))
 	for idx, item := range from {
-		to[idx] = int(item.(int64))
+		toItem, ok := item.(int64)
+		if !ok {
+			return nil, errors.New("Expected int value. Got %T %+v", item, item)
+		}
+		to[idx] = int(toItem)
 	}
 	return to, nil
 }
-- 
2.43.0


From df1f2cdbcf66f0fdd952103b4c3bda3a441cf966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:14 +0000
Subject: [PATCH 03/37] fix: limit the nesting depth of decoded messages

---
 encoding/encoding_v1/decoderV1.go | 13 +++++++++++--
 encoding/encoding_v2/decoderV2.go | 13 +++++++++++--
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/encoding/encoding_v1/decoderV1.go b/encoding/encoding_v1/decoderV1.go
index 3aa540c..2d38b67 100644
--- a/encoding/encoding_v1/decoderV1.go
+++ b/encoding/encoding_v1/decoderV1.go
@@ -12,6 +12,9 @@ import (
 	"github.com/mindstand/go-bolt/structures/messages"
 )
 
+// maxDepth is how deep the values of a message can be nested
+const maxDepth = 10000
+
 // DecoderV1 decodes a message from the bolt protocol stream
 // Attempts to support all builtin golang types, when it can be confidently
 // mapped to a data type from: http://alpha.neohq.net/docs/server-manual/bolt-serialization.html#bolt-packstream-structures
@@ -21,8 +24,9 @@ import (
 // map[string]interface{} and []interface{} are supported.
 // The interface for maps and slices may be more permissive in the future.
 type DecoderV1 struct {
-	r   io.Reader
-	buf *bytes.Buffer
+	r     io.Reader
+	buf   *bytes.Buffer
+	depth int
 }
 
 // NewDecoder Creates a new DecoderV1 object
@@ -101,6 +105,11 @@ func (d DecoderV1) Decode() (interface{}, error) {
 }
 
 func (d DecoderV1) decode(buffer *bytes.Buffer) (interface{}, error) {
+	// d is a copy, so this only counts for values nested in this one
+	d.depth++
+	if d.depth > maxDepth {
+		return nil, errors.New("Message is nested more than %d levels deep", maxDepth)
+	}
 
 	marker, err := buffer.ReadByte()
 	if err != nil {
diff --git a/encoding/encoding_v2/decoderV2.go b/encoding/encoding_v2/decoderV2.go
index e3170e6..d4f2ab7 100644
--- a/encoding/encoding_v2/decoderV2.go
+++ b/encoding/encoding_v2/decoderV2.go
@@ -15,9 +15,13 @@ import (
 	"time"
 )
 
+// maxDepth is how deep the values of a message can be nested
+const maxDepth = 10000
+
 type DecoderV2 struct {
-	r   io.Reader
-	buf *bytes.Buffer
+	r     io.Reader
+	buf   *bytes.Buffer
+	depth int
 }
 
 // NewDecoder Creates a new DecoderV2 object
@@ -96,6 +100,11 @@ func (d DecoderV2) Decode() (interface{}, error) {
 }
 
 func (d DecoderV2) decode(buffer *bytes.Buffer) (interface{}, error) {
+	// d is a copy, so this only counts for values nested in this one
+	d.depth++
+	if d.depth > maxDepth {
+		return nil, errors.New("Message is nested more than %d levels deep", maxDepth)
+	}
 
 	marker, err := buffer.ReadByte()
 	if err != nil {
-- 
2.43.0


From b109a59d0ff5e123513893b1234c06aa17b6733b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:40 +0000
Subject: [PATCH 04/37] fix: cut messages into correct chunks and send nothing
 of a message that fails to encode

---
 encoding/encoding_v1/encoderV1.go | 34 +++++++++++------------------
 encoding/encoding_v2/encoderV2.go | 36 ++++++++++++-------------------
 2 files changed, 27 insertions(+), 43 deletions(-)

diff --git a/encoding/encoding_v1/encoderV1.go b/encoding/encoding_v1/encoderV1.go
index ffcf13a..64bbe38 100644
--- a/encoding/encoding_v1/encoderV1.go
+++ b/encoding/encoding_v1/encoderV1.go
@@ -29,6 +29,11 @@ type EncoderV1 struct {
 
 // NewEncoder Creates a new EncoderV1 object
 func NewEncoder(w io.Writer, chunkSize uint16) EncoderV1 {
+	// a message can not be cut in chunks of size 0
+	if chunkSize == 0 {
+		chunkSize = math.MaxUint16
+	}
+
 	return EncoderV1{
 		w:         w,
 		buf:       &bytes.Buffer{},
@@ -43,7 +48,7 @@ func Marshal(v interface{}) ([]byte, error) {
 	return x.Bytes(), err
 }
 
-// write writes to the writer.  Buffers the writes using chunkSize.
+// write buffers the writes.  They get cut in chunks of chunkSize once the message is complete.
 func (e EncoderV1) Write(p []byte) (n int, err error) {
 	//log.Trace("in encode write")
 	//log.Trace(fmt.Sprintf("len writing is %v", len(p)))
@@ -55,32 +60,18 @@ func (e EncoderV1) Write(p []byte) (n int, err error) {
 		return n, err
 	}
 
-	length := e.buf.Len()
-	for length >= int(e.chunkSize) {
-		if err := binary.Write(e.w, binary.BigEndian, e.chunkSize); err != nil {
-			return 0, errors.Wrap(err, "An error occured writing chunksize")
-		}
-
-		numWritten, err := e.w.Write(e.buf.Next(int(e.chunkSize)))
-		if err != nil {
-			err = errors.Wrap(err, "An error occured writing a chunk")
-		}
-
-		return numWritten, err
-	}
-
 	return n, nil
 }
 
 // flush finishes the encoding stream by flushing it to the writer
 func (e EncoderV1) flush() error {
-	length := e.buf.Len()
-	if length > 0 {
-		if err := binary.Write(e.w, binary.BigEndian, uint16(length)); err != nil {
+	for e.buf.Len() > 0 {
+		chunk := e.buf.Next(int(e.chunkSize))
+		if err := binary.Write(e.w, binary.BigEndian, uint16(len(chunk))); err != nil {
 			return errors.Wrap(err, "An error occured writing length bytes during flush")
 		}
 
-		if _, err := e.buf.WriteTo(e.w); err != nil {
+		if _, err := e.w.Write(chunk); err != nil {
 			return errors.Wrap(err, "An error occured writing message bytes during flush")
 		}
 	}
@@ -89,20 +80,21 @@ func (e EncoderV1) flush() error {
 	if err != nil {
 		return errors.Wrap(err, "An error occurred ending encoding message")
 	}
-	e.buf.Reset()
 
 	return nil
 }
 
 // Encode encodes an object to the stream
 func (e EncoderV1) Encode(iVal interface{}) error {
+	// nothing of this message can be left behind for the next one, even if it fails
+	defer e.buf.Reset()
 
 	err := e.encode(iVal)
 	if err != nil {
 		return err
 	}
 
-	// Whatever is left in the buffer for the chunk at the end, write it out
+	// Only a complete message gets written out
 	return e.flush()
 }
 
diff --git a/encoding/encoding_v2/encoderV2.go b/encoding/encoding_v2/encoderV2.go
index 3d5f7cc..412e0c3 100644
--- a/encoding/encoding_v2/encoderV2.go
+++ b/encoding/encoding_v2/encoderV2.go
@@ -32,6 +32,11 @@ type EncoderV2 struct {
 
 // NewEncoder Creates a new EncoderV2 object
 func NewEncoder(w io.Writer, chunkSize uint16) EncoderV2 {
+	// a message can not be cut in chunks of size 0
+	if chunkSize == 0 {
+		chunkSize = math.MaxUint16
+	}
+
 	return EncoderV2{
 		w:         w,
 		buf:       &bytes.Buffer{},
@@ -46,7 +51,7 @@ func Marshal(v interface{}) ([]byte, error) {
 	return x.Bytes(), err
 }
 
-// write writes to the writer.  Buffers the writes using chunkSize.
+// write buffers the writes.  They get cut in chunks of chunkSize once the message is complete.
 func (e EncoderV2) Write(p []byte) (n int, err error) {
 	//log.Trace("in encode write")
 	//log.Trace(fmt.Sprintf("len writing is %v", len(p)))
@@ -58,34 +63,20 @@ func (e EncoderV2) Write(p []byte) (n int, err error) {
 		return n, err
 	}
 
-	length := e.buf.Len()
-	for length >= int(e.chunkSize) {
-		if err := binary.Write(e.w, binary.BigEndian, e.chunkSize); err != nil {
-			return 0, errors.Wrap(err, "An error occured writing chunksize")
-		}
-
-		numWritten, err := e.w.Write(e.buf.Next(int(e.chunkSize)))
-		if err != nil {
-			err = errors.Wrap(err, "An error occured writing a chunk")
-		}
-
-		return numWritten, err
-	}
-
 	return n, nil
 }
 
 // flush finishes the encoding stream by flushing it to the writer
 func (e EncoderV2) flush() error {
-	length := e.buf.Len()
-	if length > 0 {
-		log.TraceBytesFromBuf(e.buf)
+	log.TraceBytesFromBuf(e.buf)
 
-		if err := binary.Write(e.w, binary.BigEndian, uint16(length)); err != nil {
+	for e.buf.Len() > 0 {
+		chunk := e.buf.Next(int(e.chunkSize))
+		if err := binary.Write(e.w, binary.BigEndian, uint16(len(chunk))); err != nil {
 			return errors.Wrap(err, "An error occured writing length bytes during flush")
 		}
 
-		if _, err := e.buf.WriteTo(e.w); err != nil {
+		if _, err := e.w.Write(chunk); err != nil {
 			return errors.Wrap(err, "An error occured writing message bytes during flush")
 		}
 	}
@@ -94,20 +85,21 @@ func (e EncoderV2) flush() error {
 	if err != nil {
 		return errors.Wrap(err, "An error occurred ending encoding message")
 	}
-	e.buf.Reset()
 
 	return nil
 }
 
 // Encode encodes an object to the stream
 func (e EncoderV2) Encode(iVal interface{}) error {
+	// nothing of this message can be left behind for the next one, even if it fails
+	defer e.buf.Reset()
 
 	err := e.encode(iVal)
 	if err != nil {
 		return err
 	}
 
-	// Whatever is left in the buffer for the chunk at the end, write it out
+	// Only a complete message gets written out
 	return e.flush()
 }
 
-- 
2.43.0


From 36d14fa69c1d94ffba278d8d111c2cafdfbd9995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:41 +0000
Subject: [PATCH 05/37] fix: send the DISCARD metadata on protocol 4 and
 DISCARD_ALL on protocol 3

---
 protocol/protocol_v3/bolt.go   | 2 +-
 structures/messages/discard.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/protocol/protocol_v3/bolt.go b/protocol/protocol_v3/bolt.go
index fae8b4a..2eca833 100644
--- a/protocol/protocol_v3/bolt.go
+++ b/protocol/protocol_v3/bolt.go
@@ -20,7 +20,7 @@ func (b *BoltProtocolV3) GetResultConsumedAfterKey() string {
 }
 
 func (b *BoltProtocolV3) GetDiscardMessage(qid int64) structures.Structure {
-	return messages.NewDiscardMessage(messages.StreamUnlimited, qid)
+	return messages.NewDiscardAllMessage()
 }
 
 func (b *BoltProtocolV3) GetDiscardAllMessage() structures.Structure {
diff --git a/structures/messages/discard.go b/structures/messages/discard.go
index 1be4272..451aa70 100644
--- a/structures/messages/discard.go
+++ b/structures/messages/discard.go
@@ -33,5 +33,5 @@ func (i DiscardMessage) Signature() int {
 
 // AllFields gets the fields to encode for the struct
 func (i DiscardMessage) AllFields() []interface{} {
-	return []interface{}{}
+	return []interface{}{i.metadata}
 }
-- 
2.43.0


From 335b4b569749ffd2769e8b0af566d1590b110509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:43 +0000
Subject: [PATCH 06/37] fix: request read access only in read mode

---
 connection/connection.go       | 7 ++++---
 structures/messages/builder.go | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/connection/connection.go b/connection/connection.go
index 2308c83..9ef2975 100644
--- a/connection/connection.go
+++ b/connection/connection.go
@@ -112,9 +112,10 @@ func newConnectionFromConnectionString(connStr string) (*Connection, error) {
 	}
 
 	connection := Connection{
-		timeout:   time.Second * time.Duration(60),
-		chunkSize: math.MaxUint16,
-		mutex:     sync.Mutex{},
+		accessMode: bolt_mode.WriteMode,
+		timeout:    time.Second * time.Duration(60),
+		chunkSize:  math.MaxUint16,
+		mutex:      sync.Mutex{},
 	}
 
 	connection.hostPort = _url.Host
diff --git a/structures/messages/builder.go b/structures/messages/builder.go
index fe4f891..abfc6d1 100644
--- a/structures/messages/builder.go
+++ b/structures/messages/builder.go
@@ -25,7 +25,7 @@ func BuildTxMetadataWithDatabase(txTimeout *time.Duration, txMetadata map[string
 	bookmarksPresent := false
 	txTimeoutPresent := txTimeout != nil && *txTimeout != 0
 	txMetaDataPresent := txMetadata != nil && len(txMetadata) != 0
-	accessModePresent := mode != bolt_mode.ReadMode
+	accessModePresent := mode == bolt_mode.ReadMode
 	databaseNamePresent := databaseName != ""
 
 	if !bookmarksPresent && !txTimeoutPresent && !txMetaDataPresent && !accessModePresent && !databaseNamePresent {
-- 
2.43.0


From a62cc9af0ca0a7001c3e2684c592cc1bb03546c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:44 +0000
Subject: [PATCH 07/37] fix: send the authentication realm when there is one

---
 structures/messages/init.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structures/messages/init.go b/structures/messages/init.go
index dc1a48f..f8ba096 100644
--- a/structures/messages/init.go
+++ b/structures/messages/init.go
@@ -28,7 +28,7 @@ func BuildAuthTokenBasicWithRealm(username, password, realm string) map[string]i
 		CredentialsKey: password,
 	}
 
-	if realm == "" {
+	if realm != "" {
 		toReturn[RealmKey] = realm
 	}
 
-- 
2.43.0


From 5b83c299615a3cc5976e0bc7e9b637740a21fb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:45 +0000
Subject: [PATCH 08/37] fix: do not print decoded local times

---
 encoding/encoding_v2/decoderV2.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/encoding/encoding_v2/decoderV2.go b/encoding/encoding_v2/decoderV2.go
index d4f2ab7..1aaa8d9 100644
--- a/encoding/encoding_v2/decoderV2.go
+++ b/encoding/encoding_v2/decoderV2.go
@@ -415,7 +415,6 @@ func (d DecoderV2) decodeLocalTime(buffer *bytes.Buffer) (gotime.LocalClock, err
 	}
 
 	nanoOfDayLocal, ok := nanoOfDayLocalI.(int64)
-	fmt.Println(nanoOfDayLocal)
 	if !ok {
 		return gotime.LocalClock{}, fmt.Errorf("unable to cast [%T] to [int64]", nanoOfDayLocalI)
 	}
-- 
2.43.0


From 9c642d03d59749e4f7005f01a22c054e824c57ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:45 +0000
Subject: [PATCH 09/37] fix: let decoded points be encoded again

---
 structures/types/point.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/structures/types/point.go b/structures/types/point.go
index 6b7dff2..defac79 100644
--- a/structures/types/point.go
+++ b/structures/types/point.go
@@ -13,11 +13,11 @@ type Point2D struct {
 	X, Y float64
 }
 
-func (p *Point2D) Signature() int {
+func (p Point2D) Signature() int {
 	return int(Point2DStructSignature)
 }
 
-func (p *Point2D) AllFields() []interface{} {
+func (p Point2D) AllFields() []interface{} {
 	return []interface{}{p.SRID, p.X, p.Y}
 }
 
@@ -26,10 +26,10 @@ type Point3D struct {
 	X, Y, Z float64
 }
 
-func (p *Point3D) Signature() int {
+func (p Point3D) Signature() int {
 	return int(Point3DStructSignature)
 }
 
-func (p *Point3D) AllFields() []interface{} {
+func (p Point3D) AllFields() []interface{} {
 	return []interface{}{p.SRID, p.X, p.Y, p.Z}
 }
-- 
2.43.0


From c59cb318468baeacefdadd48dc98ed5289c4784a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:46 +0000
Subject: [PATCH 10/37] fix: encode and decode durations as the sum of their
 fields

---
 encoding/encoding_v2/decoderV2.go | 10 +++++++++-
 encoding/encoding_v2/encoderV2.go |  9 +++++----
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/encoding/encoding_v2/decoderV2.go b/encoding/encoding_v2/decoderV2.go
index 1aaa8d9..afedb98 100644
--- a/encoding/encoding_v2/decoderV2.go
+++ b/encoding/encoding_v2/decoderV2.go
@@ -15,6 +15,12 @@ import (
 	"time"
 )
 
+const (
+	// secondsPerMonth is the length of an average month, as used by neo4j
+	secondsPerMonth = 2629746
+	secondsPerDay   = 86400
+)
+
 // maxDepth is how deep the values of a message can be nested
 const maxDepth = 10000
 
@@ -574,7 +580,9 @@ func (d DecoderV2) decodeDuration(buffer *bytes.Buffer) (time.Duration, error) {
 		return -1, fmt.Errorf("unable to cast [%T] to [int64]", nanoSecondsI)
 	}
 
-	return time.Duration(month * days * seconds * nanoSeconds), nil
+	seconds += month*secondsPerMonth + days*secondsPerDay
+
+	return time.Duration(seconds)*time.Second + time.Duration(nanoSeconds), nil
 }
 
 func (d DecoderV2) decodePoint2D(buffer *bytes.Buffer) (types.Point2D, error) {
diff --git a/encoding/encoding_v2/encoderV2.go b/encoding/encoding_v2/encoderV2.go
index 412e0c3..cc75260 100644
--- a/encoding/encoding_v2/encoderV2.go
+++ b/encoding/encoding_v2/encoderV2.go
@@ -295,10 +295,11 @@ func (e EncoderV2) encodeTime(t time.Time) error {
 }
 
 func (e EncoderV2) encodeDuration(d time.Duration) error {
-	months := d.Seconds() / 2600640
-	days := d.Seconds() / 86400
-	seconds := d.Seconds()
-	nano := d.Nanoseconds()
+	// the fields add up, so the whole duration goes in the exact ones
+	months := int64(0)
+	days := int64(0)
+	seconds := int64(d / time.Second)
+	nano := int64(d % time.Second)
 
 	_, err := e.Write([]byte{byte(encode_consts.TinyStructMarker | encode_consts.DurationTimeStructSize)})
 	if err != nil {
-- 
2.43.0


From f2fd17862f7eb006faf37698dcebe83b37c87b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:10 +0000
Subject: [PATCH 11/37] fix: accept a version selection that arrives in pieces

---
 connection/connection.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/connection/connection.go b/connection/connection.go
index 9ef2975..3459b09 100644
--- a/connection/connection.go
+++ b/connection/connection.go
@@ -243,7 +243,7 @@ func (c *Connection) handshake() ([]byte, error) {
 	}
 
 	version := make([]byte, 4, 4)
-	numRead, err := c.readWrite.Read(version)
+	numRead, err := io.ReadFull(c.readWrite, version)
 	if err != nil {
 		return nil, err
 	} else if numRead != 4 {
-- 
2.43.0


From 06866bb3b5a29b6ee48e601c696257b24af9faeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:11 +0000
Subject: [PATCH 12/37] fix: report the server closing the connection as a bad
 connection

---
 connection/connection.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/connection/connection.go b/connection/connection.go
index 3459b09..394e9b9 100644
--- a/connection/connection.go
+++ b/connection/connection.go
@@ -47,7 +47,7 @@ func (r *readWrite) Read(p []byte) (n int, err error) {
 	}
 
 	n, err = r.connection.conn.Read(p)
-	if err != nil && err != io.EOF {
+	if err != nil {
 		err = driver.ErrBadConn
 	}
 	return n, err
-- 
2.43.0


From 6822c8106684a46e947d3a7dde6caa3eca924c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:12 +0000
Subject: [PATCH 13/37] fix: apply the timeout to TLS dials and refuse timeouts
 that are not positive

---
 client.go                | 4 ++--
 connection/connection.go | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/client.go b/client.go
index a9002be..1bbd0de 100644
--- a/client.go
+++ b/client.go
@@ -139,8 +139,8 @@ func NewClient(opts ...Opt) (IClient, error) {
 		timeout := _url.Query().Get("timeout")
 		if timeout != "" {
 			timeoutInt, err := strconv.Atoi(timeout)
-			if err != nil {
-				return nil, fmt.Errorf("Invalid format for timeout: %s.  Must be integer", timeout)
+			if err != nil || timeoutInt <= 0 {
+				return nil, fmt.Errorf("Invalid format for timeout: %s.  Must be a positive integer", timeout)
 			}
 
 			client.timeout = time.Duration(timeoutInt) * time.Second
diff --git a/connection/connection.go b/connection/connection.go
index 394e9b9..36c57a6 100644
--- a/connection/connection.go
+++ b/connection/connection.go
@@ -132,8 +132,8 @@ func newConnectionFromConnectionString(connStr string) (*Connection, error) {
 	timeout := _url.Query().Get("timeout")
 	if timeout != "" {
 		timeoutInt, err := strconv.Atoi(timeout)
-		if err != nil {
-			return nil, fmt.Errorf("Invalid format for timeout: %s.  Must be integer", timeout)
+		if err != nil || timeoutInt <= 0 {
+			return nil, fmt.Errorf("Invalid format for timeout: %s.  Must be a positive integer", timeout)
 		}
 
 		connection.timeout = time.Duration(timeoutInt) * time.Second
@@ -179,7 +179,7 @@ func (c *Connection) createConnection() error {
 			return err
 		}
 
-		conn, err = tls.Dial("tcp", c.hostPort, config)
+		conn, err = tls.DialWithDialer(&net.Dialer{Timeout: c.timeout}, "tcp", c.hostPort, config)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 021517b0567f6ae7a0b59d4154695f815c4a1ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:13 +0000
Subject: [PATCH 14/37] fix: close the socket of a connection that could not be
 initialised

---
 connection/connection.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/connection/connection.go b/connection/connection.go
index 36c57a6..58cb78d 100644
--- a/connection/connection.go
+++ b/connection/connection.go
@@ -97,6 +97,7 @@ func CreateBoltConn(connStr string) (IConnection, error) {
 
 	err = conn.initialize()
 	if err != nil {
+		conn.fail()
 		return nil, err
 	}
 
@@ -301,7 +302,7 @@ func (c *Connection) sendInit(message structures.Structure) error {
 		return nil
 	default:
 		log.Errorf("Got an unrecognized message when initializing connection :%+v", resp)
-		return c.Close()
+		return errors.New("Unrecognized response type initializing connection: %#v", resp)
 	}
 }
 
@@ -460,6 +461,15 @@ func (c *Connection) Close() error {
 	return nil
 }
 
+// fail closes the socket without any further exchange, because the requests and
+// replies on it are out of step
+func (c *Connection) fail() {
+	c.closed = true
+	if c.conn != nil {
+		c.conn.Close()
+	}
+}
+
 func (c *Connection) MakeIdle() error {
 	if c.transaction != nil {
 		return c.transaction.Rollback()
-- 
2.43.0


From 1300b29c10d135aaa357e3db87433a152ab8437e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:14 +0000
Subject: [PATCH 15/37] fix: close the socket even if rolling back or saying
 goodbye fails

---
 connection/connection.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/connection/connection.go b/connection/connection.go
index 58cb78d..0c75d3b 100644
--- a/connection/connection.go
+++ b/connection/connection.go
@@ -432,6 +432,13 @@ func (c *Connection) Close() error {
 		return errors.ErrClosed
 	}
 
+	if c.conn == nil {
+		return errors.New("can not close nil transaction")
+	}
+
+	// whatever goes wrong on the way, the socket gets closed
+	defer c.fail()
+
 	if c.transaction != nil {
 		err := c.transaction.Rollback()
 		if err != nil {
@@ -439,10 +446,6 @@ func (c *Connection) Close() error {
 		}
 	}
 
-	if c.conn == nil {
-		return errors.New("can not close nil transaction")
-	}
-
 	if msg, ok := c.boltProtocol.GetCloseMessage(); ok {
 		err := c.sendMessage(msg)
 		if err != nil {
-- 
2.43.0


From a724ede6947276de272bb6bd771837e87d178666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:32 +0000
Subject: [PATCH 16/37] fix: close a connection whose requests and replies are
 out of step

---
 connection/connection.go  | 26 ++++++++++++++++++++------
 connection/transaction.go |  6 ++++++
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/connection/connection.go b/connection/connection.go
index 0c75d3b..a939e9b 100644
--- a/connection/connection.go
+++ b/connection/connection.go
@@ -30,12 +30,14 @@ type readWrite struct {
 func (r *readWrite) Write(p []byte) (n int, err error) {
 	if err := r.connection.conn.SetWriteDeadline(time.Now().Add(r.connection.timeout)); err != nil {
 		//c.connErr = errors.Wrap(err, "An error occurred setting write deadline")
+		r.connection.fail()
 		return 0, driver.ErrBadConn
 	}
 
 	n, err = r.connection.conn.Write(p)
 
 	if err != nil {
+		r.connection.fail()
 		err = driver.ErrBadConn
 	}
 	return n, err
@@ -43,11 +45,13 @@ func (r *readWrite) Write(p []byte) (n int, err error) {
 
 func (r *readWrite) Read(p []byte) (n int, err error) {
 	if err := r.connection.conn.SetReadDeadline(time.Now().Add(r.connection.timeout)); err != nil {
+		r.connection.fail()
 		return 0, driver.ErrBadConn
 	}
 
 	n, err = r.connection.conn.Read(p)
 	if err != nil {
+		r.connection.fail()
 		err = driver.ErrBadConn
 	}
 	return n, err
@@ -392,6 +396,7 @@ func (c *Connection) runQuery(query string, params QueryParams, dbName string, i
 	log.Tracef("running pull all")
 	err = c.sendMessage(c.boltProtocol.GetPullAllMessage())
 	if err != nil {
+		c.fail()
 		return nil, nil, err
 	}
 
@@ -404,6 +409,7 @@ func (c *Connection) runQuery(query string, params QueryParams, dbName string, i
 
 	_, ok := resp.(messages.SuccessMessage)
 	if !ok {
+		c.fail()
 		return nil, nil, fmt.Errorf("unexpected response of type [%T], should be [messages.SuccessMessage]", resp)
 	}
 
@@ -422,6 +428,7 @@ func (c *Connection) runQuery(query string, params QueryParams, dbName string, i
 			log.Tracef("Got record message: %#v", resp)
 			output = append(output, resp.Fields)
 		default:
+			c.fail()
 			return nil, nil, errors.New("Unrecognized response type getting next runQuery row: %#v", resp)
 		}
 	}
@@ -467,6 +474,10 @@ func (c *Connection) Close() error {
 // fail closes the socket without any further exchange, because the requests and
 // replies on it are out of step
 func (c *Connection) fail() {
+	if c.closed {
+		return
+	}
+
 	c.closed = true
 	if c.conn != nil {
 		c.conn.Close()
@@ -503,6 +514,7 @@ func (c *Connection) BeginWithDatabase(db string) (ITransaction, error) {
 	if !isBeginMsg {
 		err = c.sendMessage(c.boltProtocol.GetPullAllMessage())
 		if err != nil {
+			c.fail()
 			return nil, err
 		}
 	}
@@ -522,12 +534,14 @@ func (c *Connection) BeginWithDatabase(db string) (ITransaction, error) {
 
 	success, ok := runSucc.(messages.SuccessMessage)
 	if !ok {
+		c.fail()
 		return nil, errors.New("Unrecognized response type beginning transaction: %#v", success)
 	}
 
 	if !isBeginMsg {
 		pull, ok := pullSucc.(messages.SuccessMessage)
 		if !ok {
+			c.fail()
 			return nil, errors.New("Unrecognized response beginning transaction:  %#v", pull)
 		}
 	}
@@ -565,6 +579,7 @@ func (c *Connection) consume() (interface{}, error) {
 
 	respInt, err := c.boltProtocol.NewDecoder(c.readWrite).Decode()
 	if err != nil {
+		c.fail()
 		return respInt, err
 	}
 
@@ -576,7 +591,7 @@ func (c *Connection) consume() (interface{}, error) {
 		log.Errorf("Got failure message: %#v", failure)
 		err := c.reset()
 		if err != nil {
-			return nil, errors.Wrap(failure, err.Error())
+			return nil, errors.Wrap(failure, "%s", err.Error())
 		}
 		return failure, errors.Wrap(failure, "Neo4J reported a failure for the runQuery")
 	}
@@ -590,12 +605,14 @@ func (c *Connection) reset() error {
 	reset := messages.NewResetMessage()
 	err := c.boltProtocol.NewEncoder(c.readWrite, c.chunkSize).Encode(reset)
 	if err != nil {
+		c.fail()
 		return errors.Wrap(err, "An error occurred encoding reset message")
 	}
 
 	for {
 		respInt, err := c.boltProtocol.NewDecoder(c.readWrite).Decode()
 		if err != nil {
+			c.fail()
 			return errors.Wrap(err, "An error occurred decoding reset message response")
 		}
 
@@ -608,14 +625,11 @@ func (c *Connection) reset() error {
 			return nil
 		case messages.FailureMessage:
 			log.Errorf("Got failure message when resetting session: %#v", resp)
-			err = c.Close()
-			if err != nil {
-				log.Errorf("An error occurred closing the session: %s", err)
-			}
+			c.fail()
 			return errors.Wrap(resp, "Error resetting session. CLOSING SESSION!")
 		default:
 			log.Errorf("Got unrecognized response from resetting session: %#v", resp)
-			c.Close()
+			c.fail()
 			return driver.ErrBadConn
 		}
 	}
diff --git a/connection/transaction.go b/connection/transaction.go
index 36a14d3..cbb64ab 100644
--- a/connection/transaction.go
+++ b/connection/transaction.go
@@ -68,6 +68,7 @@ func (t *boltTransaction) Commit() error {
 	if !isCommitType {
 		err = t.conn.sendMessage(t.conn.boltProtocol.GetPullAllMessage())
 		if err != nil {
+			t.conn.fail()
 			return err
 		}
 	}
@@ -88,6 +89,7 @@ func (t *boltTransaction) Commit() error {
 
 	success, ok := runSucc.(messages.SuccessMessage)
 	if !ok {
+		t.conn.fail()
 		return errors.New("Unrecognized response type committing transaction: %#v", success)
 	}
 
@@ -96,6 +98,7 @@ func (t *boltTransaction) Commit() error {
 	if !isCommitType {
 		pull, ok := pullSucc.(messages.SuccessMessage)
 		if !ok {
+			t.conn.fail()
 			return errors.New("Unrecognized response type pulling transaction:  %#v", pull)
 		}
 
@@ -129,6 +132,7 @@ func (t *boltTransaction) Rollback() error {
 	if !isRollbackType {
 		err = t.conn.sendMessage(t.conn.boltProtocol.GetPullAllMessage())
 		if err != nil {
+			t.conn.fail()
 			return err
 		}
 	}
@@ -149,6 +153,7 @@ func (t *boltTransaction) Rollback() error {
 
 	success, ok := runSucc.(messages.SuccessMessage)
 	if !ok {
+		t.conn.fail()
 		return errors.New("Unrecognized response type rolling back transaction: %#v", success)
 	}
 
@@ -157,6 +162,7 @@ func (t *boltTransaction) Rollback() error {
 	if !isRollbackType {
 		pull, ok := pullSucc.(messages.SuccessMessage)
 		if !ok {
+			t.conn.fail()
 			return errors.New("Unrecognized response type pulling transaction:  %#v", pull)
 		}
 
-- 
2.43.0


From aba318bda6d3e2030290738c38b14e510480fbca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:33 +0000
Subject: [PATCH 17/37] fix: refuse operations on transactions that ended and
 keep Exec in its transaction

---
 connection/connection.go  | 27 ++++++++++++++++++++++-----
 connection/transaction.go | 14 +++++++++++---
 2 files changed, 33 insertions(+), 8 deletions(-)

diff --git a/connection/connection.go b/connection/connection.go
index a939e9b..98717de 100644
--- a/connection/connection.go
+++ b/connection/connection.go
@@ -79,7 +79,7 @@ type Connection struct {
 
 	// handlers
 	readWrite   *readWrite
-	transaction ITransaction
+	transaction *boltTransaction
 
 	// connection stuff
 	timeout   time.Duration
@@ -351,7 +351,7 @@ func (c *Connection) ExecWithDb(query string, params QueryParams, db string) (IR
 		return nil, fmt.Errorf("bolt protocol version [%v] does not have multi database support", c.protocolVersion)
 	}
 
-	_, metadata, err := c.runQuery(query, params, db, false)
+	_, metadata, err := c.runQuery(query, params, db, nil)
 	if err != nil {
 		return nil, err
 	}
@@ -368,7 +368,7 @@ func (c *Connection) QueryWithDb(query string, params QueryParams, db string) ([
 		return nil, nil, fmt.Errorf("bolt protocol version [%v] does not have multi database support", c.protocolVersion)
 	}
 
-	rows, metadata, err := c.runQuery(query, params, db, false)
+	rows, metadata, err := c.runQuery(query, params, db, nil)
 	if err != nil {
 		return nil, nil, err
 	}
@@ -376,7 +376,7 @@ func (c *Connection) QueryWithDb(query string, params QueryParams, db string) ([
 	return rows, newBoltResult(metadata), nil
 }
 
-func (c *Connection) runQuery(query string, params QueryParams, dbName string, inTx bool) ([][]interface{}, map[string]interface{}, error) {
+func (c *Connection) runQuery(query string, params QueryParams, dbName string, tx *boltTransaction) ([][]interface{}, map[string]interface{}, error) {
 	c.mutex.Lock()
 	defer c.mutex.Unlock()
 	if c.openQuery {
@@ -387,8 +387,12 @@ func (c *Connection) runQuery(query string, params QueryParams, dbName string, i
 		return nil, nil, errors.New("connection already closed")
 	}
 
+	if tx != nil && tx.closed {
+		return nil, nil, errors.New("Transaction already closed")
+	}
+
 	log.Tracef("running query")
-	err := c.sendMessage(c.boltProtocol.GetRunMessage(query, params, dbName, c.accessMode, !inTx))
+	err := c.sendMessage(c.boltProtocol.GetRunMessage(query, params, dbName, c.accessMode, tx == nil))
 	if err != nil {
 		return nil, nil, err
 	}
@@ -479,11 +483,20 @@ func (c *Connection) fail() {
 	}
 
 	c.closed = true
+	c.endTransaction()
 	if c.conn != nil {
 		c.conn.Close()
 	}
 }
 
+// endTransaction makes the open transaction refuse everything from now on
+func (c *Connection) endTransaction() {
+	if c.transaction != nil {
+		c.transaction.closed = true
+		c.transaction = nil
+	}
+}
+
 func (c *Connection) MakeIdle() error {
 	if c.transaction != nil {
 		return c.transaction.Rollback()
@@ -589,6 +602,10 @@ func (c *Connection) consume() (interface{}, error) {
 
 	if failure, isFail := respInt.(messages.FailureMessage); isFail {
 		log.Errorf("Got failure message: %#v", failure)
+
+		// the server gives up the open transaction when it gets reset
+		c.endTransaction()
+
 		err := c.reset()
 		if err != nil {
 			return nil, errors.Wrap(failure, "%s", err.Error())
diff --git a/connection/transaction.go b/connection/transaction.go
index cbb64ab..3596c70 100644
--- a/connection/transaction.go
+++ b/connection/transaction.go
@@ -13,7 +13,7 @@ type boltTransaction struct {
 }
 
 func (t *boltTransaction) Exec(query string, params QueryParams) (IResult, error) {
-	return t.conn.Exec(query, params)
+	return t.ExecWithDb(query, params, "")
 }
 
 func (t *boltTransaction) ExecWithDb(query string, params QueryParams, db string) (IResult, error) {
@@ -21,7 +21,7 @@ func (t *boltTransaction) ExecWithDb(query string, params QueryParams, db string
 		return nil, fmt.Errorf("bolt protocol version [%v] does not have multi database support", t.conn.protocolVersion)
 	}
 
-	_, metadata, err := t.conn.runQuery(query, params, db, true)
+	_, metadata, err := t.conn.runQuery(query, params, db, t)
 	if err != nil {
 		return nil, err
 	}
@@ -38,7 +38,7 @@ func (t *boltTransaction) QueryWithDb(query string, params QueryParams, db strin
 		return nil, nil, fmt.Errorf("bolt protocol version [%v] does not have multi database support", t.conn.protocolVersion)
 	}
 
-	rows, metadata, err := t.conn.runQuery(query, params, db, true)
+	rows, metadata, err := t.conn.runQuery(query, params, db, t)
 	if err != nil {
 		return nil, nil, err
 	}
@@ -51,6 +51,10 @@ func (t *boltTransaction) Commit() error {
 		return errors.New("Transaction already closed")
 	}
 
+	if t.conn.closed {
+		return errors.New("connection already closed")
+	}
+
 	if t.conn.openQuery {
 		//?
 	}
@@ -115,6 +119,10 @@ func (t *boltTransaction) Rollback() error {
 		return errors.New("Transaction already closed")
 	}
 
+	if t.conn.closed {
+		return errors.New("connection already closed")
+	}
+
 	if t.conn.openQuery {
 		//?
 	}
-- 
2.43.0


From 90f9dfc8c93ccb2c29e6f38c4ed82f4dbf030d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:34 +0000
Subject: [PATCH 18/37] fix: refuse databases a transaction can not run on

---
 connection/connection.go  |  5 +++++
 connection/transaction.go | 11 +++++++++++
 2 files changed, 16 insertions(+)

diff --git a/connection/connection.go b/connection/connection.go
index 98717de..fdf8618 100644
--- a/connection/connection.go
+++ b/connection/connection.go
@@ -506,6 +506,10 @@ func (c *Connection) MakeIdle() error {
 }
 
 func (c *Connection) BeginWithDatabase(db string) (ITransaction, error) {
+	if !c.boltProtocol.SupportsMultiDatabase() && db != "" {
+		return nil, fmt.Errorf("bolt protocol version [%v] does not have multi database support", c.protocolVersion)
+	}
+
 	if c.transaction != nil {
 		return nil, errors.New("transaction already open")
 	}
@@ -561,6 +565,7 @@ func (c *Connection) BeginWithDatabase(db string) (ITransaction, error) {
 
 	c.transaction = &boltTransaction{
 		conn:   c,
+		db:     db,
 		closed: false,
 	}
 
diff --git a/connection/transaction.go b/connection/transaction.go
index 3596c70..04e1854 100644
--- a/connection/transaction.go
+++ b/connection/transaction.go
@@ -9,6 +9,7 @@ import (
 
 type boltTransaction struct {
 	conn   *Connection
+	db     string
 	closed bool
 }
 
@@ -21,6 +22,11 @@ func (t *boltTransaction) ExecWithDb(query string, params QueryParams, db string
 		return nil, fmt.Errorf("bolt protocol version [%v] does not have multi database support", t.conn.protocolVersion)
 	}
 
+	// a transaction runs in the database it was started on
+	if db != "" && db != t.db {
+		return nil, fmt.Errorf("transaction runs on database [%s], can not run on [%s]", t.db, db)
+	}
+
 	_, metadata, err := t.conn.runQuery(query, params, db, t)
 	if err != nil {
 		return nil, err
@@ -38,6 +44,11 @@ func (t *boltTransaction) QueryWithDb(query string, params QueryParams, db strin
 		return nil, nil, fmt.Errorf("bolt protocol version [%v] does not have multi database support", t.conn.protocolVersion)
 	}
 
+	// a transaction runs in the database it was started on
+	if db != "" && db != t.db {
+		return nil, nil, fmt.Errorf("transaction runs on database [%s], can not run on [%s]", t.db, db)
+	}
+
 	rows, metadata, err := t.conn.runQuery(query, params, db, t)
 	if err != nil {
 		return nil, nil, err
-- 
2.43.0


From dd38a48415c2a5fdadd62924e9f00f08d1cc6919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:35 +0000
Subject: [PATCH 19/37] fix: take the connection mutex for every exchange

---
 connection/connection.go  | 16 ++++++++++++++--
 connection/transaction.go | 14 ++++++++++++++
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/connection/connection.go b/connection/connection.go
index fdf8618..b552b46 100644
--- a/connection/connection.go
+++ b/connection/connection.go
@@ -312,6 +312,9 @@ func (c *Connection) sendInit(message structures.Structure) error {
 
 func (c *Connection) ValidateOpen() bool {
 	//log.Tracef("checking validate open")
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+
 	if c.closed {
 		return false
 	}
@@ -439,6 +442,9 @@ func (c *Connection) runQuery(query string, params QueryParams, dbName string, t
 }
 
 func (c *Connection) Close() error {
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+
 	if c.closed {
 		return errors.ErrClosed
 	}
@@ -451,7 +457,7 @@ func (c *Connection) Close() error {
 	defer c.fail()
 
 	if c.transaction != nil {
-		err := c.transaction.Rollback()
+		err := c.transaction.rollback()
 		if err != nil {
 			return err
 		}
@@ -498,8 +504,11 @@ func (c *Connection) endTransaction() {
 }
 
 func (c *Connection) MakeIdle() error {
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+
 	if c.transaction != nil {
-		return c.transaction.Rollback()
+		return c.transaction.rollback()
 	}
 
 	return nil
@@ -510,6 +519,9 @@ func (c *Connection) BeginWithDatabase(db string) (ITransaction, error) {
 		return nil, fmt.Errorf("bolt protocol version [%v] does not have multi database support", c.protocolVersion)
 	}
 
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+
 	if c.transaction != nil {
 		return nil, errors.New("transaction already open")
 	}
diff --git a/connection/transaction.go b/connection/transaction.go
index 04e1854..5922545 100644
--- a/connection/transaction.go
+++ b/connection/transaction.go
@@ -58,6 +58,9 @@ func (t *boltTransaction) QueryWithDb(query string, params QueryParams, db strin
 }
 
 func (t *boltTransaction) Commit() error {
+	t.conn.mutex.Lock()
+	defer t.conn.mutex.Unlock()
+
 	if t.closed {
 		return errors.New("Transaction already closed")
 	}
@@ -126,6 +129,14 @@ func (t *boltTransaction) Commit() error {
 }
 
 func (t *boltTransaction) Rollback() error {
+	t.conn.mutex.Lock()
+	defer t.conn.mutex.Unlock()
+
+	return t.rollback()
+}
+
+// rollback rolls back the transaction, the caller has to hold the mutex of the connection
+func (t *boltTransaction) rollback() error {
 	if t.closed {
 		return errors.New("Transaction already closed")
 	}
@@ -194,5 +205,8 @@ func (t *boltTransaction) Rollback() error {
 }
 
 func (t *boltTransaction) IsClosed() bool {
+	t.conn.mutex.Lock()
+	defer t.conn.mutex.Unlock()
+
 	return t.closed
 }
-- 
2.43.0


From 4329c758db4d2ecbf572e2720ec5577ab7aa6965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:36 +0000
Subject: [PATCH 20/37] fix: detect dead connections in ValidateOpen

---
 connection/connection.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/connection/connection.go b/connection/connection.go
index b552b46..c3e3efb 100644
--- a/connection/connection.go
+++ b/connection/connection.go
@@ -324,15 +324,17 @@ func (c *Connection) ValidateOpen() bool {
 	}
 
 	one := make([]byte, 1)
-	err := c.conn.SetReadDeadline(time.Now())
+	// nothing gets read at all if the deadline already passed
+	err := c.conn.SetReadDeadline(time.Now().Add(time.Millisecond))
 	if err != nil {
 		return false
 	}
-	if _, err := c.conn.Read(one); err == io.EOF {
-		return false
-	} else {
-		return true
-	}
+
+	// the server has nothing to say on an idle connection, so running
+	// into the deadline is the only thing an open connection does
+	_, err = c.conn.Read(one)
+	netErr, ok := err.(net.Error)
+	return ok && netErr.Timeout()
 }
 
 // Sets the size of the chunks to write to the stream
-- 
2.43.0


From 048c2a2d3a93afa9524e1404841e1146dc5e39bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:37 +0000
Subject: [PATCH 21/37] fix: do not panic on missing or malformed statistics

---
 connection/result.go | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/connection/result.go b/connection/result.go
index 12159c6..987ef24 100644
--- a/connection/result.go
+++ b/connection/result.go
@@ -30,8 +30,11 @@ func (b *boltResult) GetNodesCreated() (int64, bool) {
 		return -1, false
 	}
 
-	num, ok := stats["nodes-created"]
-	return num.(int64), ok
+	num, ok := stats["nodes-created"].(int64)
+	if !ok {
+		return -1, false
+	}
+	return num, ok
 }
 
 func (b *boltResult) GetRelationshipsCreated() (int64, bool) {
@@ -40,8 +43,11 @@ func (b *boltResult) GetRelationshipsCreated() (int64, bool) {
 		return -1, false
 	}
 
-	num, ok := stats["relationships-created"]
-	return num.(int64), ok
+	num, ok := stats["relationships-created"].(int64)
+	if !ok {
+		return -1, false
+	}
+	return num, ok
 }
 
 func (b *boltResult) GetNodesDeleted() (int64, bool) {
@@ -50,11 +56,11 @@ func (b *boltResult) GetNodesDeleted() (int64, bool) {
 		return -1, false
 	}
 
-	num, ok := stats["nodes-deleted"]
+	num, ok := stats["nodes-deleted"].(int64)
 	if !ok {
 		return -1, false
 	}
-	return num.(int64), ok
+	return num, ok
 }
 
 func (b *boltResult) GetRelationshipsDeleted() (int64, bool) {
@@ -63,8 +69,11 @@ func (b *boltResult) GetRelationshipsDeleted() (int64, bool) {
 		return -1, false
 	}
 
-	num, ok := stats["relationships-deleted"]
-	return num.(int64), ok
+	num, ok := stats["relationships-deleted"].(int64)
+	if !ok {
+		return -1, false
+	}
+	return num, ok
 }
 
 func (b *boltResult) Metadata() map[string]interface{} {
-- 
2.43.0


From b8cd621ed9125bfd770c8a81e079e2aa2fd3fb8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:17 +0000
Subject: [PATCH 22/37] fix: request TLS and escape credentials and paths in
 connection strings

---
 client.go | 36 +++++++++++-------------------------
 1 file changed, 11 insertions(+), 25 deletions(-)

diff --git a/client.go b/client.go
index 1bbd0de..46fc018 100644
--- a/client.go
+++ b/client.go
@@ -95,12 +95,14 @@ func NewClient(opts ...Opt) (IClient, error) {
 			return nil, errors.Wrap(errors.ErrConfiguration, "user can not be empty")
 		}
 
-		client.connStr = fmt.Sprintf("%s://%s:%s@%s:%v", protocol, client.user, client.password, client.host, client.port)
+		client.connStr = fmt.Sprintf("%s://%s@%s:%v", protocol, url.UserPassword(client.user, client.password), client.host, client.port)
 
 		// append tls portion if needed
 		if client.useTLS {
-			tlsPortion := fmt.Sprintf("?tls_cert_file=%s&tls_key_file=%s&tls_ca_cert_file=%s&tls_no_verify=%t",
-				client.certFile, client.keyFile, client.caCertFile, client.tlsNoVerify)
+			tlsPortion, err := client.getTlsPortion()
+			if err != nil {
+				return nil, err
+			}
 			client.connStr += tlsPortion
 		}
 	} else {
@@ -162,28 +164,12 @@ func NewClient(opts ...Opt) (IClient, error) {
 }
 
 func (c *Client) getTlsPortion() (string, error) {
-	if c.certFile != "" {
-		return fmt.Sprintf("?tls_cert_file=%s&tls_key_file=%s&tls_ca_cert_file=%s&tls_no_verify=%t",
-			c.certFile, c.keyFile, c.caCertFile, c.tlsNoVerify), nil
-	} else {
-		// parse connection string
-		u, err := url.Parse(c.connStr)
-		if err != nil {
-			return "", nil
-		}
-
-		certFile := u.Query().Get("tls_cert_file")
-		keyFile := u.Query().Get("tls_key_file")
-		caCertFile := u.Query().Get("tls_ca_cert_file")
-		tlsNoVerify := u.Query().Get("tls_no_verify")
-
-		if certFile == "" {
-			return "", nil
-		}
-
-		return fmt.Sprintf("?tls_cert_file=%s&tls_key_file=%s&tls_ca_cert_file=%s&tls_no_verify=%s",
-			certFile, keyFile, caCertFile, tlsNoVerify), nil
+	if !c.useTLS {
+		return "", nil
 	}
+
+	return fmt.Sprintf("?tls=true&tls_cert_file=%s&tls_key_file=%s&tls_ca_cert_file=%s&tls_no_verify=%t",
+		url.QueryEscape(c.certFile), url.QueryEscape(c.keyFile), url.QueryEscape(c.caCertFile), c.tlsNoVerify), nil
 }
 
 func (c *Client) getUsernamePassword() (string, error) {
@@ -201,7 +187,7 @@ func (c *Client) getUsernamePassword() (string, error) {
 		pwd = ""
 	}
 
-	return fmt.Sprintf("%s:%s", u.User.Username(), pwd), nil
+	return url.UserPassword(u.User.Username(), pwd).String(), nil
 }
 
 func (c *Client) NewDriver() (IDriver, error) {
-- 
2.43.0


From 6d4b81b9808354872873fe61d7e779530867c2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:18 +0000
Subject: [PATCH 23/37] fix: do not ignore options that come with a connection
 string

---
 client.go       | 30 ++++++++++++++++++++++++++++--
 routing/pool.go |  5 +++--
 2 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/client.go b/client.go
index 46fc018..7ec3971 100644
--- a/client.go
+++ b/client.go
@@ -56,7 +56,7 @@ func NewClient(opts ...Opt) (IClient, error) {
 
 		err := opt(client)
 		if err != nil {
-			return nil, errors.Wrap(errors.ErrConfiguration, err.Error())
+			return nil, errors.Wrap(errors.ErrConfiguration, "%s", err.Error())
 		}
 	}
 
@@ -106,7 +106,6 @@ func NewClient(opts ...Opt) (IClient, error) {
 			client.connStr += tlsPortion
 		}
 	} else {
-		client.routing = strings.Contains(client.connStr, "+routing")
 		_url, err := url.Parse(client.connStr)
 		if err != nil {
 			return nil, fmt.Errorf("an error occurred parsing bolt URL, %w", err)
@@ -114,6 +113,33 @@ func NewClient(opts ...Opt) (IClient, error) {
 			return nil, fmt.Errorf("unsupported connection string scheme: %s. Driver only supports 'bolt' and 'bolt+routing' scheme", _url.Scheme)
 		}
 
+		// WithRouting can not ask for more than the connection string does
+		if client.routing && strings.ToLower(_url.Scheme) != "bolt+routing" {
+			return nil, errors.Wrap(errors.ErrConfiguration, "can not call WithRouting and WithConnectionString")
+		}
+		client.routing = strings.ToLower(_url.Scheme) == "bolt+routing"
+
+		// options complement the connection string
+		query := _url.Query()
+		if client.useTLS && query.Get("tls") == "" {
+			query.Set("tls", "true")
+			query.Set("tls_cert_file", client.certFile)
+			query.Set("tls_key_file", client.keyFile)
+			query.Set("tls_ca_cert_file", client.caCertFile)
+			query.Set("tls_no_verify", strconv.FormatBool(client.tlsNoVerify))
+			_url.RawQuery = query.Encode()
+			client.connStr = _url.String()
+		} else if client.useTLS {
+			return nil, errors.Wrap(errors.ErrConfiguration, "can not call WithTLS and have tls in the connection string")
+		}
+
+		if _url.User == nil && client.user != "" {
+			_url.User = url.UserPassword(client.user, client.password)
+			client.connStr = _url.String()
+		} else if client.user != "" {
+			return nil, errors.Wrap(errors.ErrConfiguration, "can not call WithBasicAuth and have a user in the connection string")
+		}
+
 		hostPort := _url.Host
 		if strings.Contains(hostPort, ":") {
 			parts := strings.Split(hostPort, ":")
diff --git a/routing/pool.go b/routing/pool.go
index 2451d5f..386eda7 100644
--- a/routing/pool.go
+++ b/routing/pool.go
@@ -57,8 +57,9 @@ func NewRoutingPool(leaderConnStr string, numConns int, refreshInterval time.Dur
 		return nil, errors.New("leaderConnStr can not be nil")
 	}
 
-	if strings.Contains(leaderConnStr, "+routing") {
-		leaderConnStr = strings.Replace(leaderConnStr, "+routing", "", -1)
+	// only the scheme asks for routing, the rest can contain anything
+	if idx := strings.Index(leaderConnStr, "://"); idx >= 0 && strings.EqualFold(leaderConnStr[:idx], "bolt+routing") {
+		leaderConnStr = "bolt" + leaderConnStr[idx:]
 	}
 
 	if numConns == 0 || numConns == 1 {
-- 
2.43.0


From 144c4fddb9daa1d8b7b619a43b37010a4d12ca26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:19 +0000
Subject: [PATCH 24/37] fix: route with TLS but without credentials

---
 routing/pool.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/routing/pool.go b/routing/pool.go
index 386eda7..67ce059 100644
--- a/routing/pool.go
+++ b/routing/pool.go
@@ -558,5 +558,9 @@ func (r *routingPool) addAuthInfoToConnStr(connStr string) string {
 	}
 
 	hostPort := strings.Replace(connStr, "bolt://", "", -1)
+	if r.userPassPart == "" {
+		return fmt.Sprintf("bolt://%s%s", hostPort, r.tlsInfo)
+	}
+
 	return fmt.Sprintf("bolt://%s@%s%s", r.userPassPart, hostPort, r.tlsInfo)
 }
-- 
2.43.0


From 721045c6aeb7f6b79fc2ec2bc30222b26eef57e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:28 +0000
Subject: [PATCH 25/37] fix: do not leak pool slots or hold the pool lock while
 waiting for a connection

---
 driver_pool.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/driver_pool.go b/driver_pool.go
index 1d8f3b8..4794783 100644
--- a/driver_pool.go
+++ b/driver_pool.go
@@ -6,6 +6,7 @@ import (
 	"github.com/mindstand/go-bolt/bolt_mode"
 	"github.com/mindstand/go-bolt/connection"
 	"github.com/mindstand/go-bolt/errors"
+	"github.com/mindstand/go-bolt/log"
 	"sync"
 )
 
@@ -42,9 +43,11 @@ func newDriverPool(connStr string, maxConns int) (*driverPool, error) {
 }
 
 func (d *driverPool) open() (connection.IConnection, error) {
+	// closing has to be possible while waiting for a free connection
 	d.refLock.Lock()
-	defer d.refLock.Unlock()
-	if !d.closed {
+	closed := d.closed
+	d.refLock.Unlock()
+	if !closed {
 		connObj, err := d.pool.BorrowObject(context.Background())
 		if err != nil {
 			return nil, err
@@ -52,10 +55,12 @@ func (d *driverPool) open() (connection.IConnection, error) {
 
 		conn, ok := connObj.(connection.IConnection)
 		if !ok {
+			d.discard(connObj)
 			return nil, errors.Wrap(errors.ErrInternal, "cannot cast from [%T] to [IConnection]", connObj)
 		}
 
 		if !conn.ValidateOpen() {
+			d.discard(connObj)
 			return nil, errors.New("pool returned dead connection")
 		}
 
@@ -64,6 +69,14 @@ func (d *driverPool) open() (connection.IConnection, error) {
 	return nil, errors.New("Driver pool has been closed")
 }
 
+// discard gives up a borrowed object, so that the pool can replace it
+func (d *driverPool) discard(connObj interface{}) {
+	err := d.pool.InvalidateObject(context.Background(), connObj)
+	if err != nil {
+		log.Error(err)
+	}
+}
+
 func (d *driverPool) close() error {
 	d.refLock.Lock()
 	defer d.refLock.Unlock()
-- 
2.43.0


From cf01b8c237dfa4e3ef115c21baf2c3260c5670af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:29 +0000
Subject: [PATCH 26/37] fix: close every connection the pool gives up and let
 the pool replace dead ones

---
 connection_pool_factory.go | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/connection_pool_factory.go b/connection_pool_factory.go
index fda8531..4700460 100644
--- a/connection_pool_factory.go
+++ b/connection_pool_factory.go
@@ -35,11 +35,12 @@ func (c *ConnectionPooledObjectFactory) DestroyObject(ctx context.Context, objec
 		return fmt.Errorf("unable to cast [%T] to [connection.IConnection]", object.Object)
 	}
 
-	if conn.ValidateOpen() {
-		return conn.Close()
-	} else {
+	err := conn.Close()
+	if err == errors.ErrClosed {
 		return nil
 	}
+
+	return err
 }
 
 func (c *ConnectionPooledObjectFactory) ValidateObject(ctx context.Context, object *pool.PooledObject) bool {
@@ -73,15 +74,9 @@ func (c *ConnectionPooledObjectFactory) ActivateObject(ctx context.Context, obje
 		return fmt.Errorf("unable to cast [%T] to [connection.IConnection]", object.Object)
 	}
 
-	var err error
-
+	// the pool finds its objects by identity, so a dead connection has to be replaced by the pool
 	if !conn.ValidateOpen() {
-		conn, err = connection.CreateBoltConn(c.connectionString)
-		if err != nil {
-			return err
-		}
-
-		object.Object = conn
+		return errors.New("pooled connection is dead")
 	}
 
 	return nil
-- 
2.43.0


From eb9df5dd790256ae61b353de7a1fce2cee5749e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:30 +0000
Subject: [PATCH 27/37] fix: access the routing pool only under its lock

---
 routing/pool.go  | 18 ++++++++++++------
 routing/queue.go | 13 ++++++++++---
 routing/util.go  |  7 +++++++
 3 files changed, 29 insertions(+), 9 deletions(-)

diff --git a/routing/pool.go b/routing/pool.go
index 67ce059..508fc1a 100644
--- a/routing/pool.go
+++ b/routing/pool.go
@@ -19,7 +19,7 @@ type routingPool struct {
 	leaderConnStr string
 
 	// access mutex
-	mutex sync.RWMutex
+	mutex sync.Mutex
 
 	// running
 	running *int32
@@ -73,7 +73,7 @@ func NewRoutingPool(leaderConnStr string, numConns int, refreshInterval time.Dur
 		userPassPart:    authPart,
 		tlsInfo:         tlsInfo,
 		leaderConnStr:   leaderConnStr,
-		mutex:           sync.RWMutex{},
+		mutex:           sync.Mutex{},
 		running:         &run,
 		updating:        &update,
 		totalConns:      numConns,
@@ -359,6 +359,9 @@ func (r *routingPool) refreshHandler() {
 }
 
 func (r *routingPool) Start() error {
+	r.mutex.Lock()
+	defer r.mutex.Unlock()
+
 	if r.isRunning() {
 		return errors.New("pool already running")
 	}
@@ -404,6 +407,9 @@ func (r *routingPool) Start() error {
 }
 
 func (r *routingPool) Stop() error {
+	r.mutex.Lock()
+	defer r.mutex.Unlock()
+
 	if !r.isRunning() {
 		return errors.New("routingPool is not running")
 	}
@@ -460,8 +466,8 @@ func (r *routingPool) internalBorrow(queue *Queue) (*connectionPoolWrapper, erro
 }
 
 func (r *routingPool) BorrowRConnection() (connection.IConnection, error) {
-	r.mutex.RLock()
-	defer r.mutex.RUnlock()
+	r.mutex.Lock()
+	defer r.mutex.Unlock()
 
 	connWrap, err := r.internalBorrow(r.readQueue)
 	if err != nil {
@@ -472,8 +478,8 @@ func (r *routingPool) BorrowRConnection() (connection.IConnection, error) {
 }
 
 func (r *routingPool) BorrowRWConnection() (connection.IConnection, error) {
-	r.mutex.RLock()
-	defer r.mutex.RUnlock()
+	r.mutex.Lock()
+	defer r.mutex.Unlock()
 
 	connWrap, err := r.internalBorrow(r.writeQueue)
 	if err != nil {
diff --git a/routing/queue.go b/routing/queue.go
index cd9ced6..f4c39bf 100644
--- a/routing/queue.go
+++ b/routing/queue.go
@@ -45,17 +45,24 @@ func (s *Queue) Dequeue() *connectionPoolWrapper {
 // Front returns the item next in the queue, without removing it
 func (s *Queue) Front() *connectionPoolWrapper {
 	s.lock.RLock()
-	item := s.items[0]
-	s.lock.RUnlock()
-	return item
+	defer s.lock.RUnlock()
+	if len(s.items) == 0 {
+		return nil
+	}
+
+	return s.items[0]
 }
 
 // IsEmpty returns true if the queue is empty
 func (s *Queue) IsEmpty() bool {
+	s.lock.RLock()
+	defer s.lock.RUnlock()
 	return len(s.items) == 0
 }
 
 // Size returns the number of Items in the queue
 func (s *Queue) Size() int {
+	s.lock.RLock()
+	defer s.lock.RUnlock()
 	return len(s.items)
 }
diff --git a/routing/util.go b/routing/util.go
index 8d4e151..0fdc878 100644
--- a/routing/util.go
+++ b/routing/util.go
@@ -2,13 +2,20 @@ package routing
 
 import (
 	"math/rand"
+	"sync"
 	"time"
 )
 
 var seededRand *rand.Rand = rand.New(
 	rand.NewSource(time.Now().UnixNano()))
 
+// seededRand is shared by all pools
+var seededRandLock sync.Mutex
+
 func stringWithCharset(length int, charset string) string {
+	seededRandLock.Lock()
+	defer seededRandLock.Unlock()
+
 	b := make([]byte, length)
 	for i := range b {
 		b[i] = charset[seededRand.Intn(len(charset))]
-- 
2.43.0


From 1d45e5119d1e15ae8c74dfea91c8d5d9e0cf610b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:31 +0000
Subject: [PATCH 28/37] fix: drop connections to members that left the cluster
 or changed their role

---
 routing/pool.go | 53 +++++++++++++++++++++++++------------------------
 1 file changed, 27 insertions(+), 26 deletions(-)

diff --git a/routing/pool.go b/routing/pool.go
index 508fc1a..a66404a 100644
--- a/routing/pool.go
+++ b/routing/pool.go
@@ -36,7 +36,6 @@ type routingPool struct {
 	routingHandler  *boltRoutingHandler
 
 	// lookups
-	connStrLookup map[string][]*connectionPoolWrapper
 	borrowedConns map[string]*connectionPoolWrapper
 	heldConns     map[string]*connectionPoolWrapper
 
@@ -87,7 +86,6 @@ func NewRoutingPool(leaderConnStr string, numConns int, refreshInterval time.Dur
 			Followers:    []neoNodeConfig{},
 			ReadReplicas: []neoNodeConfig{},
 		},
-		connStrLookup: map[string][]*connectionPoolWrapper{},
 		borrowedConns: map[string]*connectionPoolWrapper{},
 		heldConns:     map[string]*connectionPoolWrapper{},
 		rwStrings:     []string{},
@@ -124,7 +122,7 @@ func (r *routingPool) addWriteConn() error {
 	r.rwIndex++
 
 	// make sure its not an overflow
-	if r.rwIndex == len(r.rwStrings) {
+	if r.rwIndex >= len(r.rwStrings) {
 		r.rwIndex = 0
 	}
 
@@ -149,7 +147,7 @@ func (r *routingPool) addReadConn() error {
 	r.readIndex++
 
 	// make sure its not an overflow
-	if r.readIndex == len(r.readStrings) {
+	if r.readIndex >= len(r.readStrings) {
 		r.readIndex = 0
 	}
 
@@ -200,60 +198,63 @@ func (r *routingPool) refreshConnections() {
 	defer conn.Close()
 
 	err = r.routingHandler.refreshClusterInfo(conn)
+	if err != nil {
+		log.Error(err)
+		return
+	}
 
 	newWriteStrs := r.routingHandler.getWriteConnectionStrings()
 	newReadStrs := r.routingHandler.getReadOnlyConnectionString()
 
-	var deadStrs, actualWrites, actualReads []string
+	// the strings in use have the auth info on them
+	for i, newStr := range newWriteStrs {
+		newWriteStrs[i] = r.addAuthInfoToConnStr(newStr)
+	}
+
+	for i, newStr := range newReadStrs {
+		newReadStrs[i] = r.addAuthInfoToConnStr(newStr)
+	}
+
+	var actualWrites, actualReads []string
 
 	// check for dead strings
 	for _, curStr := range r.rwStrings {
-		// string is not found, so it must be dead
-		if !stringSliceContains(newWriteStrs, curStr) {
-			deadStrs = append(deadStrs, curStr)
-		} else {
+		// if the string is not found, it must be dead
+		if stringSliceContains(newWriteStrs, curStr) {
 			actualWrites = append(actualWrites, curStr)
 		}
 	}
 
 	for _, curStr := range r.readStrings {
-		// string is not found, so it must be dead
-		if !stringSliceContains(newReadStrs, curStr) {
-			deadStrs = append(deadStrs, curStr)
-		} else {
+		// if the string is not found, it must be dead
+		if stringSliceContains(newReadStrs, curStr) {
 			actualReads = append(actualReads, curStr)
 		}
 	}
 
 	// add anything new
 	for _, newStr := range newWriteStrs {
-		newStr = r.addAuthInfoToConnStr(newStr)
 		if !stringSliceContains(actualWrites, newStr) {
 			actualWrites = append(actualWrites, newStr)
 		}
 	}
 
 	for _, newStr := range newReadStrs {
-		newStr = r.addAuthInfoToConnStr(newStr)
 		if !stringSliceContains(actualReads, newStr) {
 			actualReads = append(actualReads, newStr)
 		}
 	}
 
 	// mark them for deletion, system will rebalance elsewhere
-	if len(deadStrs) != 0 {
-		for _, str := range deadStrs {
-			conns, ok := r.connStrLookup[str]
-			if !ok || conns == nil || len(conns) == 0 {
-				continue
+	for _, conns := range []map[string]*connectionPoolWrapper{r.heldConns, r.borrowedConns} {
+		for _, connWrap := range conns {
+			liveStrs := actualReads
+			if connWrap.ConnType == bolt_mode.WriteMode {
+				liveStrs = actualWrites
 			}
 
-			for _, markedConn := range conns {
-				if markedConn == nil {
-					continue
-				}
-
-				markedConn.markForDeletion = true
+			if !stringSliceContains(liveStrs, connWrap.ConnStr) {
+				connWrap.markForDeletion = true
 			}
 		}
 	}
-- 
2.43.0


From eb4ea43b934055cde6ebcc0482afc74f650863cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:32 +0000
Subject: [PATCH 29/37] fix: close the connections the routing pool drops and
 reclaim only usable ones

---
 routing/pool.go | 61 ++++++++++++++++++++++++++++++++++---------------
 1 file changed, 43 insertions(+), 18 deletions(-)

diff --git a/routing/pool.go b/routing/pool.go
index a66404a..6d3b17c 100644
--- a/routing/pool.go
+++ b/routing/pool.go
@@ -10,6 +10,7 @@ import (
 
 	"github.com/mindstand/go-bolt/bolt_mode"
 	"github.com/mindstand/go-bolt/connection"
+	boltErrors "github.com/mindstand/go-bolt/errors"
 	"github.com/mindstand/go-bolt/log"
 )
 
@@ -102,14 +103,14 @@ func (r *routingPool) removeConn(conn *connectionPoolWrapper) error {
 		return errors.New("invalid connection, can not be nil")
 	}
 
-	if !conn.Connection.ValidateOpen() {
-		err := conn.Connection.Close()
-		if err != nil {
-			return err
-		}
+	delete(r.heldConns, conn.Connection.GetConnectionId())
+
+	// the socket gets closed in any case
+	err := conn.Connection.Close()
+	if err != nil && err != boltErrors.ErrClosed {
+		log.Error(err)
 	}
 
-	delete(r.heldConns, conn.Connection.GetConnectionId())
 	return nil
 }
 
@@ -268,7 +269,7 @@ func (r *routingPool) prune() {
 	writes := []*connectionPoolWrapper{}
 	for _, connWrap := range r.readQueue.items {
 		if connWrap.markForDeletion {
-			err := connWrap.Connection.Close()
+			err := r.removeConn(connWrap)
 			if err != nil {
 				log.Error(err)
 				continue
@@ -349,6 +350,11 @@ func (r *routingPool) refreshHandler() {
 		// block routine until interval is up
 		<-time.After(r.refreshInterval)
 		r.mutex.Lock()
+		// pool may have been stopped in the meantime
+		if !r.isRunning() {
+			r.mutex.Unlock()
+			return
+		}
 		// refresh connections and mark dead conns
 		r.refreshConnections()
 		// remove dead conns
@@ -391,6 +397,7 @@ func (r *routingPool) Start() error {
 	for i := 0; i < r.maxWriteIdle; i++ {
 		err := r.addWriteConn()
 		if err != nil {
+			r.drain()
 			return err
 		}
 	}
@@ -398,6 +405,7 @@ func (r *routingPool) Start() error {
 	for i := 0; i < r.maxReadIdle; i++ {
 		err := r.addReadConn()
 		if err != nil {
+			r.drain()
 			return err
 		}
 	}
@@ -415,6 +423,11 @@ func (r *routingPool) Stop() error {
 		return errors.New("routingPool is not running")
 	}
 
+	return r.drain()
+}
+
+// drain ends the pool and closes all its idle connections
+func (r *routingPool) drain() error {
 	r.setRunning(false)
 
 	for r.readQueue.Size() != 0 {
@@ -518,8 +531,8 @@ func (r *routingPool) Reclaim(conn connection.IConnection) error {
 	r.mutex.Lock()
 	defer r.mutex.Unlock()
 
-	if !r.isRunning() {
-		return errors.New("pool is not running")
+	if conn == nil {
+		return errors.New("can not reclaim nil connection")
 	}
 
 	connId := conn.GetConnectionId()
@@ -533,22 +546,34 @@ func (r *routingPool) Reclaim(conn connection.IConnection) error {
 		return fmt.Errorf("connection not found with id [%s]", connId)
 	}
 
-	// remove from borrowed and replace in held
+	// remove from borrowed
 	delete(r.borrowedConns, connId)
-	r.heldConns[connId] = connWrap
 
-	// check if the connection is dead, if it is discard and make a new one
-	if !connWrap.Connection.ValidateOpen() {
+	if !r.isRunning() {
 		err := r.removeConn(connWrap)
 		if err != nil {
-			if connWrap.ConnType == bolt_mode.WriteMode {
-				return r.addWriteConn()
-			} else {
-				return r.addReadConn()
-			}
+			return err
+		}
+		return errors.New("pool is not running")
+	}
+
+	// check if the connection is condemned, can not be idle or is dead, if it is discard and make a new one
+	if connWrap.markForDeletion || connWrap.Connection.MakeIdle() != nil || !connWrap.Connection.ValidateOpen() {
+		err := r.removeConn(connWrap)
+		if err != nil {
+			return err
+		}
+
+		if connWrap.ConnType == bolt_mode.WriteMode {
+			return r.addWriteConn()
+		} else {
+			return r.addReadConn()
 		}
 	}
 
+	// replace in held
+	r.heldConns[connId] = connWrap
+
 	if connWrap.ConnType == bolt_mode.WriteMode {
 		r.writeQueue.Enqueue(connWrap)
 	} else {
-- 
2.43.0


From f6f428e35b70ce62aa6126e18ec9fda697e4f2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:09 +0000
Subject: [PATCH 30/37] fix: fail when the CA file holds no certificates

---
 connection/connection.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/connection/connection.go b/connection/connection.go
index c3e3efb..4a27185 100644
--- a/connection/connection.go
+++ b/connection/connection.go
@@ -214,7 +214,9 @@ func (c *Connection) tlsConfig() (*tls.Config, error) {
 			return nil, err
 		}
 		caCertPool := x509.NewCertPool()
-		caCertPool.AppendCertsFromPEM(caCert)
+		if !caCertPool.AppendCertsFromPEM(caCert) {
+			return nil, fmt.Errorf("no certificates found in ca cert file %s", c.caCertFile)
+		}
 
 		config.RootCAs = caCertPool
 	}
-- 
2.43.0


From c123655981302bb18585ecc66eb5e28cc6c77b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:10 +0000
Subject: [PATCH 31/37] fix: refuse a key file without a certificate file

---
 connection/connection.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/connection/connection.go b/connection/connection.go
index 4a27185..f10ae84 100644
--- a/connection/connection.go
+++ b/connection/connection.go
@@ -232,6 +232,8 @@ func (c *Connection) tlsConfig() (*tls.Config, error) {
 		}
 
 		config.Certificates = []tls.Certificate{cert}
+	} else if c.keyFile != "" {
+		return nil, errors.New("If you're providing a key file, you must also provide a cert file")
 	}
 
 	if c.tlsNoVerify {
-- 
2.43.0


From d01f7eb77798ae373db244e9783e31241f8a569e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:10 +0000
Subject: [PATCH 32/37] fix: refuse a connection string without a host

---
 connection/connection.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/connection/connection.go b/connection/connection.go
index f10ae84..3749585 100644
--- a/connection/connection.go
+++ b/connection/connection.go
@@ -114,6 +114,8 @@ func newConnectionFromConnectionString(connStr string) (*Connection, error) {
 		return nil, fmt.Errorf("an error occurred parsing bolt URL, %w", err)
 	} else if strings.ToLower(_url.Scheme) != "bolt" && strings.ToLower(_url.Scheme) != "bolt+routing" {
 		return nil, fmt.Errorf("unsupported connection string scheme: %s. Driver only supports 'bolt' and 'bolt+routing' scheme", _url.Scheme)
+	} else if _url.Hostname() == "" {
+		return nil, errors.New("must specify host in connection string")
 	}
 
 	connection := Connection{
-- 
2.43.0


From 052f3bd34927f9c0c4898de42fabf5768510250a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:10 +0000
Subject: [PATCH 33/37] fix: recognise the bolt address of a cluster member by
 its scheme

---
 routing/routing_handler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/routing/routing_handler.go b/routing/routing_handler.go
index 15ff404..1f418e3 100644
--- a/routing/routing_handler.go
+++ b/routing/routing_handler.go
@@ -130,7 +130,7 @@ func (c *boltRoutingHandler) refreshClusterInfo(conn connection.IConnection) err
 		var boltStr string
 
 		for _, str := range addresses {
-			if strings.Contains(str, "bolt") {
+			if strings.HasPrefix(str, "bolt://") {
 				boltStr = str
 			}
 		}
-- 
2.43.0


From 12145334769fd59cc3debc4bf00acf0c5c54a259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:01 +0000
Subject: [PATCH 34/37] fix: refuse timeouts that are negative or overflow

---
 client.go                | 6 +++++-
 connection/connection.go | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/client.go b/client.go
index 7ec3971..a2663ca 100644
--- a/client.go
+++ b/client.go
@@ -60,6 +60,10 @@ func NewClient(opts ...Opt) (IClient, error) {
 		}
 	}
 
+	if client.timeout < 0 {
+		return nil, errors.Wrap(errors.ErrConfiguration, "invalid timeout [%v]", client.timeout)
+	}
+
 	// timeout not set
 	if client.timeout == 0 {
 		client.timeout = time.Second * time.Duration(60)
@@ -167,7 +171,7 @@ func NewClient(opts ...Opt) (IClient, error) {
 		timeout := _url.Query().Get("timeout")
 		if timeout != "" {
 			timeoutInt, err := strconv.Atoi(timeout)
-			if err != nil || timeoutInt <= 0 {
+			if err != nil || timeoutInt <= 0 || timeoutInt > int(math.MaxInt64/time.Second) {
 				return nil, fmt.Errorf("Invalid format for timeout: %s.  Must be a positive integer", timeout)
 			}
 
diff --git a/connection/connection.go b/connection/connection.go
index 3749585..701453a 100644
--- a/connection/connection.go
+++ b/connection/connection.go
@@ -139,7 +139,7 @@ func newConnectionFromConnectionString(connStr string) (*Connection, error) {
 	timeout := _url.Query().Get("timeout")
 	if timeout != "" {
 		timeoutInt, err := strconv.Atoi(timeout)
-		if err != nil || timeoutInt <= 0 {
+		if err != nil || timeoutInt <= 0 || timeoutInt > int(math.MaxInt64/time.Second) {
 			return nil, fmt.Errorf("Invalid format for timeout: %s.  Must be a positive integer", timeout)
 		}
 
-- 
2.43.0


From 506e77f3e2dcd9f7791ca12967c8dec4192209ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:37 +0000
Subject: [PATCH 35/37] fix: WithTimeout and the timeout parameter reach every
 connection

---
 client.go                | 49 +++++++++++++++++++++++++++++-----------
 connection/connection.go | 22 ++++++++++++++----
 driver_routing_pool.go   |  4 ++--
 3 files changed, 55 insertions(+), 20 deletions(-)

diff --git a/client.go b/client.go
index a2663ca..00d09c7 100644
--- a/client.go
+++ b/client.go
@@ -2,6 +2,7 @@ package goBolt
 
 import (
 	"fmt"
+	"github.com/mindstand/go-bolt/connection"
 	"github.com/mindstand/go-bolt/errors"
 	"math"
 	"net/url"
@@ -64,8 +65,10 @@ func NewClient(opts ...Opt) (IClient, error) {
 		return nil, errors.Wrap(errors.ErrConfiguration, "invalid timeout [%v]", client.timeout)
 	}
 
+	timeoutSet := client.timeout != 0
+
 	// timeout not set
-	if client.timeout == 0 {
+	if !timeoutSet {
 		client.timeout = time.Second * time.Duration(60)
 	}
 
@@ -101,14 +104,12 @@ func NewClient(opts ...Opt) (IClient, error) {
 
 		client.connStr = fmt.Sprintf("%s://%s@%s:%v", protocol, url.UserPassword(client.user, client.password), client.host, client.port)
 
-		// append tls portion if needed
-		if client.useTLS {
-			tlsPortion, err := client.getTlsPortion()
-			if err != nil {
-				return nil, err
-			}
-			client.connStr += tlsPortion
+		// append the settings
+		queryPortion, err := client.getQueryPortion()
+		if err != nil {
+			return nil, err
 		}
+		client.connStr += queryPortion
 	} else {
 		_url, err := url.Parse(client.connStr)
 		if err != nil {
@@ -137,6 +138,14 @@ func NewClient(opts ...Opt) (IClient, error) {
 			return nil, errors.Wrap(errors.ErrConfiguration, "can not call WithTLS and have tls in the connection string")
 		}
 
+		if timeoutSet && query.Get("timeout") == "" {
+			query.Set("timeout", client.timeout.String())
+			_url.RawQuery = query.Encode()
+			client.connStr = _url.String()
+		} else if timeoutSet {
+			return nil, errors.Wrap(errors.ErrConfiguration, "can not call WithTimeout and have a timeout in the connection string")
+		}
+
 		if _url.User == nil && client.user != "" {
 			_url.User = url.UserPassword(client.user, client.password)
 			client.connStr = _url.String()
@@ -170,12 +179,10 @@ func NewClient(opts ...Opt) (IClient, error) {
 
 		timeout := _url.Query().Get("timeout")
 		if timeout != "" {
-			timeoutInt, err := strconv.Atoi(timeout)
-			if err != nil || timeoutInt <= 0 || timeoutInt > int(math.MaxInt64/time.Second) {
-				return nil, fmt.Errorf("Invalid format for timeout: %s.  Must be a positive integer", timeout)
+			client.timeout, err = connection.ParseTimeout(timeout)
+			if err != nil {
+				return nil, err
 			}
-
-			client.timeout = time.Duration(timeoutInt) * time.Second
 		}
 
 		useTLS := _url.Query().Get("tls")
@@ -202,6 +209,22 @@ func (c *Client) getTlsPortion() (string, error) {
 		url.QueryEscape(c.certFile), url.QueryEscape(c.keyFile), url.QueryEscape(c.caCertFile), c.tlsNoVerify), nil
 }
 
+// getQueryPortion has the settings that go with each connection string
+func (c *Client) getQueryPortion() (string, error) {
+	timeoutPortion := "timeout=" + url.QueryEscape(c.timeout.String())
+
+	tlsPortion, err := c.getTlsPortion()
+	if err != nil {
+		return "", err
+	}
+
+	if tlsPortion == "" {
+		return "?" + timeoutPortion, nil
+	}
+
+	return tlsPortion + "&" + timeoutPortion, nil
+}
+
 func (c *Client) getUsernamePassword() (string, error) {
 	u, err := url.Parse(c.connStr)
 	if err != nil {
diff --git a/connection/connection.go b/connection/connection.go
index 701453a..04b01bb 100644
--- a/connection/connection.go
+++ b/connection/connection.go
@@ -138,12 +138,10 @@ func newConnectionFromConnectionString(connStr string) (*Connection, error) {
 
 	timeout := _url.Query().Get("timeout")
 	if timeout != "" {
-		timeoutInt, err := strconv.Atoi(timeout)
-		if err != nil || timeoutInt <= 0 || timeoutInt > int(math.MaxInt64/time.Second) {
-			return nil, fmt.Errorf("Invalid format for timeout: %s.  Must be a positive integer", timeout)
+		connection.timeout, err = ParseTimeout(timeout)
+		if err != nil {
+			return nil, err
 		}
-
-		connection.timeout = time.Duration(timeoutInt) * time.Second
 	}
 
 	useTLS := _url.Query().Get("tls")
@@ -160,6 +158,20 @@ func newConnectionFromConnectionString(connStr string) (*Connection, error) {
 	return &connection, nil
 }
 
+// ParseTimeout parses the timeout of a connection string, a number of seconds or a duration with a unit
+func ParseTimeout(timeout string) (time.Duration, error) {
+	seconds, err := strconv.Atoi(timeout)
+	if err == nil {
+		if seconds > 0 && seconds <= int(math.MaxInt64/time.Second) {
+			return time.Duration(seconds) * time.Second, nil
+		}
+	} else if duration, err := time.ParseDuration(timeout); err == nil && duration > 0 {
+		return duration, nil
+	}
+
+	return 0, fmt.Errorf("Invalid format for timeout: %s.  Must be a positive integer", timeout)
+}
+
 func (c *Connection) GetConnectionId() string {
 	return c.id
 }
diff --git a/driver_routing_pool.go b/driver_routing_pool.go
index bd12fc4..ff3428e 100644
--- a/driver_routing_pool.go
+++ b/driver_routing_pool.go
@@ -20,9 +20,9 @@ func newRoutingPool(client *Client, size int) (*RoutingDriverPool, error) {
 	}
 
 	userPart, _ := client.getUsernamePassword()
-	tlsPart, _ := client.getTlsPortion()
+	queryPart, _ := client.getQueryPortion()
 
-	internalPool, err := routing.NewRoutingPool(client.connStr, size, refreshInterval, userPart, tlsPart)
+	internalPool, err := routing.NewRoutingPool(client.connStr, size, refreshInterval, userPart, queryPart)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From d3d19a2fd2a0c575f0fd37c58748a807b5c11c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:38 +0000
Subject: [PATCH 36/37] fix: keep credentials out of the error for an invalid
 bolt URL

---
 connection/connection.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/connection/connection.go b/connection/connection.go
index 04b01bb..c70ed78 100644
--- a/connection/connection.go
+++ b/connection/connection.go
@@ -111,7 +111,8 @@ func CreateBoltConn(connStr string) (IConnection, error) {
 func newConnectionFromConnectionString(connStr string) (*Connection, error) {
 	_url, err := url.Parse(connStr)
 	if err != nil {
-		return nil, fmt.Errorf("an error occurred parsing bolt URL, %w", err)
+		// the error has the credentials in it
+		return nil, errors.New("an error occurred parsing bolt URL")
 	} else if strings.ToLower(_url.Scheme) != "bolt" && strings.ToLower(_url.Scheme) != "bolt+routing" {
 		return nil, fmt.Errorf("unsupported connection string scheme: %s. Driver only supports 'bolt' and 'bolt+routing' scheme", _url.Scheme)
 	} else if _url.Hostname() == "" {
-- 
2.43.0


From 898deda94ee317a7d25e9adeda5b8aa67249a259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:53 +0000
Subject: [PATCH 37/37] fix: errors about values that are too long do not
 repeat them

The value can be the password of the user, and the errors of the routing pool get logged.
---
 encoding/encoding_v1/encoderV1.go | 8 ++++----
 encoding/encoding_v2/encoderV2.go | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/encoding/encoding_v1/encoderV1.go b/encoding/encoding_v1/encoderV1.go
index 64bbe38..3b120a9 100644
--- a/encoding/encoding_v1/encoderV1.go
+++ b/encoding/encoding_v1/encoderV1.go
@@ -280,7 +280,7 @@ func (e EncoderV1) encodeString(val string) error {
 		}
 		_, err = e.Write(bytes)
 	default:
-		return errors.New("String too long to write: %s", val)
+		return errors.New("String too long to write: %d bytes", len(val))
 	}
 	return err
 }
@@ -314,7 +314,7 @@ func (e EncoderV1) encodeSlice(val []interface{}) error {
 			return err
 		}
 	default:
-		return errors.New("Slice too long to write: %+v", val)
+		return errors.New("Slice too long to write: %d elements", len(val))
 	}
 
 	// Encode Slice values
@@ -356,7 +356,7 @@ func (e EncoderV1) encodeMap(val map[string]interface{}) error {
 			return err
 		}
 	default:
-		return errors.New("Map too long to write: %+v", val)
+		return errors.New("Map too long to write: %d entries", len(val))
 	}
 
 	// Encode Map values
@@ -396,7 +396,7 @@ func (e EncoderV1) encodeStructure(val structures.Structure) error {
 			return err
 		}
 	default:
-		return errors.New("Structure too long to write: %+v", val)
+		return errors.New("Structure too long to write: %T", val)
 	}
 
 	_, err := e.Write([]byte{byte(val.Signature())})
diff --git a/encoding/encoding_v2/encoderV2.go b/encoding/encoding_v2/encoderV2.go
index cc75260..7aec8d2 100644
--- a/encoding/encoding_v2/encoderV2.go
+++ b/encoding/encoding_v2/encoderV2.go
@@ -450,7 +450,7 @@ func (e EncoderV2) encodeString(val string) error {
 		}
 		_, err = e.Write(bytes)
 	default:
-		return errors.New("String too long to write: %s", val)
+		return errors.New("String too long to write: %d bytes", len(val))
 	}
 	return err
 }
@@ -484,7 +484,7 @@ func (e EncoderV2) encodeSlice(val []interface{}) error {
 			return err
 		}
 	default:
-		return errors.New("Slice too long to write: %+v", val)
+		return errors.New("Slice too long to write: %d elements", len(val))
 	}
 
 	// Encode Slice values
@@ -526,7 +526,7 @@ func (e EncoderV2) encodeMap(val map[string]interface{}) error {
 			return err
 		}
 	default:
-		return errors.New("Map too long to write: %+v", val)
+		return errors.New("Map too long to write: %d entries", len(val))
 	}
 
 	// Encode Map values
@@ -566,7 +566,7 @@ func (e EncoderV2) encodeStructure(val structures.Structure) error {
 			return err
 		}
 	default:
-		return errors.New("Structure too long to write: %+v", val)
+		return errors.New("Structure too long to write: %T", val)
 	}
 
 	_, err := e.Write([]byte{byte(val.Signature())})
-- 
2.43.0

