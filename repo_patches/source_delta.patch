From 8ce9caddda4dbe305462c334afa514d0dcbc3583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:05 +0000
Subject: [PATCH 01/14] fix: report overflow for an 8-bit integer of four or
 more digits

---
 iterator_int8.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/iterator_int8.go b/iterator_int8.go
index 5cd6d3a..202a2e2 100644
--- a/iterator_int8.go
+++ b/iterator_int8.go
@@ -63,6 +63,17 @@ func (it *Iterator) readUint8(c byte) (ret uint8, err error) {
 		return
 	}
 	ret = (ret << 3) + (ret << 1) + uint8(u)
+	if it.head == it.tail {
+		if err = it.readMore(); err != nil {
+			if err == io.EOF {
+				err = nil
+			}
+			return
+		}
+	}
+	if intDigits[it.buffer[it.head]] != invalidDigit { // fourth digit
+		err = IntOverflowError{}
+	}
 	return
 }
 
-- 
2.43.0


From bedea9ab20db9e2dd99fb99dac4d433fd5657cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:05 +0000
Subject: [PATCH 02/14] fix: a map key in a JSON object must be a string

---
 val_decoder_native_map.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/val_decoder_native_map.go b/val_decoder_native_map.go
index 03eb9b9..15acfe9 100644
--- a/val_decoder_native_map.go
+++ b/val_decoder_native_map.go
@@ -90,6 +90,9 @@ func (dec *mapDecoder) Decode(ptr unsafe.Pointer, it *Iterator, _ *DecOpts) erro
 		typedmemmove(dec.rtype, ptr, unsafeMakeMap(dec.rtype, 0))
 	}
 	for {
+		if c != '"' {
+			return UnexpectedByteError{got: c, exp: '"'}
+		}
 		key := unsafe_New(dec.keyRType)
 		opt := DecOpts{
 			MapKey: true,
@@ -120,6 +123,10 @@ func (dec *mapDecoder) Decode(ptr unsafe.Pointer, it *Iterator, _ *DecOpts) erro
 			return nil
 		case ',':
 			it.head++
+			c, err = it.nextToken()
+			if err != nil {
+				return err
+			}
 		default:
 			return UnexpectedByteError{got: c, exp: '}', exp2: ','}
 		}
-- 
2.43.0


From 221b9fe0f181615fd1685fa950232dfd6b4eec94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:05 +0000
Subject: [PATCH 03/14] fix: pass the arguments of the fold function in the
 right order for one-field structs

---
 val_decoder_native_struct_one_field.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/val_decoder_native_struct_one_field.go b/val_decoder_native_struct_one_field.go
index 0f75482..26bf30e 100644
--- a/val_decoder_native_struct_one_field.go
+++ b/val_decoder_native_struct_one_field.go
@@ -64,7 +64,7 @@ func (dec *oneFieldStructDecoder) Decode(ptr unsafe.Pointer, it *Iterator, _ *De
 		if err != nil {
 			return err
 		}
-		if dec.equalFold(field, dec.nameBytes) {
+		if dec.equalFold(dec.nameBytes, field) {
 			curPtr := add(ptr, dec.offsets[0].val, "struct field")
 			for _, offset := range dec.offsets[1:] {
 				subPtr := *(*unsafe.Pointer)(curPtr)
-- 
2.43.0


From 59da20670f08f7b79137a517a21d56e250dafafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:05 +0000
Subject: [PATCH 04/14] fix: unescape the string before decoding it as base64

---
 val_decoder_native_slice.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/val_decoder_native_slice.go b/val_decoder_native_slice.go
index d282a79..56e561f 100644
--- a/val_decoder_native_slice.go
+++ b/val_decoder_native_slice.go
@@ -56,14 +56,10 @@ func (dec *sliceDecoder) Decode(ptr unsafe.Pointer, it *Iterator, _ *DecOpts) er
 		}
 		it.head++
 		// TODO: improve by checking only base64 characters
-		begin := it.head
-		oldCapture := it.capture
-		it.capture = true
-		if err := skipString(it, c); err != nil {
+		buf, err := it.readStringAsSlice()
+		if err != nil {
 			return err
 		}
-		it.capture = oldCapture
-		buf := it.buffer[begin : it.head-1]
 		data, err := base64.StdEncoding.DecodeString(localByteToString(buf))
 		if err != nil {
 			return err
-- 
2.43.0


From 958743d4627bcfb156ff77f82290b0a41fd9c289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:59 +0000
Subject: [PATCH 05/14] fix: omitempty on a marshaler of string, complex, chan
 or func kind

---
 is_empty.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/is_empty.go b/is_empty.go
index d630cbc..eaeb83f 100644
--- a/is_empty.go
+++ b/is_empty.go
@@ -12,6 +12,8 @@ var (
 	isEmptyFunctions = [numKinds]isEmptyFunc{}
 )
 
+func neverEmpty(unsafe.Pointer) bool { return false }
+
 func init() {
 	isEmptyFunctions[reflect.Bool] = (*boolEncoder)(nil).IsEmpty
 	if strconv.IntSize == 32 {
@@ -39,7 +41,14 @@ func init() {
 	isEmptyFunctions[reflect.Array] = (*arrayEncoder)(nil).IsEmpty
 	isEmptyFunctions[reflect.Map] = (*directMapEncoder)(nil).IsEmpty
 	isEmptyFunctions[reflect.Slice] = (*sliceEncoder)(nil).IsEmpty
+	isEmptyFunctions[reflect.String] = (*stringEncoder)(nil).IsEmpty
 	isEmptyFunctions[reflect.Struct] = (*structEncoder)(nil).IsEmpty
+	// the values of these kinds are never empty
+	isEmptyFunctions[reflect.Chan] = neverEmpty
+	isEmptyFunctions[reflect.Complex64] = neverEmpty
+	isEmptyFunctions[reflect.Complex128] = neverEmpty
+	isEmptyFunctions[reflect.Func] = neverEmpty
+	isEmptyFunctions[reflect.UnsafePointer] = neverEmpty
 	// Interface
 	// Ptr
 }
-- 
2.43.0


From 1182bca2abb05d0d06a4d7da7d75781bcb56a40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:59 +0000
Subject: [PATCH 06/14] fix: encode interface types which include Marshaler or
 TextMarshaler

---
 encoder_config.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/encoder_config.go b/encoder_config.go
index 71a32ef..3587060 100644
--- a/encoder_config.go
+++ b/encoder_config.go
@@ -148,7 +148,8 @@ func (encCfg *EncoderConfig) createEncoderInternal(cache, internalCache encoderC
 		kind := typ.Kind()
 
 		// check json.Marshaler interface
-		if typ.Implements(jsonMarshalerType) {
+		// (the method of an interface is called on its dynamic value)
+		if kind != reflect.Interface && typ.Implements(jsonMarshalerType) {
 			if ifaceIndir(rType) {
 				v := &jsonMarshalerEncoder{
 					isEmpty: isEmptyFunctions[kind],
@@ -183,7 +184,7 @@ func (encCfg *EncoderConfig) createEncoderInternal(cache, internalCache encoderC
 		}
 
 		// check encoding.TextMarshaler interface
-		if typ.Implements(textMarshalerType) {
+		if kind != reflect.Interface && typ.Implements(textMarshalerType) {
 			if ifaceIndir(rType) {
 				v := &textMarshalerEncoder{
 					isEmpty: isEmptyFunctions[kind],
-- 
2.43.0


From 10c2f4fd2f1a6a1e3407dc6609ca6d37077b8f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:59 +0000
Subject: [PATCH 07/14] fix: encode a nil pointer to encoding.TextMarshaler as
 null

---
 val_encoder_text_marshaler.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/val_encoder_text_marshaler.go b/val_encoder_text_marshaler.go
index 606de08..4af878b 100644
--- a/val_encoder_text_marshaler.go
+++ b/val_encoder_text_marshaler.go
@@ -103,6 +103,10 @@ func (*dynamicTextMarshalerEncoder) Encode(ptr unsafe.Pointer, s *Streamer, opts
 	if s.Error != nil {
 		return
 	}
+	if ptr == nil {
+		s.Null()
+		return
+	}
 	marshaler := *(*encoding.TextMarshaler)(ptr)
 	if marshaler == nil {
 		s.Null()
-- 
2.43.0


From 0d9faef09ecab54e4e760da5e5364a5dd5eb3b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:59 +0000
Subject: [PATCH 08/14] fix: encode a nil json.RawMessage as null

---
 val_encoder_json_rawmessage.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/val_encoder_json_rawmessage.go b/val_encoder_json_rawmessage.go
index 96b17eb..e771403 100644
--- a/val_encoder_json_rawmessage.go
+++ b/val_encoder_json_rawmessage.go
@@ -16,6 +16,10 @@ func (*jsonRawMessageEncoder) Encode(ptr unsafe.Pointer, s *Streamer, opts *EncO
 		return
 	}
 	data := *(*[]byte)(ptr)
+	if data == nil {
+		s.Null()
+		return
+	}
 	// TODO: raw message validation?
 	s.Raw(data)
 }
-- 
2.43.0


From d5e413503ea27b9422a74dc0802d1d0a0e353f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:59 +0000
Subject: [PATCH 09/14] fix: detect interface loops which do not contain the
 first interface

---
 iterator.go                     |  2 ++
 val_decoder_native_interface.go | 18 +++++++++++++++---
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/iterator.go b/iterator.go
index a2db9de..3f1c69b 100644
--- a/iterator.go
+++ b/iterator.go
@@ -23,6 +23,8 @@ type iteratorEmbedded struct {
 	// eface checkpoint
 	lastEfaceOffset int
 	lastEfacePtr    uintptr
+	efaceSteps      int
+	efaceLimit      int
 
 	// TODO: 1. type of context?
 	// TODO: 2. should context be reset as well?
diff --git a/val_decoder_native_interface.go b/val_decoder_native_interface.go
index 4f7fe3f..f1478ae 100644
--- a/val_decoder_native_interface.go
+++ b/val_decoder_native_interface.go
@@ -21,11 +21,23 @@ func (dec *efaceDecoder) checkLoop(ptr unsafe.Pointer, it *Iterator) bool {
 		// - the iterator moved
 		it.lastEfacePtr = uptr
 		it.lastEfaceOffset = curOffset
+		it.efaceSteps = 0
+		it.efaceLimit = 1
 		return true
 	}
-	// the iterator didn't move, check the pointer we first met
-	// at this location
-	return uptr != it.lastEfacePtr
+	// the iterator didn't move, check the last checkpoint at this location
+	if uptr == it.lastEfacePtr {
+		return false
+	}
+	// the first pointer we met may not be part of the loop, so move the
+	// checkpoint after 1, 2, 4, 8, ... steps
+	it.efaceSteps++
+	if it.efaceSteps == it.efaceLimit {
+		it.lastEfacePtr = uptr
+		it.efaceSteps = 0
+		it.efaceLimit *= 2
+	}
+	return true
 }
 
 func (dec *efaceDecoder) Decode(ptr unsafe.Pointer, it *Iterator, _ *DecOpts) error {
-- 
2.43.0


From 04cc2f0259c24f70aaececda6fd66a073c53e906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:11 +0000
Subject: [PATCH 10/14] fix: ,string strings follow the streamer's HTML
 escaping setting

The quoted form of a string was rendered with the escaping default of the
configuration, ignoring Encoder.SetEscapeHTML / Streamer.EscapeHTML.
---
 val_encoder_native.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/val_encoder_native.go b/val_encoder_native.go
index ec4ceab..2eaf0ee 100644
--- a/val_encoder_native.go
+++ b/val_encoder_native.go
@@ -47,6 +47,7 @@ func (*stringEncoder) Encode(ptr unsafe.Pointer, s *Streamer, opts *EncOpts) {
 	}
 	subStream := s.cfg.NewStreamer()
 	defer subStream.Release()
+	subStream.EscapeHTML(s.escapeHTML)
 	subStream.String(*(*string)(ptr))
 	if subStream.Error != nil {
 		s.Error = subStream.Error
-- 
2.43.0


From d0c506db88193df83d2e90fc56fdbc7ce1c3f2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:25 +0000
Subject: [PATCH 11/14] fix: keep the memory of slices under construction
 reachable

The headers held their data as an integer (reflect.SliceHeader), so the garbage
collector could free the array of a slice while it was still being decoded or
encoded, and stores of the header had no write barrier.
---
 eface.go                    | 8 +++-----
 link_reflect.go             | 4 ++--
 val_decoder_native_slice.go | 2 +-
 val_encoder_native_slice.go | 9 ++++-----
 4 files changed, 10 insertions(+), 13 deletions(-)

diff --git a/eface.go b/eface.go
index 14ec593..4a2501d 100644
--- a/eface.go
+++ b/eface.go
@@ -25,10 +25,9 @@ func rtypeOfType(typ reflect.Type) rtype {
 	return rtype(ef.data)
 }
 
-type stringHeader = reflect.StringHeader
-type sliceHeader = reflect.SliceHeader
-
-/*
+// The headers must hold the data as unsafe.Pointer: the data of a
+// reflect.SliceHeader or reflect.StringHeader is an integer, which neither keeps
+// the memory alive nor is seen by the write barrier
 type stringHeader struct {
 	Data unsafe.Pointer
 	Len  int
@@ -39,4 +38,3 @@ type sliceHeader struct {
 	Len  int
 	Cap  int
 }
-*/
diff --git a/link_reflect.go b/link_reflect.go
index c55e2ca..8f9e47d 100644
--- a/link_reflect.go
+++ b/link_reflect.go
@@ -65,7 +65,7 @@ func mapiternext(it *hiter)
 
 func unsafeMakeSlice(elemRType rtype, length, cap int) unsafe.Pointer {
 	return unsafe.Pointer(&sliceHeader{
-		Data: uintptr(unsafe_NewArray(elemRType, cap)),
+		Data: unsafe_NewArray(elemRType, cap),
 		Len:  length,
 		Cap:  cap,
 	})
@@ -107,7 +107,7 @@ func unsafeGrowSlice(elemRType rtype, ptr unsafe.Pointer, newLength int) unsafe.
 
 func unsafeSliceChildPtr(ptr unsafe.Pointer, elemSize uintptr, index int) unsafe.Pointer {
 	sh := (*sliceHeader)(ptr)
-	return add(unsafe.Pointer(sh.Data), uintptr(index)*elemSize, "index < len")
+	return add(sh.Data, uintptr(index)*elemSize, "index < len")
 }
 
 //go:nosplit
diff --git a/val_decoder_native_slice.go b/val_decoder_native_slice.go
index 56e561f..2604462 100644
--- a/val_decoder_native_slice.go
+++ b/val_decoder_native_slice.go
@@ -47,7 +47,7 @@ func (dec *sliceDecoder) Decode(ptr unsafe.Pointer, it *Iterator, _ *DecOpts) er
 		sh := (*sliceHeader)(ptr)
 		sh.Len = 0
 		sh.Cap = 0
-		sh.Data = 0
+		sh.Data = nil
 		return nil
 	}
 	if c == '"' {
diff --git a/val_encoder_native_slice.go b/val_encoder_native_slice.go
index 44ec341..8abb6a6 100644
--- a/val_encoder_native_slice.go
+++ b/val_encoder_native_slice.go
@@ -27,7 +27,7 @@ type sliceEncoder struct {
 
 func (*sliceEncoder) IsEmpty(ptr unsafe.Pointer) bool {
 	sh := (*sliceHeader)(ptr)
-	return sh.Data == 0 || sh.Len == 0
+	return sh.Data == nil || sh.Len == 0
 }
 
 // Disable new -d=checkptr behaviour for Go 1.14
@@ -41,7 +41,7 @@ func (enc *sliceEncoder) Encode(ptr unsafe.Pointer, s *Streamer, _ *EncOpts) {
 		return
 	}
 	sh := (*sliceHeader)(ptr)
-	if sh.Data == 0 {
+	if sh.Data == nil {
 		s.Null()
 		return
 	}
@@ -50,13 +50,12 @@ func (enc *sliceEncoder) Encode(ptr unsafe.Pointer, s *Streamer, _ *EncOpts) {
 		return
 	}
 	s.ArrayStart()
-	curPtr := sh.Data
+	data := sh.Data
 	for i := 0; i < sh.Len; i++ {
-		enc.elemEncoder.Encode(unsafe.Pointer(curPtr), s, nil)
+		enc.elemEncoder.Encode(add(data, uintptr(i)*enc.elemSize, "i < len"), s, nil)
 		if s.Error != nil {
 			return
 		}
-		curPtr += enc.elemSize
 	}
 	s.ArrayEnd()
 }
-- 
2.43.0


From 24a4a1eba915249562c388d910e2281660319058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:37 +0000
Subject: [PATCH 12/14] fix: a struct without fields is not empty for
 omitempty, as in encoding/json

---
 val_encoder_native_struct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/val_encoder_native_struct.go b/val_encoder_native_struct.go
index f222a0e..856fe26 100644
--- a/val_encoder_native_struct.go
+++ b/val_encoder_native_struct.go
@@ -112,7 +112,7 @@ OuterLoop:
 type emptyStructEncoder struct{}
 
 func (*emptyStructEncoder) IsEmpty(ptr unsafe.Pointer) bool {
-	return true
+	return false
 }
 
 func (*emptyStructEncoder) Encode(ptr unsafe.Pointer, s *Streamer, opts *EncOpts) {
-- 
2.43.0


From 49ddea6a4733fa8ee3135922eb2f2fd76873b025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:06 +0000
Subject: [PATCH 13/14] fix: a custom encoder of a map or pointer type gets the
 address of the value at the top and in interfaces too

---
 encoder_config.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/encoder_config.go b/encoder_config.go
index 3587060..4cd53bd 100644
--- a/encoder_config.go
+++ b/encoder_config.go
@@ -67,7 +67,11 @@ func NewEncoderConfig(opt *EncoderOption) *EncoderConfig {
 	if opt != nil {
 		for typ, valEnc := range opt.ValEncoders {
 			rtype := rtypeOfType(typ)
-			cache[rtype] = valEnc
+			if ifaceIndir(rtype) {
+				cache[rtype] = valEnc
+			} else {
+				cache[rtype] = &directEncoder{valEnc}
+			}
 			internalCache[rtype] = valEnc
 		}
 		encCfg.escapeHTML = opt.EscapeHTML
-- 
2.43.0


From 2a29b7adfaa5228ccaebcd3322421c774235157f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:36 +0000
Subject: [PATCH 14/14] fix: map keys of an interface type with MarshalText no
 longer make Marshal panic

---
 val_encoder_native_map.go | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/val_encoder_native_map.go b/val_encoder_native_map.go
index b74a0bd..8188c35 100644
--- a/val_encoder_native_map.go
+++ b/val_encoder_native_map.go
@@ -22,7 +22,9 @@ func newMapEncoder(mapType reflect.Type) *mapEncoderBuilder {
 	case keyKind == reflect.String:
 		keyEncoder = keyEncoders[keyKind]
 	case keyType.Implements(textMarshalerType):
-		if ifaceIndir(keyRType) {
+		if keyKind == reflect.Interface {
+			keyEncoder = (*ifaceTextMarshalerKeyEncoder)(nil)
+		} else if ifaceIndir(keyRType) {
 			keyEncoder = textMarshalerKeyEncoder(keyRType)
 		} else {
 			keyEncoder = directTextMarshalerKeyEncoder(keyRType)
@@ -102,6 +104,28 @@ func (enc directTextMarshalerKeyEncoder) Encode(ptr unsafe.Pointer, s *Streamer)
 	s.poped = false
 }
 
+// the key type is an interface
+type ifaceTextMarshalerKeyEncoder struct{}
+
+func (*ifaceTextMarshalerKeyEncoder) Encode(ptr unsafe.Pointer, s *Streamer) {
+	if s.Error != nil {
+		return
+	}
+	obj := packIFace(ptr)
+	if obj == nil {
+		s.String("")
+	} else {
+		b, err := obj.(encoding.TextMarshaler).MarshalText()
+		if err != nil {
+			s.Error = err
+			return
+		}
+		s.String(localByteToString(b))
+	}
+	s.buffer = append(s.buffer, ':')
+	s.poped = false
+}
+
 // key encoders
 type stringKeyEncoder struct{}
 
-- 
2.43.0

