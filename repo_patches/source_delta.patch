From c2a58d61180042edc6ee8ecdafeb5db376dc8b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:53 +0000
Subject: [PATCH 01/40] fix: report read and write errors of action and
 permission names

---
 pkg/chain/action.go | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/pkg/chain/action.go b/pkg/chain/action.go
index 58bdd0c..eb4c045 100644
--- a/pkg/chain/action.go
+++ b/pkg/chain/action.go
@@ -51,14 +51,23 @@ func (a Action) Digest() Checksum256 {
 // abi.Marshaler conformance
 
 func (pl PermissionLevel) MarshalABI(e *abi.Encoder) error {
-	pl.Actor.MarshalABI(e)
+	err := pl.Actor.MarshalABI(e)
+	if err != nil {
+		return err
+	}
 	return pl.Permission.MarshalABI(e)
 }
 
 func (a Action) MarshalABI(e *abi.Encoder) error {
 	var err error
-	a.Account.MarshalABI(e)
-	a.Name.MarshalABI(e)
+	err = a.Account.MarshalABI(e)
+	if err != nil {
+		return err
+	}
+	err = a.Name.MarshalABI(e)
+	if err != nil {
+		return err
+	}
 	l := uint(len(a.Authorization))
 	err = e.WriteVaruint(l)
 	if err != nil {
@@ -76,13 +85,22 @@ func (a Action) MarshalABI(e *abi.Encoder) error {
 // abi.Unmarshaler conformance
 
 func (pl *PermissionLevel) UnmarshalABI(d *abi.Decoder) error {
-	pl.Actor.UnmarshalABI(d)
+	err := pl.Actor.UnmarshalABI(d)
+	if err != nil {
+		return err
+	}
 	return pl.Permission.UnmarshalABI(d)
 }
 
 func (a *Action) UnmarshalABI(d *abi.Decoder) error {
-	a.Account.UnmarshalABI(d)
-	a.Name.UnmarshalABI(d)
+	err := a.Account.UnmarshalABI(d)
+	if err != nil {
+		return err
+	}
+	err = a.Name.UnmarshalABI(d)
+	if err != nil {
+		return err
+	}
 	l, err := d.ReadVaruint()
 	if err != nil {
 		return err
-- 
2.43.0


From 5ded6348019baa601bda86ee0f1eee5804dd3054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:55 +0000
Subject: [PATCH 02/40] fix: replace the authorizations of a reused action when
 decoding

---
 pkg/chain/action.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/chain/action.go b/pkg/chain/action.go
index eb4c045..c8d5de7 100644
--- a/pkg/chain/action.go
+++ b/pkg/chain/action.go
@@ -105,6 +105,7 @@ func (a *Action) UnmarshalABI(d *abi.Decoder) error {
 	if err != nil {
 		return err
 	}
+	a.Authorization = nil
 	for i := 0; i < int(l); i++ {
 		var pl PermissionLevel
 		err = pl.UnmarshalABI(d)
-- 
2.43.0


From 360953395392969d8b51019cee167b13cf2e59bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:57 +0000
Subject: [PATCH 03/40] fix: report a failed write of an optional's presence
 flag

---
 pkg/abi/encode.go | 4 +++-
 pkg/chain/abi.go  | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/abi/encode.go b/pkg/abi/encode.go
index d8b420e..41a794d 100644
--- a/pkg/abi/encode.go
+++ b/pkg/abi/encode.go
@@ -113,7 +113,9 @@ func (enc *Encoder) EncodeValue(v reflect.Value) error {
 			tag := v.Type().Field(i).Tag.Get("eosio")
 			if tag == "optional" {
 				exists := !v.Field(i).IsZero()
-				enc.WriteBool(exists)
+				if err := enc.WriteBool(exists); err != nil {
+					return err
+				}
 				if !exists {
 					continue
 				}
diff --git a/pkg/chain/abi.go b/pkg/chain/abi.go
index c925d18..d8379ec 100644
--- a/pkg/chain/abi.go
+++ b/pkg/chain/abi.go
@@ -154,7 +154,7 @@ func (a Abi) encodeType(enc *abi.Encoder, t *resolvedType, v interface{}) error
 	if t.isOptional {
 		err = enc.WriteBool(exists)
 		if !exists || err != nil {
-			return nil
+			return err
 		}
 	} else if !exists {
 		return fmt.Errorf("found nil for non optional %v", t.baseName)
-- 
2.43.0


From f25b519c09de7803448c042194a8f75708ffc4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:59 +0000
Subject: [PATCH 04/40] fix: encode varints that need more than four bytes

---
 pkg/abi/encode.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/abi/encode.go b/pkg/abi/encode.go
index 41a794d..8619c26 100644
--- a/pkg/abi/encode.go
+++ b/pkg/abi/encode.go
@@ -219,13 +219,13 @@ func (enc *Encoder) WriteInt64(v int64) error {
 }
 
 func (enc *Encoder) WriteVaruint(v uint) error {
-	var b [4]byte
+	var b [binary.MaxVarintLen64]byte
 	l := binary.PutUvarint(b[:], uint64(v))
 	return enc.WriteBytes(b[:l])
 }
 
 func (enc *Encoder) WriteVarint(v int) error {
-	var b [4]byte
+	var b [binary.MaxVarintLen64]byte
 	l := binary.PutVarint(b[:], int64(v))
 	return enc.WriteBytes(b[:l])
 }
-- 
2.43.0


From 883600411bea153f962d798efe5754a6918f5008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:32 +0000
Subject: [PATCH 05/40] fix: reject varints that do not fit 32 bits

---
 pkg/abi/decode.go | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/pkg/abi/decode.go b/pkg/abi/decode.go
index 4419fd5..3b089be 100644
--- a/pkg/abi/decode.go
+++ b/pkg/abi/decode.go
@@ -17,6 +17,8 @@ type Decoder struct {
 	fn DecodeFunc
 }
 
+var errVarintOverflow = errors.New("abi: varint overflows 32 bits")
+
 type Unmarshaler interface {
 	UnmarshalABI(*Decoder) error
 }
@@ -414,7 +416,7 @@ func (dec *Decoder) ReadBool() (bool, error) {
 }
 
 func (dec *Decoder) ReadVaruint() (uint, error) {
-	v, err := binary.ReadUvarint(dec)
+	v, err := dec.readVaruint32()
 	if err != nil {
 		return 0, err
 	}
@@ -422,11 +424,34 @@ func (dec *Decoder) ReadVaruint() (uint, error) {
 }
 
 func (dec *Decoder) ReadVarint() (int, error) {
-	v, err := binary.ReadVarint(dec)
+	v, err := dec.readVaruint32()
 	if err != nil {
 		return 0, err
 	}
-	return int(v), nil
+	// zigzag
+	return int(int32(v>>1) ^ -int32(v&1)), nil
+}
+
+// EOSIO varints are 32-bit, so at most five bytes long.
+func (dec *Decoder) readVaruint32() (uint32, error) {
+	var v uint64
+	for i := 0; i < binary.MaxVarintLen32; i++ {
+		b, err := dec.ReadByte()
+		if err != nil {
+			if i > 0 && err == io.EOF {
+				err = io.ErrUnexpectedEOF
+			}
+			return 0, err
+		}
+		v |= uint64(b&0x7f) << (7 * i)
+		if b < 0x80 {
+			if v > math.MaxUint32 {
+				return 0, errVarintOverflow
+			}
+			return uint32(v), nil
+		}
+	}
+	return 0, errVarintOverflow
 }
 
 func (dec *Decoder) ReadFloat32() (float32, error) {
-- 
2.43.0


From 7a04afa44647ee66c84eb80a74e9ab1ab8406174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:53 +0000
Subject: [PATCH 06/40] fix: don't allocate memory for lengths the stream has
 not backed with data

---
 pkg/abi/decode.go        | 49 +++++++++++++++++++++++++++++++++++-----
 pkg/chain/abi.go         |  6 +++--
 pkg/chain/transaction.go | 18 ++++++++++-----
 3 files changed, 59 insertions(+), 14 deletions(-)

diff --git a/pkg/abi/decode.go b/pkg/abi/decode.go
index 3b089be..2b57ff8 100644
--- a/pkg/abi/decode.go
+++ b/pkg/abi/decode.go
@@ -257,9 +257,16 @@ func (dec *Decoder) DecodeValue(v reflect.Value) error {
 		l, err = dec.ReadVaruint()
 		if err == nil {
 			if pv.Len() != int(l) {
-				pv.Set(reflect.MakeSlice(pv.Type(), int(l), int(l)))
+				pl := preallocLen(int(l), pv.Type().Elem().Size())
+				pv.Set(reflect.MakeSlice(pv.Type(), pl, pl))
 			}
 			for i := 0; i < int(l); i++ {
+				if i == pv.Len() {
+					gl := growLen(i, int(l))
+					grown := reflect.MakeSlice(pv.Type(), gl, gl)
+					reflect.Copy(grown, pv)
+					pv.Set(grown)
+				}
 				pv := pv.Index(i)
 				if pv.Kind() == reflect.Ptr {
 					if pv.IsNil() {
@@ -318,12 +325,42 @@ func (dec *Decoder) ReadBytes(n int) (an int, b []byte, err error) {
 	if n == 0 {
 		return 0, []byte{}, nil
 	}
-	b = make([]byte, n)
-	an, err = io.ReadFull(dec.r, b)
-	if err != nil {
-		return an, b, err
+	// the count may come from the stream itself, so grow with what is delivered instead of trusting it
+	b = make([]byte, preallocLen(n, 1))
+	for {
+		var rn int
+		rn, err = io.ReadFull(dec.r, b[an:])
+		an += rn
+		if err != nil {
+			if err == io.EOF && an > 0 {
+				err = io.ErrUnexpectedEOF
+			}
+			return an, b[:an], err
+		}
+		if an == n {
+			return an, b, nil
+		}
+		next := make([]byte, growLen(an, n))
+		copy(next, b)
+		b = next
+	}
+}
+
+// Memory in bytes to allocate up front for a length that has not been backed by any data yet.
+const maxPrealloc = 4096
+
+func preallocLen(n int, elemSize uintptr) int {
+	if elemSize > 0 && n > maxPrealloc/int(elemSize) {
+		n = maxPrealloc/int(elemSize) + 1
+	}
+	return n
+}
+
+func growLen(have int, want int) int {
+	if want/2 < have {
+		return want
 	}
-	return an, b, nil
+	return have * 2
 }
 
 func (dec *Decoder) ReadByte() (byte, error) {
diff --git a/pkg/chain/abi.go b/pkg/chain/abi.go
index d8379ec..6529729 100644
--- a/pkg/chain/abi.go
+++ b/pkg/chain/abi.go
@@ -413,12 +413,14 @@ func (a Abi) decodeType(dec *abi.Decoder, t *resolvedType, v *interface{}) error
 		var l uint
 		l, err = dec.ReadVaruint()
 		if err == nil {
-			va := make([]interface{}, l)
+			va := []interface{}{}
 			for i := 0; i < int(l); i++ {
-				err = a.decodeInner(dec, t, &va[i])
+				var e interface{}
+				err = a.decodeInner(dec, t, &e)
 				if err != nil {
 					return err // can't recover from this
 				}
+				va = append(va, e)
 			}
 			*v = va
 		}
diff --git a/pkg/chain/transaction.go b/pkg/chain/transaction.go
index dffb1df..bdd8b03 100644
--- a/pkg/chain/transaction.go
+++ b/pkg/chain/transaction.go
@@ -152,34 +152,40 @@ func (tx *Transaction) UnmarshalABI(d *abi.Decoder) error {
 	if err != nil {
 		return err
 	}
-	tx.ContextFreeActions = make([]Action, len)
+	tx.ContextFreeActions = []Action{}
 	for i := 0; i < int(len); i++ {
-		err = tx.ContextFreeActions[i].UnmarshalABI(d)
+		var v Action
+		err = v.UnmarshalABI(d)
 		if err != nil {
 			return err
 		}
+		tx.ContextFreeActions = append(tx.ContextFreeActions, v)
 	}
 	len, err = d.ReadVaruint()
 	if err != nil {
 		return err
 	}
-	tx.Actions = make([]Action, len)
+	tx.Actions = []Action{}
 	for i := 0; i < int(len); i++ {
-		err = tx.Actions[i].UnmarshalABI(d)
+		var v Action
+		err = v.UnmarshalABI(d)
 		if err != nil {
 			return err
 		}
+		tx.Actions = append(tx.Actions, v)
 	}
 	len, err = d.ReadVaruint()
 	if err != nil {
 		return err
 	}
-	tx.Extensions = make([]TransactionExtension, len)
+	tx.Extensions = []TransactionExtension{}
 	for i := 0; i < int(len); i++ {
-		err = tx.Extensions[i].UnmarshalABI(d)
+		var v TransactionExtension
+		err = v.UnmarshalABI(d)
 		if err != nil {
 			return err
 		}
+		tx.Extensions = append(tx.Extensions, v)
 	}
 	return err
 }
-- 
2.43.0


From a9d0c47af0704fcdb36cbc1056298a42646b85bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:13 +0000
Subject: [PATCH 07/40] fix: a partly delivered binary extension is an error,
 not an absent field

---
 pkg/abi/decode.go | 10 +++++++++-
 pkg/chain/abi.go  | 12 +++++++++---
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/pkg/abi/decode.go b/pkg/abi/decode.go
index 2b57ff8..c0158f5 100644
--- a/pkg/abi/decode.go
+++ b/pkg/abi/decode.go
@@ -15,6 +15,7 @@ type DecodeFunc func(dec *Decoder, v interface{}) (done bool, err error)
 type Decoder struct {
 	r  io.Reader
 	fn DecodeFunc
+	n  int64
 }
 
 var errVarintOverflow = errors.New("abi: varint overflows 32 bits")
@@ -28,6 +29,11 @@ func NewDecoder(r io.Reader, fn DecodeFunc) *Decoder {
 	return &Decoder{r: r, fn: fn}
 }
 
+// InputOffset returns the number of bytes read from the stream so far.
+func (dec *Decoder) InputOffset() int64 {
+	return dec.n
+}
+
 // Decode into given value.
 func (dec *Decoder) Decode(v interface{}) error {
 	var err error
@@ -223,6 +229,7 @@ func (dec *Decoder) DecodeValue(v reflect.Value) error {
 				}
 
 				tag := t.Tag.Get("eosio")
+				start := dec.n
 				if tag == "optional" {
 					exists, err := dec.ReadBool()
 					if err != nil {
@@ -240,7 +247,7 @@ func (dec *Decoder) DecodeValue(v reflect.Value) error {
 					err = dec.Decode(vi)
 				}
 
-				if tag == "extension" && err == io.EOF {
+				if tag == "extension" && err == io.EOF && dec.n == start {
 					// TODO: make sure extensions are only last field in a top-level struct
 					pv.Set(reflect.Zero(pv.Type()))
 					continue
@@ -331,6 +338,7 @@ func (dec *Decoder) ReadBytes(n int) (an int, b []byte, err error) {
 		var rn int
 		rn, err = io.ReadFull(dec.r, b[an:])
 		an += rn
+		dec.n += int64(rn)
 		if err != nil {
 			if err == io.EOF && an > 0 {
 				err = io.ErrUnexpectedEOF
diff --git a/pkg/chain/abi.go b/pkg/chain/abi.go
index 6529729..8d7f49f 100644
--- a/pkg/chain/abi.go
+++ b/pkg/chain/abi.go
@@ -401,6 +401,15 @@ func (a Abi) encodeInner(enc *abi.Encoder, t *resolvedType, v interface{}) error
 }
 
 func (a Abi) decodeType(dec *abi.Decoder, t *resolvedType, v *interface{}) error {
+	start := dec.InputOffset()
+	err := a.decodeContainer(dec, t, v)
+	if err == io.EOF && t.isExtension && dec.InputOffset() == start {
+		return nil
+	}
+	return err
+}
+
+func (a Abi) decodeContainer(dec *abi.Decoder, t *resolvedType, v *interface{}) error {
 	var err error
 	if t.isOptional {
 		var exists bool
@@ -427,9 +436,6 @@ func (a Abi) decodeType(dec *abi.Decoder, t *resolvedType, v *interface{}) error
 	} else {
 		err = a.decodeInner(dec, t, v)
 	}
-	if err == io.EOF && t.isExtension {
-		return nil
-	}
 	return err
 }
 
-- 
2.43.0


From 0c7d14a4bd4fee5a7906c11e37295053eca27d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:41 +0000
Subject: [PATCH 08/40] fix: leave out an absent binary extension instead of
 making up a zero value

---
 pkg/chain/abi.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/chain/abi.go b/pkg/chain/abi.go
index 8d7f49f..a8df368 100644
--- a/pkg/chain/abi.go
+++ b/pkg/chain/abi.go
@@ -404,6 +404,7 @@ func (a Abi) decodeType(dec *abi.Decoder, t *resolvedType, v *interface{}) error
 	start := dec.InputOffset()
 	err := a.decodeContainer(dec, t, v)
 	if err == io.EOF && t.isExtension && dec.InputOffset() == start {
+		*v = nil
 		return nil
 	}
 	return err
-- 
2.43.0


From 1f92d6a881ae940b7dac245fb97ca22f7786a362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:43 +0000
Subject: [PATCH 09/40] fix: resolve short, empty and "?$" suffixed type names
 without a panic

---
 pkg/chain/abi.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/pkg/chain/abi.go b/pkg/chain/abi.go
index a8df368..1c8a720 100644
--- a/pkg/chain/abi.go
+++ b/pkg/chain/abi.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"io"
 	"reflect"
+	"strings"
 
 	"github.com/greymass/go-eosio/pkg/abi"
 )
@@ -595,18 +596,23 @@ func (r *resolver) resolve(name string) *resolvedType {
 		return r.types[name]
 	}
 	var isOptional bool
+	var isExtension bool
 	baseName := name
-	if name[len(name)-1] == '?' {
+	if strings.HasSuffix(baseName, "?$") {
+		// the order nodeos uses
+		isExtension = true
+		baseName = baseName[:len(baseName)-1]
+	}
+	if strings.HasSuffix(baseName, "?") {
 		isOptional = true
-		baseName = name[:len(name)-1]
+		baseName = baseName[:len(baseName)-1]
 	}
-	var isExtension bool
-	if baseName[len(baseName)-1] == '$' {
+	if !isExtension && strings.HasSuffix(baseName, "$") {
 		isExtension = true
 		baseName = baseName[:len(baseName)-1]
 	}
 	var isArray bool
-	if baseName[len(baseName)-2] == '[' && baseName[len(baseName)-1] == ']' {
+	if strings.HasSuffix(baseName, "[]") {
 		isArray = true
 		baseName = baseName[:len(baseName)-2]
 	}
-- 
2.43.0


From b12593dbc832f202c022f5281e7116bbd3a00ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:10 +0000
Subject: [PATCH 10/40] fix: fail on ABI types that contain themselves instead
 of overflowing the stack

---
 pkg/chain/abi.go | 48 ++++++++++++++++++++++++++++++------------------
 1 file changed, 30 insertions(+), 18 deletions(-)

diff --git a/pkg/chain/abi.go b/pkg/chain/abi.go
index 1c8a720..2cf6dd3 100644
--- a/pkg/chain/abi.go
+++ b/pkg/chain/abi.go
@@ -1,6 +1,7 @@
 package chain
 
 import (
+	"errors"
 	"fmt"
 	"io"
 	"reflect"
@@ -138,7 +139,7 @@ func (a Abi) Decode(r io.Reader, name string) (interface{}, error) {
 	t := res.resolve(name)
 	dec := NewDecoder(r)
 	var rv interface{}
-	err := a.decodeType(dec, t, &rv)
+	err := a.decodeType(dec, t, &rv, 0)
 	return rv, err
 }
 
@@ -146,10 +147,18 @@ func (a Abi) Encode(w io.Writer, name string, v interface{}) error {
 	res := resolver{&a, make(map[string]*resolvedType)}
 	t := res.resolve(name)
 	enc := NewEncoder(w)
-	return a.encodeType(enc, t, v)
+	return a.encodeType(enc, t, v, 0)
 }
 
-func (a Abi) encodeType(enc *abi.Encoder, t *resolvedType, v interface{}) error {
+// How deep types can nest, stops definitions that contain themselves.
+const maxTypeDepth = 1000
+
+var errTypeDepth = errors.New("abi type is nested too deep")
+
+func (a Abi) encodeType(enc *abi.Encoder, t *resolvedType, v interface{}, depth int) error {
+	if depth > maxTypeDepth {
+		return errTypeDepth
+	}
 	var err error
 	exists := v != nil
 	if t.isOptional {
@@ -170,28 +179,28 @@ func (a Abi) encodeType(enc *abi.Encoder, t *resolvedType, v interface{}) error
 			return err
 		}
 		for _, e := range va {
-			err = a.encodeInner(enc, t, e)
+			err = a.encodeInner(enc, t, e, depth)
 			if err != nil {
 				return err
 			}
 		}
 	} else {
-		err = a.encodeInner(enc, t, v)
+		err = a.encodeInner(enc, t, v, depth)
 	}
 	return err
 }
 
-func (a Abi) encodeInner(enc *abi.Encoder, t *resolvedType, v interface{}) error {
+func (a Abi) encodeInner(enc *abi.Encoder, t *resolvedType, v interface{}, depth int) error {
 	var err error
 	if ref := t.ref; ref != nil {
-		return a.encodeType(enc, ref, v)
+		return a.encodeType(enc, ref, v, depth+1)
 	} else if fields := t.allFields(); fields != nil {
 		vs, ok := v.(map[string]interface{})
 		if !ok {
 			return fmt.Errorf("expected map, found %v", reflect.TypeOf(v))
 		}
 		for _, f := range fields {
-			if err = a.encodeType(enc, f.typ, vs[f.name]); err != nil {
+			if err = a.encodeType(enc, f.typ, vs[f.name], depth+1); err != nil {
 				return err
 			}
 		}
@@ -222,7 +231,7 @@ func (a Abi) encodeInner(enc *abi.Encoder, t *resolvedType, v interface{}) error
 		}
 		err = enc.WriteVaruint(uint(ti))
 		if err == nil {
-			err = a.encodeType(enc, tv, va[1])
+			err = a.encodeType(enc, tv, va[1], depth+1)
 		}
 	} else {
 		var ok bool
@@ -401,9 +410,12 @@ func (a Abi) encodeInner(enc *abi.Encoder, t *resolvedType, v interface{}) error
 	return err
 }
 
-func (a Abi) decodeType(dec *abi.Decoder, t *resolvedType, v *interface{}) error {
+func (a Abi) decodeType(dec *abi.Decoder, t *resolvedType, v *interface{}, depth int) error {
+	if depth > maxTypeDepth {
+		return errTypeDepth
+	}
 	start := dec.InputOffset()
-	err := a.decodeContainer(dec, t, v)
+	err := a.decodeContainer(dec, t, v, depth)
 	if err == io.EOF && t.isExtension && dec.InputOffset() == start {
 		*v = nil
 		return nil
@@ -411,7 +423,7 @@ func (a Abi) decodeType(dec *abi.Decoder, t *resolvedType, v *interface{}) error
 	return err
 }
 
-func (a Abi) decodeContainer(dec *abi.Decoder, t *resolvedType, v *interface{}) error {
+func (a Abi) decodeContainer(dec *abi.Decoder, t *resolvedType, v *interface{}, depth int) error {
 	var err error
 	if t.isOptional {
 		var exists bool
@@ -427,7 +439,7 @@ func (a Abi) decodeContainer(dec *abi.Decoder, t *resolvedType, v *interface{})
 			va := []interface{}{}
 			for i := 0; i < int(l); i++ {
 				var e interface{}
-				err = a.decodeInner(dec, t, &e)
+				err = a.decodeInner(dec, t, &e, depth)
 				if err != nil {
 					return err // can't recover from this
 				}
@@ -436,21 +448,21 @@ func (a Abi) decodeContainer(dec *abi.Decoder, t *resolvedType, v *interface{})
 			*v = va
 		}
 	} else {
-		err = a.decodeInner(dec, t, v)
+		err = a.decodeInner(dec, t, v, depth)
 	}
 	return err
 }
 
-func (a Abi) decodeInner(dec *abi.Decoder, t *resolvedType, v *interface{}) error {
+func (a Abi) decodeInner(dec *abi.Decoder, t *resolvedType, v *interface{}, depth int) error {
 	var err error
 
 	if ref := t.ref; ref != nil {
-		return a.decodeType(dec, ref, v)
+		return a.decodeType(dec, ref, v, depth+1)
 	} else if fields := t.allFields(); fields != nil {
 		vs := make(map[string]interface{})
 		for _, field := range fields {
 			var fv interface{}
-			err := a.decodeType(dec, field.typ, &fv)
+			err := a.decodeType(dec, field.typ, &fv, depth+1)
 			if err != nil {
 				return err
 			}
@@ -470,7 +482,7 @@ func (a Abi) decodeInner(dec *abi.Decoder, t *resolvedType, v *interface{}) erro
 		tv := (*variant)[idx]
 		var vv []interface{} = make([]interface{}, 2)
 		vv[0] = tv.name
-		err = a.decodeType(dec, tv, &vv[1])
+		err = a.decodeType(dec, tv, &vv[1], depth+1)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 9b6664ef8bdd9fb6ec61f4c9d24898e4bc0725fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:12 +0000
Subject: [PATCH 11/40] fix: accept ABI structs without fields

---
 pkg/chain/abi.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/chain/abi.go b/pkg/chain/abi.go
index 2cf6dd3..09715f5 100644
--- a/pkg/chain/abi.go
+++ b/pkg/chain/abi.go
@@ -695,10 +695,10 @@ func (rt *resolvedType) allFields() []*struct {
 	if rt.fields == nil {
 		return nil
 	}
-	var rv []*struct {
+	rv := []*struct {
 		name string
 		typ  *resolvedType
-	}
+	}{}
 	var seen map[string]bool = make(map[string]bool)
 	var cur *resolvedType = rt
 	for {
-- 
2.43.0


From 8d607c8dd893f92e4876371a7c3c78c49e2b94a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:15 +0000
Subject: [PATCH 12/40] fix: write the length of ABI encoded bytes and accept
 the type decoding returns

---
 pkg/chain/abi.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/chain/abi.go b/pkg/chain/abi.go
index 09715f5..6f11510 100644
--- a/pkg/chain/abi.go
+++ b/pkg/chain/abi.go
@@ -327,8 +327,11 @@ func (a Abi) encodeInner(enc *abi.Encoder, t *resolvedType, v interface{}, depth
 			}
 		case "bytes":
 			var vv []byte
+			var vv2 Bytes
 			if vv, ok = v.([]byte); ok {
-				err = enc.WriteBytes(vv)
+				err = Bytes(vv).MarshalABI(enc)
+			} else if vv2, ok = v.(Bytes); ok {
+				err = vv2.MarshalABI(enc)
 			}
 		// chain builtins
 		case "asset":
-- 
2.43.0


From 10b42f64fb88328fe60f0a45865ee7a3d36b6b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:17 +0000
Subject: [PATCH 13/40] fix: decode eosio::name, which encoding supports

---
 pkg/chain/abi.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/chain/abi.go b/pkg/chain/abi.go
index 6f11510..0060cd1 100644
--- a/pkg/chain/abi.go
+++ b/pkg/chain/abi.go
@@ -564,7 +564,7 @@ func (a Abi) decodeInner(dec *abi.Decoder, t *resolvedType, v *interface{}, dept
 			var rv ExtendedAsset
 			err = rv.UnmarshalABI(dec)
 			*v = rv
-		case "name":
+		case "name", "eosio::name":
 			var rv Name
 			err = rv.UnmarshalABI(dec)
 			*v = rv
-- 
2.43.0


From fc51437009112a8629292e7fcb98c7a80deb2d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:41 +0000
Subject: [PATCH 14/40] fix: limit how deep the decoder follows recursive types

---
 pkg/abi/decode.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/pkg/abi/decode.go b/pkg/abi/decode.go
index c0158f5..77f1b33 100644
--- a/pkg/abi/decode.go
+++ b/pkg/abi/decode.go
@@ -13,11 +13,15 @@ import (
 type DecodeFunc func(dec *Decoder, v interface{}) (done bool, err error)
 
 type Decoder struct {
-	r  io.Reader
-	fn DecodeFunc
-	n  int64
+	r     io.Reader
+	fn    DecodeFunc
+	n     int64
+	depth int
 }
 
+// How deep values can nest, stops the stack from overflowing for recursive types.
+const maxDepth = 10000
+
 var errVarintOverflow = errors.New("abi: varint overflows 32 bits")
 
 type Unmarshaler interface {
@@ -151,6 +155,12 @@ func (dec *Decoder) DecodeVariant(v interface{}) error {
 func (dec *Decoder) DecodeValue(v reflect.Value) error {
 	var err error
 
+	dec.depth++
+	defer func() { dec.depth-- }()
+	if dec.depth > maxDepth {
+		return errors.New("abi: value is nested too deep")
+	}
+
 	u, pv := indirect(v, false)
 	if u != nil {
 		return u.UnmarshalABI(dec)
-- 
2.43.0


From 66097244281d9cd6006782be901cd21376fc4499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:44 +0000
Subject: [PATCH 15/40] fix: don't let a length alone make the decoder work
 through elements without data

---
 pkg/abi/decode.go | 20 ++++++++++++++++++++
 pkg/chain/abi.go  |  4 ++++
 2 files changed, 24 insertions(+)

diff --git a/pkg/abi/decode.go b/pkg/abi/decode.go
index 77f1b33..2586972 100644
--- a/pkg/abi/decode.go
+++ b/pkg/abi/decode.go
@@ -38,6 +38,18 @@ func (dec *Decoder) InputOffset() int64 {
 	return dec.n
 }
 
+// Elements that occupy no bytes a list can have, more are not backed by any data.
+const maxEmptyElements = 64
+
+// CheckEmpty returns an error if a list of given length is too long for elements that occupy no bytes
+// and nothing has been read since the given input offset.
+func (dec *Decoder) CheckEmpty(offset int64, length uint) error {
+	if dec.n == offset && length > maxEmptyElements {
+		return fmt.Errorf("abi: too many empty elements: %d", length)
+	}
+	return nil
+}
+
 // Decode into given value.
 func (dec *Decoder) Decode(v interface{}) error {
 	var err error
@@ -204,6 +216,7 @@ func (dec *Decoder) DecodeValue(v reflect.Value) error {
 				pv.Set(reflect.MakeMap(pv.Type()))
 			}
 			for i := 0; i < int(l); i++ {
+				start := dec.n
 				// read key
 				key := reflect.New(keyType).Elem()
 				err = dec.Decode(key.Addr().Interface())
@@ -218,6 +231,9 @@ func (dec *Decoder) DecodeValue(v reflect.Value) error {
 				}
 				// set value
 				pv.SetMapIndex(key, value)
+				if err = dec.CheckEmpty(start, l); err != nil {
+					break
+				}
 			}
 		}
 
@@ -285,6 +301,7 @@ func (dec *Decoder) DecodeValue(v reflect.Value) error {
 					pv.Set(grown)
 				}
 				pv := pv.Index(i)
+				start := dec.n
 				if pv.Kind() == reflect.Ptr {
 					if pv.IsNil() {
 						pv.Set(reflect.New(pv.Type().Elem()))
@@ -293,6 +310,9 @@ func (dec *Decoder) DecodeValue(v reflect.Value) error {
 				} else {
 					err = dec.Decode(pv.Addr().Interface())
 				}
+				if err == nil {
+					err = dec.CheckEmpty(start, l)
+				}
 				if err != nil {
 					break
 				}
diff --git a/pkg/chain/abi.go b/pkg/chain/abi.go
index 0060cd1..63275b0 100644
--- a/pkg/chain/abi.go
+++ b/pkg/chain/abi.go
@@ -442,7 +442,11 @@ func (a Abi) decodeContainer(dec *abi.Decoder, t *resolvedType, v *interface{},
 			va := []interface{}{}
 			for i := 0; i < int(l); i++ {
 				var e interface{}
+				start := dec.InputOffset()
 				err = a.decodeInner(dec, t, &e, depth)
+				if err == nil {
+					err = dec.CheckEmpty(start, l)
+				}
 				if err != nil {
 					return err // can't recover from this
 				}
-- 
2.43.0


From 892631b00d7cb6d5d81baee2a2eaa6c9ea3096aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:00 +0000
Subject: [PATCH 16/40] fix: don't panic on base58 strings with non-ASCII
 characters

---
 pkg/base58/base58.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/base58/base58.go b/pkg/base58/base58.go
index eb6c070..71f415b 100644
--- a/pkg/base58/base58.go
+++ b/pkg/base58/base58.go
@@ -48,8 +48,8 @@ func Decode(b string) []byte {
 		}
 
 		total := uint64(0)
-		for _, v := range t[:n] {
-			tmp := b58[v]
+		for i := 0; i < n; i++ {
+			tmp := b58[t[i]]
 			if tmp == 255 {
 				return []byte("")
 			}
-- 
2.43.0


From 637c32fb3da39cdd1a5e6eb9a9108df4d3d0f271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:03 +0000
Subject: [PATCH 17/40] fix: don't panic on short legacy public keys

---
 pkg/chain/public_key.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/chain/public_key.go b/pkg/chain/public_key.go
index 2b4335a..948d0cc 100644
--- a/pkg/chain/public_key.go
+++ b/pkg/chain/public_key.go
@@ -45,6 +45,9 @@ func NewPublicKeyFromString(s string) (*PublicKey, error) {
 		}, err
 	}
 	// legacy format
+	if len(s) < 50 {
+		return nil, errors.New("invalid public key string")
+	}
 	d, err := base58.CheckDecode(s[len(s)-50:])
 	return &PublicKey{
 		Type: K1,
-- 
2.43.0


From 676559be2a317340b0e0606df73dc54a8a3835e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:05 +0000
Subject: [PATCH 18/40] fix: use the ripemd160 checksum EOSIO uses for legacy
 public keys

---
 pkg/chain/public_key.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/chain/public_key.go b/pkg/chain/public_key.go
index 948d0cc..79a835d 100644
--- a/pkg/chain/public_key.go
+++ b/pkg/chain/public_key.go
@@ -48,7 +48,7 @@ func NewPublicKeyFromString(s string) (*PublicKey, error) {
 	if len(s) < 50 {
 		return nil, errors.New("invalid public key string")
 	}
-	d, err := base58.CheckDecode(s[len(s)-50:])
+	d, err := base58.CheckDecodeEosio(s[len(s)-50:], "")
 	return &PublicKey{
 		Type: K1,
 		Data: d,
@@ -64,7 +64,7 @@ func (pk *PublicKey) LegacyString(prefix string) string {
 	if pk.Type != K1 {
 		panic("only K1 keys can be converted to legacy format")
 	}
-	return prefix + base58.CheckEncode(pk.Data)
+	return prefix + base58.CheckEncodeEosio(pk.Data, "")
 }
 
 // abi.Marshaler conformance
-- 
2.43.0


From 2a86146548249e49c15bca751a384f384865162f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:28 +0000
Subject: [PATCH 19/40] fix: reject checksum and float128 text of the wrong
 length

---
 pkg/chain/checksum.go | 31 ++++++++++++++++---------------
 pkg/chain/numbers.go  |  6 +-----
 2 files changed, 17 insertions(+), 20 deletions(-)

diff --git a/pkg/chain/checksum.go b/pkg/chain/checksum.go
index 06ea317..df5d801 100644
--- a/pkg/chain/checksum.go
+++ b/pkg/chain/checksum.go
@@ -4,6 +4,7 @@ import (
 	"crypto/sha256"
 	"crypto/sha512"
 	"encoding/hex"
+	"fmt"
 
 	"github.com/greymass/go-eosio/pkg/abi"
 	"github.com/greymass/go-eosio/pkg/ripemd160"
@@ -117,28 +118,28 @@ func (c512 Checksum512) MarshalText() (text []byte, err error) {
 // encoding.TextUnmarshaler conformance
 
 func (c160 *Checksum160) UnmarshalText(text []byte) error {
-	data := make([]byte, hex.DecodedLen(len(text)))
-	_, err := hex.Decode(data, text)
-	if err == nil {
-		copy((*c160)[:], data[:20])
-	}
-	return err
+	return unmarshalHex((*c160)[:], text)
 }
 
 func (c256 *Checksum256) UnmarshalText(text []byte) error {
-	data := make([]byte, hex.DecodedLen(len(text)))
-	_, err := hex.Decode(data, text)
-	if err == nil {
-		copy((*c256)[:], data[:32])
-	}
-	return err
+	return unmarshalHex((*c256)[:], text)
 }
 
 func (c512 *Checksum512) UnmarshalText(text []byte) error {
+	return unmarshalHex((*c512)[:], text)
+}
+
+// helpers
+
+func unmarshalHex(dst []byte, text []byte) error {
 	data := make([]byte, hex.DecodedLen(len(text)))
 	_, err := hex.Decode(data, text)
-	if err == nil {
-		copy((*c512)[:], data[:64])
+	if err != nil {
+		return err
 	}
-	return err
+	if len(data) != len(dst) {
+		return fmt.Errorf("expected %d bytes of hex data, found %d", len(dst), len(data))
+	}
+	copy(dst, data)
+	return nil
 }
diff --git a/pkg/chain/numbers.go b/pkg/chain/numbers.go
index 4edba44..b14249b 100644
--- a/pkg/chain/numbers.go
+++ b/pkg/chain/numbers.go
@@ -219,11 +219,7 @@ func (i128 *Int128) UnmarshalText(text []byte) error {
 }
 
 func (f128 *Float128) UnmarshalText(text []byte) error {
-	b, err := hex.DecodeString(string(text))
-	if err == nil {
-		copy(f128.Data[:], b)
-	}
-	return err
+	return unmarshalHex(f128.Data[:], text)
 }
 
 // json.Marshaler conformance
-- 
2.43.0


From 78adf4880de83dfbd8b3dba8530fe0f5273a333a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:31 +0000
Subject: [PATCH 20/40] fix: report malformed hex text when parsing bytes

---
 pkg/chain/bytes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/chain/bytes.go b/pkg/chain/bytes.go
index 7427f71..69dbc36 100644
--- a/pkg/chain/bytes.go
+++ b/pkg/chain/bytes.go
@@ -54,5 +54,5 @@ func (b *Bytes) UnmarshalText(text []byte) error {
 	if err == nil {
 		*b = data
 	}
-	return nil
+	return err
 }
-- 
2.43.0


From 934668265d63eab663ab2675856f939fa398590b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:33 +0000
Subject: [PATCH 21/40] fix: don't write base64 padding into the caller's text

---
 pkg/chain/blob.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pkg/chain/blob.go b/pkg/chain/blob.go
index a382d73..422d1c0 100644
--- a/pkg/chain/blob.go
+++ b/pkg/chain/blob.go
@@ -51,13 +51,16 @@ func (b Blob) MarshalText() (text []byte, err error) {
 
 func (b *Blob) UnmarshalText(text []byte) error {
 	// fix up the base64 encoding padding
-	switch len(text) % 4 {
+	str := string(text)
+	switch len(str) % 4 {
 	case 2:
-		text = append(text, "=="...)
+		str += "=="
 	case 3:
-		text = append(text, "="...)
+		str += "="
+	}
+	data, err := base64.StdEncoding.DecodeString(str)
+	if err == nil {
+		*b = data
 	}
-	var err error
-	*b, err = base64.StdEncoding.DecodeString(string(text))
 	return err
 }
-- 
2.43.0


From 515f881171342c6185e31a3bfe258e9c3b62ea4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:07 +0000
Subject: [PATCH 22/40] fix: encode map entries in key order so equal maps
 encode equally

---
 pkg/abi/encode.go | 48 +++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 44 insertions(+), 4 deletions(-)

diff --git a/pkg/abi/encode.go b/pkg/abi/encode.go
index 8619c26..25b5863 100644
--- a/pkg/abi/encode.go
+++ b/pkg/abi/encode.go
@@ -1,11 +1,13 @@
 package abi
 
 import (
+	"bytes"
 	"encoding/binary"
 	"errors"
 	"io"
 	"math"
 	"reflect"
+	"sort"
 )
 
 // Fast-path decoding function can be implemented to handle additional types without reflection.
@@ -127,15 +129,19 @@ func (enc *Encoder) EncodeValue(v reflect.Value) error {
 		}
 	case reflect.Map:
 		l := v.Len()
-		err := enc.WriteVaruint(uint(l))
+		entries, err := enc.sortedEntries(v)
+		if err != nil {
+			return err
+		}
+		err = enc.WriteVaruint(uint(l))
 		if err != nil {
 			return err
 		}
-		for _, key := range v.MapKeys() {
-			if err := enc.Encode(key.Interface()); err != nil {
+		for _, entry := range entries {
+			if err := enc.Encode(entry.key.Interface()); err != nil {
 				return err
 			}
-			if err := enc.Encode(v.MapIndex(key).Interface()); err != nil {
+			if err := enc.Encode(entry.value.Interface()); err != nil {
 				return err
 			}
 		}
@@ -156,6 +162,40 @@ func (enc *Encoder) EncodeValue(v reflect.Value) error {
 	return nil
 }
 
+type mapEntry struct {
+	key   reflect.Value
+	value reflect.Value
+	raw   []byte
+}
+
+// Map entries in ascending key order, keys other than integers and strings are ordered by their encoding.
+func (enc *Encoder) sortedEntries(v reflect.Value) ([]mapEntry, error) {
+	entries := make([]mapEntry, 0, v.Len())
+	for iter := v.MapRange(); iter.Next(); {
+		entries = append(entries, mapEntry{key: iter.Key(), value: iter.Value()})
+	}
+	var less func(a, b *mapEntry) bool
+	switch v.Type().Key().Kind() {
+	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
+		less = func(a, b *mapEntry) bool { return a.key.Int() < b.key.Int() }
+	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+		less = func(a, b *mapEntry) bool { return a.key.Uint() < b.key.Uint() }
+	case reflect.String:
+		less = func(a, b *mapEntry) bool { return a.key.String() < b.key.String() }
+	default:
+		for i := range entries {
+			var buf bytes.Buffer
+			if err := NewEncoder(&buf, enc.fn).Encode(entries[i].key.Interface()); err != nil {
+				return nil, err
+			}
+			entries[i].raw = buf.Bytes()
+		}
+		less = func(a, b *mapEntry) bool { return bytes.Compare(a.raw, b.raw) < 0 }
+	}
+	sort.Slice(entries, func(i, j int) bool { return less(&entries[i], &entries[j]) })
+	return entries, nil
+}
+
 // writing methods
 
 func (enc *Encoder) WriteBytes(b []byte) error {
-- 
2.43.0


From 0fbd7bd25029da1300ca5b269f6991d2446bb4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:09 +0000
Subject: [PATCH 23/40] fix: format assets with many decimals and the smallest
 amount correctly

---
 pkg/chain/asset.go | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/pkg/chain/asset.go b/pkg/chain/asset.go
index 5592188..6f44b6f 100644
--- a/pkg/chain/asset.go
+++ b/pkg/chain/asset.go
@@ -2,7 +2,6 @@ package chain
 
 import (
 	"errors"
-	"fmt"
 	"strconv"
 	"strings"
 
@@ -81,24 +80,19 @@ func A(s string) *Asset {
 
 // String representation of asset, e.g. "1.0000 EOS"
 func (a *Asset) String() string {
-	s := ""
+	s := strconv.FormatInt(a.Value, 10)
+	sign := ""
 	if a.Value < 0 {
-		s = "-"
+		sign = "-"
+		s = s[1:]
 	}
-	v := int(a.Value)
-	if v < 0 {
-		v = -v
-	}
-	s += fmt.Sprint(v / a.Symbol.Precision())
-	if a.Symbol.Decimals() > 0 {
-		f := v % a.Symbol.Precision()
-		fs := strconv.Itoa(f)
-		for len(fs) < a.Symbol.Decimals() {
-			fs = "0" + fs
+	if d := a.Symbol.Decimals(); d > 0 {
+		if len(s) <= d {
+			s = strings.Repeat("0", d-len(s)+1) + s
 		}
-		s += "." + fs
+		s = s[:len(s)-d] + "." + s[len(s)-d:]
 	}
-	return s + " " + a.Symbol.Name()
+	return sign + s + " " + a.Symbol.Name()
 }
 
 func (a *Asset) FloatValue() float64 {
-- 
2.43.0


From e41d82b7038df0707d38d9d825e3bf5ec7923a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:12 +0000
Subject: [PATCH 24/40] fix: reject int128 values out of range and parse the
 smallest one

---
 pkg/chain/numbers.go | 35 ++++++++++++++---------------------
 1 file changed, 14 insertions(+), 21 deletions(-)

diff --git a/pkg/chain/numbers.go b/pkg/chain/numbers.go
index b14249b..02b2d1d 100644
--- a/pkg/chain/numbers.go
+++ b/pkg/chain/numbers.go
@@ -45,29 +45,22 @@ func NewUint128(i *big.Int) Uint128 {
 
 // Create new Int128 from big.Int, panics if big.Int is too large.
 func NewInt128(i *big.Int) Int128 {
-	var b []byte
-	if i.BitLen() > 128 {
-		panic("int128 only supports bitlen <= 128")
+	if !fitsInt128(i) {
+		panic("int128 only supports values from -2^127 to 2^127-1")
 	}
-	switch i.Sign() {
-	case 0:
-		return Int128{0, 0}
-	case 1:
-		b = i.Bytes()
-		for len(b) < 16 {
-			b = append([]byte{0}, b...)
-		}
-	case -1:
-		length := uint(i.BitLen()/8+1) * 8
-		b = new(big.Int).Add(i, new(big.Int).Lsh(big.NewInt(1), length)).Bytes()
-		for len(b) < 16 {
-			b = append([]byte{0xff}, b...)
-		}
+	if i.Sign() == -1 {
+		// two's complement
+		i = new(big.Int).Add(i, new(big.Int).Lsh(big.NewInt(1), 128))
 	}
-	return Int128{
-		binary.BigEndian.Uint64(b[8:]),
-		binary.BigEndian.Uint64(b[:8]),
+	return Int128(NewUint128(i))
+}
+
+func fitsInt128(i *big.Int) bool {
+	if i.Sign() == -1 {
+		// -2^127 has no positive counterpart
+		i = new(big.Int).Not(i)
 	}
+	return i.BitLen() < 128
 }
 
 func NewUint128FromString(s string) (Uint128, error) {
@@ -80,7 +73,7 @@ func NewUint128FromString(s string) (Uint128, error) {
 
 func NewInt128FromString(s string) (Int128, error) {
 	i, ok := (&big.Int{}).SetString(s, 10)
-	if !ok || i.BitLen() > 128 {
+	if !ok || !fitsInt128(i) {
 		return Int128{}, errors.New("invalid signed integer")
 	}
 	return NewInt128(i), nil
-- 
2.43.0


From 24997ea9f691c5aee8a5a071600cfb23fc39e20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:02 +0000
Subject: [PATCH 25/40] fix: a struct whose last binary extension is absent
 decodes without an error

---
 pkg/abi/decode.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/abi/decode.go b/pkg/abi/decode.go
index 2586972..4ac8018 100644
--- a/pkg/abi/decode.go
+++ b/pkg/abi/decode.go
@@ -276,6 +276,7 @@ func (dec *Decoder) DecodeValue(v reflect.Value) error {
 				if tag == "extension" && err == io.EOF && dec.n == start {
 					// TODO: make sure extensions are only last field in a top-level struct
 					pv.Set(reflect.Zero(pv.Type()))
+					err = nil
 					continue
 				}
 
-- 
2.43.0


From c676bc65b14ea1d35cb00dedf3bb6d282dc5ad40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:15 +0000
Subject: [PATCH 26/40] fix: encode an absent optional whose type is an alias

---
 pkg/chain/abi.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/chain/abi.go b/pkg/chain/abi.go
index 63275b0..7eedbff 100644
--- a/pkg/chain/abi.go
+++ b/pkg/chain/abi.go
@@ -166,7 +166,7 @@ func (a Abi) encodeType(enc *abi.Encoder, t *resolvedType, v interface{}, depth
 		if !exists || err != nil {
 			return err
 		}
-	} else if !exists {
+	} else if !exists && (t.ref == nil || t.isArray) {
 		return fmt.Errorf("found nil for non optional %v", t.baseName)
 	}
 	if t.isArray {
-- 
2.43.0


From 93170bcb87c3e1022b7058fa9e912458ffe0ac3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:58 +0000
Subject: [PATCH 27/40] fix: reject time texts that a time point sec or block
 timestamp cannot hold

---
 pkg/chain/time.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pkg/chain/time.go b/pkg/chain/time.go
index 4a012a1..4e15eb6 100644
--- a/pkg/chain/time.go
+++ b/pkg/chain/time.go
@@ -1,6 +1,8 @@
 package chain
 
 import (
+	"fmt"
+	"math"
 	"time"
 
 	"github.com/greymass/go-eosio/pkg/abi"
@@ -29,7 +31,11 @@ func NewTimePointSec(t time.Time) TimePointSec {
 
 func NewBlockTimestamp(t time.Time) BlockTimestamp {
 	// block timestamp is number of half seconds since start of epoch
-	return BlockTimestamp((t.Round(time.Millisecond*500).UnixMilli() - blockTimestampEpochMilli) / 500)
+	return BlockTimestamp(halfSeconds(t))
+}
+
+func halfSeconds(t time.Time) int64 {
+	return (t.Round(time.Millisecond*500).UnixMilli() - blockTimestampEpochMilli) / 500
 }
 
 func NewTimePointFromString(s string) (TimePoint, error) {
@@ -51,6 +57,9 @@ func NewTimePointSecFromString(s string) (TimePointSec, error) {
 	if err != nil {
 		return 0, err
 	}
+	if u := t.Unix(); u < 0 || u > math.MaxUint32 {
+		return 0, fmt.Errorf("time out of range: %s", s)
+	}
 	return NewTimePointSec(t), nil
 }
 
@@ -62,6 +71,9 @@ func NewBlockTimestampFromString(s string) (BlockTimestamp, error) {
 	if err != nil {
 		return 0, err
 	}
+	if n := halfSeconds(t); n < 0 || n > math.MaxUint32 {
+		return 0, fmt.Errorf("time out of range: %s", s)
+	}
 	return NewBlockTimestamp(t), nil
 }
 
-- 
2.43.0


From 39246a26e4019e9e403852f97ecd74e76606f389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:33 +0000
Subject: [PATCH 28/40] fix: a struct can extend an alias of a struct

---
 pkg/chain/abi.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/chain/abi.go b/pkg/chain/abi.go
index 7eedbff..93b0dcc 100644
--- a/pkg/chain/abi.go
+++ b/pkg/chain/abi.go
@@ -695,6 +695,10 @@ func (t *resolvedType) String() string {
 	return "type<" + t.name + ">"
 }
 
+func (rt *resolvedType) isPlain() bool {
+	return !rt.isArray && !rt.isOptional && !rt.isExtension
+}
+
 func (rt *resolvedType) allFields() []*struct {
 	name string
 	typ  *resolvedType
@@ -729,6 +733,10 @@ func (rt *resolvedType) allFields() []*struct {
 		}
 		seen[cur.name] = true
 		cur = cur.base
+		// the base can be an alias of a struct
+		for i := 0; i < maxTypeDepth && cur != nil && cur.ref != nil && cur.isPlain(); i++ {
+			cur = cur.ref
+		}
 		if cur == nil {
 			break
 		}
-- 
2.43.0


From 2fe12b9d347a8483c39aa5d2eb5a1f003c294866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:45 +0000
Subject: [PATCH 29/40] fix: pointers in maps are decoded like pointers
 elsewhere

---
 pkg/abi/decode.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pkg/abi/decode.go b/pkg/abi/decode.go
index 4ac8018..cdd0eba 100644
--- a/pkg/abi/decode.go
+++ b/pkg/abi/decode.go
@@ -173,6 +173,14 @@ func (dec *Decoder) DecodeValue(v reflect.Value) error {
 		return errors.New("abi: value is nested too deep")
 	}
 
+	// pointers in maps or to other pointers
+	if v.Kind() == reflect.Ptr {
+		if v.IsNil() {
+			v.Set(reflect.New(v.Type().Elem()))
+		}
+		return dec.Decode(v.Interface())
+	}
+
 	u, pv := indirect(v, false)
 	if u != nil {
 		return u.UnmarshalABI(dec)
@@ -180,12 +188,6 @@ func (dec *Decoder) DecodeValue(v reflect.Value) error {
 
 	switch pv.Kind() {
 
-	case reflect.Ptr:
-		if pv.IsNil() {
-			pv.Set(reflect.New(pv.Type().Elem()))
-		}
-		err = dec.Decode(pv.Interface())
-
 	case reflect.Array:
 		l := pv.Len()
 		for i := 0; i < l; i++ {
-- 
2.43.0


From b55f3d027915c5b66b506c9f7c9db6c3d4746c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:36 +0000
Subject: [PATCH 30/40] fix: generated code for structs with arrays but no
 slices did not compile

---
 pkg/codegen/codegen.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pkg/codegen/codegen.go b/pkg/codegen/codegen.go
index e4c52b5..3ee9f3e 100644
--- a/pkg/codegen/codegen.go
+++ b/pkg/codegen/codegen.go
@@ -266,7 +266,6 @@ func GenUnmarshalFn(structType interface{}) string {
 			f.Code = render(writeSliceTemplate, f)
 		}
 		if f.IsArray {
-			ctx.UsesLength = true
 			f.Code = indent(f.Code)
 			f.Code = render(writeArrayTemplate, f)
 		}
-- 
2.43.0


From 6bfb65544b8029908919879c4f89604b3c6f0375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:36 +0000
Subject: [PATCH 31/40] fix: generated code left absent optionals of a reused
 destination set

---
 pkg/codegen/codegen.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/codegen/codegen.go b/pkg/codegen/codegen.go
index 3ee9f3e..c6bea83 100644
--- a/pkg/codegen/codegen.go
+++ b/pkg/codegen/codegen.go
@@ -141,6 +141,8 @@ var readOptionalTemplate = template.Must(template.New("").Parse(`
 	}
 	if exists {
 		{{- .Code }}
+	} else {
+		v.{{ .Name }} = nil
 	}`,
 ))
 
-- 
2.43.0


From 50c38d76c09d984f79ae0dc8d9c7657f88b77dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:36 +0000
Subject: [PATCH 32/40] fix: generated code trusted list lengths that are not
 backed by any data

---
 pkg/codegen/codegen.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/codegen/codegen.go b/pkg/codegen/codegen.go
index c6bea83..33603db 100644
--- a/pkg/codegen/codegen.go
+++ b/pkg/codegen/codegen.go
@@ -101,8 +101,9 @@ var readSliceTemplate = template.Must(template.New("").Parse(`
 	if length, err = d.ReadVaruint(); err != nil {
 		return err
 	}
-	v.{{ .Name }} = make([]{{ .Type }}, length)
+	v.{{ .Name }} = []{{ .Type }}{}
 	for i := 0; i < int(length); i++ {
+		v.{{ .Name }} = append(v.{{ .Name }}, *new({{ .Type }}))
 		{{- .Code }}
 	}`,
 ))
-- 
2.43.0


From 83e117a4898300c64ee98a95021f2b51c06c86f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:36 +0000
Subject: [PATCH 33/40] fix: generated code for structs with two plain pointers
 did not compile

---
 pkg/codegen/codegen.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/pkg/codegen/codegen.go b/pkg/codegen/codegen.go
index 33603db..981a82f 100644
--- a/pkg/codegen/codegen.go
+++ b/pkg/codegen/codegen.go
@@ -53,18 +53,14 @@ var writeTemplate = template.Must(template.New("").Parse(`
 
 var readTemplate = template.Must(template.New("").Parse(`
 	{{ if .IsPtr -}}
-	var tmp {{ .Type }}
+	v.{{ .Name }} = new({{ .Type }})
 	{{ end -}}
-	if {{ if .IsPtr }}tmp{{ else -}}
+	if {{ if .IsPtr }}*{{ end -}}
 		v.{{ .Name }}
 		{{- if or .IsSlice .IsArray }}[i]{{ end -}}
-	{{- end -}}
 	, err = d.Read{{ .Method }}(); err != nil {
 		return err
-	}
-	{{- if .IsPtr }}
-	v.{{ .Name }}{{ if or .IsSlice .IsArray }}[i]{{ end }} = &tmp
-	{{- end }}`,
+	}`,
 ))
 
 var writeOtherTemplate = template.Must(template.New("").Parse(`
-- 
2.43.0


From 564c39be8864e6939b0ce9221cf84177650abd49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:36 +0000
Subject: [PATCH 34/40] fix: generated code for pointers to types with their
 own methods panicked

---
 pkg/codegen/codegen.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/codegen/codegen.go b/pkg/codegen/codegen.go
index 981a82f..7768756 100644
--- a/pkg/codegen/codegen.go
+++ b/pkg/codegen/codegen.go
@@ -74,6 +74,9 @@ var writeOtherTemplate = template.Must(template.New("").Parse(`
 ))
 
 var readOtherTemplate = template.Must(template.New("").Parse(`
+	{{ if and .IsPtr (not (or .IsSlice .IsArray)) -}}
+	v.{{ .Name }} = new({{ .Type }})
+	{{ end -}}
 	if err = {{ if and .IsPtr (or .IsSlice .IsArray) }}(*{{ end -}}
 		v.{{ .Name -}}
 		{{- if and .IsPtr (or .IsSlice .IsArray) }}){{ end -}}
-- 
2.43.0


From b53a3bdd8d81b6255b4cc02ec10e59d1e1823e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:02 +0000
Subject: [PATCH 35/40] fix: write signatures held by value as text in JSON

---
 pkg/chain/signature.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/chain/signature.go b/pkg/chain/signature.go
index 6e661fe..f2d0572 100644
--- a/pkg/chain/signature.go
+++ b/pkg/chain/signature.go
@@ -107,7 +107,7 @@ func (s *Signature) UnmarshalABI(d *abi.Decoder) error {
 
 // encoding.TextMarshaler conformance
 
-func (s *Signature) MarshalText() (text []byte, err error) {
+func (s Signature) MarshalText() (text []byte, err error) {
 	return []byte(s.String()), nil
 }
 
-- 
2.43.0


From 7d67df83098452d5e8700d275e8952852f74cf66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:12 +0000
Subject: [PATCH 36/40] fix: use R1 as the text name of the second key type

---
 pkg/chain/key_type.go   | 2 +-
 pkg/chain/public_key.go | 4 ++--
 pkg/chain/signature.go  | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pkg/chain/key_type.go b/pkg/chain/key_type.go
index b89c5c3..57cd46e 100644
--- a/pkg/chain/key_type.go
+++ b/pkg/chain/key_type.go
@@ -13,7 +13,7 @@ func (t KeyType) String() string {
 	case K1:
 		return "K1"
 	case P1:
-		return "P1"
+		return "R1"
 	case WA:
 		return "WA"
 	default:
diff --git a/pkg/chain/public_key.go b/pkg/chain/public_key.go
index 79a835d..89e61a3 100644
--- a/pkg/chain/public_key.go
+++ b/pkg/chain/public_key.go
@@ -31,14 +31,14 @@ func NewPublicKeyFromString(s string) (*PublicKey, error) {
 		switch s[4:6] {
 		case "K1":
 			t = K1
-		case "P1":
+		case "R1", "P1": // P1 was written by earlier versions
 			t = P1
 		case "WA":
 			t = WA
 		default:
 			return nil, fmt.Errorf("unknown key type: %s", s[4:6])
 		}
-		d, err := base58.CheckDecodeEosio(s[7:], t.String())
+		d, err := base58.CheckDecodeEosio(s[7:], s[4:6])
 		return &PublicKey{
 			Type: t,
 			Data: d,
diff --git a/pkg/chain/signature.go b/pkg/chain/signature.go
index f2d0572..7999064 100644
--- a/pkg/chain/signature.go
+++ b/pkg/chain/signature.go
@@ -29,14 +29,14 @@ func NewSignatureString(s string) (*Signature, error) {
 	switch s[4:6] {
 	case "K1":
 		t = K1
-	case "P1":
+	case "R1", "P1": // P1 was written by earlier versions
 		t = P1
 	case "WA":
 		t = WA
 	default:
 		return nil, fmt.Errorf("unknown signature type: %s", s[4:6])
 	}
-	d, err := base58.CheckDecodeEosio(s[7:], t.String())
+	d, err := base58.CheckDecodeEosio(s[7:], s[4:6])
 	return &Signature{
 		Type: t,
 		Data: d,
-- 
2.43.0


From a2b1658d76f8547df26739047e4de4ba04c86432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:40 +0000
Subject: [PATCH 37/40] fix: a write that is cut short without an error is an
 error

---
 pkg/abi/encode.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pkg/abi/encode.go b/pkg/abi/encode.go
index 25b5863..7f40ed8 100644
--- a/pkg/abi/encode.go
+++ b/pkg/abi/encode.go
@@ -199,13 +199,15 @@ func (enc *Encoder) sortedEntries(v reflect.Value) ([]mapEntry, error) {
 // writing methods
 
 func (enc *Encoder) WriteBytes(b []byte) error {
-	_, err := enc.w.Write(b)
+	n, err := enc.w.Write(b)
+	if err == nil && n < len(b) {
+		err = io.ErrShortWrite
+	}
 	return err
 }
 
 func (enc *Encoder) WriteByte(b byte) error {
-	_, err := enc.w.Write([]byte{b})
-	return err
+	return enc.WriteBytes([]byte{b})
 }
 func (enc *Encoder) WriteBool(v bool) error {
 	if v {
-- 
2.43.0


From a5c435d7288e8674215ccab39dca37ac6067129a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:51 +0000
Subject: [PATCH 38/40] fix: read the index of a variant as varuint32

---
 pkg/abi/decode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/abi/decode.go b/pkg/abi/decode.go
index cdd0eba..6289776 100644
--- a/pkg/abi/decode.go
+++ b/pkg/abi/decode.go
@@ -124,7 +124,7 @@ func (dec *Decoder) DecodeVariant(v interface{}) error {
 		return fmt.Errorf("abi: invalid variant type, unable to decode into %s", val.Type())
 	}
 	// read variant index
-	vIdx, err := dec.ReadByte()
+	vIdx, err := dec.ReadVaruint()
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 4e5d6e60c2d5b75d5ed37023ebabbaaa6757a327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:50:51 +0000
Subject: [PATCH 39/40] fix: collect the fields of a struct once per call

---
 pkg/chain/abi.go | 49 +++++++++++++++++++++++++++---------------------
 1 file changed, 28 insertions(+), 21 deletions(-)

diff --git a/pkg/chain/abi.go b/pkg/chain/abi.go
index 93b0dcc..3742341 100644
--- a/pkg/chain/abi.go
+++ b/pkg/chain/abi.go
@@ -687,8 +687,13 @@ type resolvedType struct {
 		name string
 		typ  *resolvedType
 	}
-	variant *[]*resolvedType
-	ref     *resolvedType
+	flat []*struct {
+		name string
+		typ  *resolvedType
+	}
+	flattened bool
+	variant   *[]*resolvedType
+	ref       *resolvedType
 }
 
 func (t *resolvedType) String() string {
@@ -699,17 +704,23 @@ func (rt *resolvedType) isPlain() bool {
 	return !rt.isArray && !rt.isOptional && !rt.isExtension
 }
 
+// The fields of a struct including those of its bases, nil if it's not a (valid) struct.
 func (rt *resolvedType) allFields() []*struct {
 	name string
 	typ  *resolvedType
 } {
-	if rt.fields == nil {
-		return nil
+	if rt.fields != nil && !rt.flattened {
+		rt.flat = rt.flatten()
+		rt.flattened = true
 	}
-	rv := []*struct {
-		name string
-		typ  *resolvedType
-	}{}
+	return rt.flat
+}
+
+func (rt *resolvedType) flatten() []*struct {
+	name string
+	typ  *resolvedType
+} {
+	var chain []*resolvedType
 	var seen map[string]bool = make(map[string]bool)
 	var cur *resolvedType = rt
 	for {
@@ -719,18 +730,7 @@ func (rt *resolvedType) allFields() []*struct {
 		if seen[cur.name] {
 			return nil // circular reference
 		}
-		for i := len(*cur.fields) - 1; i >= 0; i-- {
-			// append to front
-			rv = append([]*struct {
-				name string
-				typ  *resolvedType
-			}{
-				{
-					name: (*cur.fields)[i].name,
-					typ:  (*cur.fields)[i].typ,
-				},
-			}, rv...)
-		}
+		chain = append(chain, cur)
 		seen[cur.name] = true
 		cur = cur.base
 		// the base can be an alias of a struct
@@ -741,6 +741,13 @@ func (rt *resolvedType) allFields() []*struct {
 			break
 		}
 	}
-
+	rv := []*struct {
+		name string
+		typ  *resolvedType
+	}{}
+	// base first
+	for i := len(chain) - 1; i >= 0; i-- {
+		rv = append(rv, *chain[i].fields...)
+	}
 	return rv
 }
-- 
2.43.0


From 7c441178ad7b813902287de19f555c6bbd46124f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:59:42 +0000
Subject: [PATCH 40/40] fix: refuse varints that do not fit 32 bits

---
 pkg/abi/encode.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/abi/encode.go b/pkg/abi/encode.go
index 7f40ed8..5ff575b 100644
--- a/pkg/abi/encode.go
+++ b/pkg/abi/encode.go
@@ -261,12 +261,18 @@ func (enc *Encoder) WriteInt64(v int64) error {
 }
 
 func (enc *Encoder) WriteVaruint(v uint) error {
+	if v > math.MaxUint32 {
+		return errVarintOverflow
+	}
 	var b [binary.MaxVarintLen64]byte
 	l := binary.PutUvarint(b[:], uint64(v))
 	return enc.WriteBytes(b[:l])
 }
 
 func (enc *Encoder) WriteVarint(v int) error {
+	if v < math.MinInt32 || v > math.MaxInt32 {
+		return errVarintOverflow
+	}
 	var b [binary.MaxVarintLen64]byte
 	l := binary.PutVarint(b[:], int64(v))
 	return enc.WriteBytes(b[:l])
-- 
2.43.0

