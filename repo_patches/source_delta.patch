From 17a9a950025ec8ee5dc64059def3948958dc4d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:54 +0000
Subject: [PATCH 01/30] fix: Div rounds a quotient between -1 and 0 away from
 zero with the sign of the exact quotient

---
 math/math.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/math/math.go b/math/math.go
index ecb808b..273807b 100755
--- a/math/math.go
+++ b/math/math.go
@@ -29,7 +29,8 @@ func divSInt(de, dv int64, q *int64) {
 
 	// If divisor is odd and r >= half divisor, or divisor is even and r > half divisor, adjust quotient by one to round
 	if (((dv & 1) == 0) && (r >= halfdv)) || (((dv & 1) == 1) && (r > halfdv)) {
-		if *q >= 0 {
+		// The sign cannot be taken from the quotient, it is zero if the divisor has a larger magnitude than the dividend
+		if (de < 0) == (dv < 0) {
 			*q++
 		} else {
 			*q--
-- 
2.43.0


From 057907482e4c639bfa39aa305834473878ffa4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:54 +0000
Subject: [PATCH 02/30] fix: SubInt reports overflow correctly when the
 subtrahend is the minimum value

---
 math/math.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/math/math.go b/math/math.go
index 273807b..4c11d40 100755
--- a/math/math.go
+++ b/math/math.go
@@ -454,10 +454,23 @@ func CmpComplex[T constraint.Complex](val1, val2 T) (res int) {
 // SubInt subtracts two integers as sed = me - sed, overwriting the second value, and returns an error if over/underflow occurs.
 // See AddInt.
 func SubInt[T constraint.SignedInteger](me T, sed *T) error {
-	// Instead of actually subtracting, just add the additive inverse
-	*sed = -*sed
+	// Adding the additive inverse does not work for the minimum value, it has no additive inverse
+	sign1, sign2 := me >= 0, *sed >= 0
+	*sed = me - *sed
+	newSign := *sed >= 0
+
+	if (sign1 != sign2) && (sign1 != newSign) {
+		// Opposite signs subtracted, sign of result differs from minuend
+		if sign1 {
+			// Positive wrapped around to negative
+			return OverflowErr
+		}
 
-	return AddInt(me, sed)
+		// Negative wrapped around to positive
+		return UnderflowErr
+	}
+
+	return nil
 }
 
 // SubUint subtracts two integers as sed = me - sed, overwriting the second value, and returns an error if underflow occurs.
-- 
2.43.0


From d57a52b88c3fbe3de5852381fb0cbe1800b5e1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:05 +0000
Subject: [PATCH 03/30] fix: Div of *big.Int rounds with the sign of the exact
 quotient and allows the quotient to be the divisor

---
 math/math.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/math/math.go b/math/math.go
index 4c11d40..dd26cf2 100755
--- a/math/math.go
+++ b/math/math.go
@@ -315,9 +315,9 @@ var (
 				return DivByZeroErr
 			}
 
-			r := big.NewInt(0)
-			qbi.QuoRem(debi, dvbi, r)
-			r.Abs(r)
+			// The sign has to be determined before dividing, as the quotient may be zero.
+			// All calculations on the divisor have to be done before dividing, as the quotient may be the same *big.Int.
+			neg := debi.Sign() != dvbi.Sign()
 
 			halfdv := big.NewInt(0).SetBytes(dvbi.Bytes())
 			halfdv.Abs(halfdv)
@@ -325,8 +325,13 @@ var (
 
 			dvbiEven := big.NewInt(0).SetBytes(dvbi.Bytes())
 			dvbiEven.And(dvbiEven, big.NewInt(1))
+
+			r := big.NewInt(0)
+			qbi.QuoRem(debi, dvbi, r)
+			r.Abs(r)
+
 			if ((dvbiEven.Sign() == 0) && (r.Cmp(halfdv) >= 0)) || ((dvbiEven.Sign() == 1) && (r.Cmp(halfdv) > 0)) {
-				if qbi.Sign() >= 0 {
+				if !neg {
 					qbi.Add(qbi, big.NewInt(1))
 				} else {
 					qbi.Sub(qbi, big.NewInt(1))
-- 
2.43.0


From 4f99dfc3c8a6961524051871c94eec71a49d8f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:07 +0000
Subject: [PATCH 04/30] fix: Div reports overflow when the minimum value is
 divided by -1

---
 math/math.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/math/math.go b/math/math.go
index dd26cf2..18db36d 100755
--- a/math/math.go
+++ b/math/math.go
@@ -159,6 +159,10 @@ var (
 			if dvi == 0 {
 				return DivByZeroErr
 			}
+			if dei := de.(int); (dvi == -1) && (dei < 0) && (-dei < 0) {
+				// No positive value corresponds to the minimum value
+				return OverflowErr
+			}
 
 			qi := any(q).(*int)
 			qi64 := int64(*qi)
@@ -173,6 +177,10 @@ var (
 			if dvi == 0 {
 				return DivByZeroErr
 			}
+			if dei := de.(int8); (dvi == -1) && (dei < 0) && (-dei < 0) {
+				// No positive value corresponds to the minimum value
+				return OverflowErr
+			}
 
 			qi := any(q).(*int8)
 			qi64 := int64(*qi)
@@ -187,6 +195,10 @@ var (
 			if dvi == 0 {
 				return DivByZeroErr
 			}
+			if dei := de.(int16); (dvi == -1) && (dei < 0) && (-dei < 0) {
+				// No positive value corresponds to the minimum value
+				return OverflowErr
+			}
 
 			qi := any(q).(*int16)
 			qi64 := int64(*qi)
@@ -201,6 +213,10 @@ var (
 			if dvi == 0 {
 				return DivByZeroErr
 			}
+			if dei := de.(int32); (dvi == -1) && (dei < 0) && (-dei < 0) {
+				// No positive value corresponds to the minimum value
+				return OverflowErr
+			}
 
 			qi := any(q).(*int32)
 			qi64 := int64(*qi)
@@ -215,6 +231,10 @@ var (
 			if dvi == 0 {
 				return DivByZeroErr
 			}
+			if dei := de.(int64); (dvi == -1) && (dei < 0) && (-dei < 0) {
+				// No positive value corresponds to the minimum value
+				return OverflowErr
+			}
 
 			qi := any(q).(*int64)
 			divSInt(de.(int64), dvi, qi)
-- 
2.43.0


From 944f0db6a99189ebe141f8c0526073493338f4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:07 +0000
Subject: [PATCH 05/30] fix: OfRange panics if the initial value is not in the
 range, as documented

---
 math/range.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/math/range.go b/math/range.go
index 6b8eee4..8d80c27 100755
--- a/math/range.go
+++ b/math/range.go
@@ -53,7 +53,10 @@ func OfRange[T constraint.IntegerAndFloat](
 		panic(fmt.Errorf(errMinMaxMsg, minStr, maxStr))
 	}
 
-	return Range[T]{min, minMode, max, maxMode, initial}
+	r := Range[T]{min, minMode, max, maxMode, initial}
+	funcs.Must(r.SetValue(initial))
+
+	return r
 }
 
 // GetMin returns the minimum value and mode
-- 
2.43.0


From 3a8ae62ce5e6112c105f0e45e07377699a267e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:58 +0000
Subject: [PATCH 06/30] fix: FloatToBigRat and BigFloatToBigRat convert
 exactly, instead of via a string of 10 digits

---
 conv/bigrat.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/conv/bigrat.go b/conv/bigrat.go
index 6a997c8..ddbd917 100755
--- a/conv/bigrat.go
+++ b/conv/bigrat.go
@@ -27,9 +27,7 @@ func FloatToBigRat[T constraint.Float](ival T, oval **big.Rat) error {
 		return fmt.Errorf(errMsg, ival, fmt.Sprintf("%g", ival), "*big.Rat")
 	}
 
-	var inter *big.Float
-	FloatToBigFloat(ival, &inter)
-	BigFloatToBigRat(inter, oval)
+	*oval = big.NewRat(1, 1).SetFloat64(float64(ival))
 	return nil
 }
 
@@ -49,7 +47,8 @@ func BigFloatToBigRat(ival *big.Float, oval **big.Rat) error {
 		return fmt.Errorf(errMsg, ival, ival.String(), "*big.Rat")
 	}
 
-	*oval, _ = big.NewRat(1, 1).SetString(BigFloatToString(ival))
+	// Every finite *big.Float is a rational, do not use a string as that only contains some of the digits
+	*oval, _ = ival.Rat(nil)
 	return nil
 }
 
-- 
2.43.0


From 75a4c64c48a194bd25cfab75105e7043de8eb9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:02 +0000
Subject: [PATCH 07/30] fix: UintToBigFloat does not round values of more than
 53 bits

---
 conv/bigfloat.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/conv/bigfloat.go b/conv/bigfloat.go
index 709b853..c760629 100755
--- a/conv/bigfloat.go
+++ b/conv/bigfloat.go
@@ -21,7 +21,9 @@ func IntToBigFloat[T constraint.SignedInteger](ival T, oval **big.Float) {
 
 // UintToBigFloat converts any unsigned int type into a *big.Float
 func UintToBigFloat[T constraint.UnsignedInteger](ival T, oval **big.Float) {
-	*oval = big.NewFloat(0).SetUint64(uint64(ival))
+	// Large 64 bit values need more than the 53 bits of a float64
+	prec := uint(math.Max(53, math.Ceil(float64(len(UintToString(ival)))*log2Of10)))
+	*oval = big.NewFloat(0).SetPrec(prec).SetUint64(uint64(ival))
 }
 
 // FloatToBigFloat converts any float type into a *big.Float
-- 
2.43.0


From 8602df905c57a2d6f6db89256b10781b47603f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:06 +0000
Subject: [PATCH 08/30] fix: BigRatToBigInt returns a copy of the numerator,
 not a reference to it

---
 conv/bigint.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/conv/bigint.go b/conv/bigint.go
index 750c6a6..650ff9e 100755
--- a/conv/bigint.go
+++ b/conv/bigint.go
@@ -81,7 +81,8 @@ func BigRatToBigInt(ival *big.Rat, oval **big.Int) error {
 		return fmt.Errorf(errMsg, ival, ival.String(), "*big.Int")
 	}
 
-	*oval = ival.Num()
+	// Num returns a reference to the numerator, which must not be shared
+	*oval = big.NewInt(0).Set(ival.Num())
 	return nil
 }
 
-- 
2.43.0


From b8cb0b67e849082d70ae4548441f00e58d16babf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:11 +0000
Subject: [PATCH 09/30] fix: BigRatToBigFloat does not lose digits of rationals
 with a small magnitude

---
 conv/bigfloat.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conv/bigfloat.go b/conv/bigfloat.go
index c760629..859cb28 100755
--- a/conv/bigfloat.go
+++ b/conv/bigfloat.go
@@ -50,7 +50,7 @@ func BigIntToBigFloat(ival *big.Int, oval **big.Float) {
 func BigRatToBigFloat(ival *big.Rat, oval **big.Float) {
 	// Use numerator to calculate the precision, shd be accurate since denominator is basically the exponent
 	prec := int(math.Ceil(math.Max(float64(53), float64(len(ival.Num().String()))*log2Of10)))
-	*oval, _, _ = big.ParseFloat(ival.FloatString(prec), 10, uint(prec), big.ToNearestEven)
+	*oval = big.NewFloat(0).SetPrec(uint(prec)).SetRat(ival)
 
 	// Set accuracy to exact
 	(*oval).SetMode((*oval).Mode())
-- 
2.43.0


From 361b284b0c3e0306e957f5877b3ac33fbe069737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:15 +0000
Subject: [PATCH 10/30] fix: BigFloatToString and BigRatToNormalizedString
 provide all digits, not just the first 10

---
 conv/string.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/conv/string.go b/conv/string.go
index e6f846d..26ceac2 100755
--- a/conv/string.go
+++ b/conv/string.go
@@ -33,7 +33,8 @@ func BigIntToString(val *big.Int) string {
 
 // BigFloatToString converts a *big.Float to a string
 func BigFloatToString(val *big.Float) string {
-	return val.String()
+	// The String method only provides up to 10 digits
+	return val.Text('f', -1)
 }
 
 // BigRatToString converts a *big.Rat to a string.
@@ -51,5 +52,5 @@ func BigRatToNormalizedString(val *big.Rat) string {
 
 	var inter *big.Float
 	BigRatToBigFloat(val, &inter)
-	return inter.String()
+	return BigFloatToString(inter)
 }
-- 
2.43.0


From e10e38e080e55ffdadb79219b17376018222ebb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:41 +0000
Subject: [PATCH 11/30] fix: To and ToBigOps copies of big types do not share
 digits with the original

---
 conv/conv.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/conv/conv.go b/conv/conv.go
index 19b696b..55ddfd0 100755
--- a/conv/conv.go
+++ b/conv/conv.go
@@ -1009,6 +1009,19 @@ var (
 	}
 )
 
+// copyBig copies the value of a big type into another of the same big type.
+// Copying the structs is not enough, the source and target would share the underlying digits.
+func copyBig(src, tgt any) {
+	switch s := src.(type) {
+	case *big.Int:
+		tgt.(*big.Int).Set(s)
+	case *big.Float:
+		tgt.(*big.Float).Copy(s)
+	case *big.Rat:
+		tgt.(*big.Rat).Set(s)
+	}
+}
+
 // To converts any Numeric type or string to any Numeric type or string
 // If the types are the same, a copy by value is performed, unless they are big types.
 // For big type copies, a new pointer is constructed with a copy of the input value.
@@ -1045,7 +1058,7 @@ func To[I, O constraint.Numeric | string](i I, o *O) error {
 
 				// ival is non-nil, oval is non-nil and not the same pointer as ival
 				// Copy the value
-				oval.Elem().Elem().Set(ival.Elem())
+				copyBig(ival.Interface(), oval.Elem().Interface())
 			}
 		} else {
 			// All non-big types are value types, just copy the value
@@ -1140,7 +1153,7 @@ func ToBigOps[I constraint.Numeric | string, O constraint.BigOps[O]](i I, o *O)
 
 			// ival is non-nil, oval is non-nil and not the same pointer as ival
 			// Copy the value
-			oval.Elem().Elem().Set(ival.Elem())
+			copyBig(ival.Interface(), oval.Elem().Interface())
 		}
 
 		return nil
-- 
2.43.0


From 82be889f431acbc978f9fa9719a944074725e13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:45 +0000
Subject: [PATCH 12/30] fix: ToBigOps accepts subtypes, like To

---
 conv/conv.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conv/conv.go b/conv/conv.go
index 55ddfd0..f8c6c85 100755
--- a/conv/conv.go
+++ b/conv/conv.go
@@ -1134,7 +1134,7 @@ func ToBigOps[I constraint.Numeric | string, O constraint.BigOps[O]](i I, o *O)
 	}
 
 	var (
-		ival = goreflect.ValueOf(i)
+		ival = reflect.ValueToBaseType(goreflect.ValueOf(i))
 		ityp = ival.Type()
 		oval = goreflect.ValueOf(o) // o cannot be nil, but o.Elem() can be nil
 		otyp = oval.Type().Elem()   // o.Type().Elem() cannot be nil
-- 
2.43.0


From a036e026e7cc405398f5607f7c72a8d173a4098d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:50 +0000
Subject: [PATCH 13/30] fix: OrderedTuple2SliceAdd inserts a key smaller than
 all others before them

---
 funcs/funcs.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/funcs/funcs.go b/funcs/funcs.go
index da07f9f..50619d2 100755
--- a/funcs/funcs.go
+++ b/funcs/funcs.go
@@ -682,6 +682,10 @@ func OrderedTuple2SliceAdd[K constraint.Ordered, V any](mp *[]tuple.Two[K, []V],
 		// index of matching tuple, replace tuple with new tuple that has value appended to slice
 		(*mp)[index] = tuple.Of2(key, append((*mp)[index].U, value))
 
+	case key < (*mp)[index].T:
+		// key is smaller than all existing keys, so new tuple has to be inserted before index 0
+		*mp = append([]tuple.Two[K, []V]{tuple.Of2(key, []V{value})}, (*mp)...)
+
 	default:
 		// index of tuple that a new tuple should be inserted after
 		// due to pointer used for original slice, we have to start building from an empty slice
-- 
2.43.0


From 71f36e44ad55c812bb166ed23e0a785a5c78316a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:57 +0000
Subject: [PATCH 14/30] fix: ReaderIterGen repeats the error of the reader, and
 does not lose or make up bytes

---
 iter/gen.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/iter/gen.go b/iter/gen.go
index cfa4862..d63c788 100755
--- a/iter/gen.go
+++ b/iter/gen.go
@@ -189,12 +189,13 @@ func ReaderIterGen(src goio.Reader) func() (byte, error) {
 			return 0, err
 		}
 
-		if _, err := src.Read(buf); err != nil {
+		// ReadFull deals with readers that return no bytes without an error, or the last byte with an error
+		if _, rerr := goio.ReadFull(src, buf); rerr != nil {
 			done = true
-			if err = funcs.Ternary(err == goio.EOF, EOI, err); err == EOI {
+			if err = funcs.Ternary(rerr == goio.EOF, EOI, rerr); err == EOI {
 				if closer, isa := src.(goio.Closer); isa {
 					if cerr := closer.Close(); cerr != nil {
-						return 0, cerr
+						err = cerr
 					}
 				}
 			}
-- 
2.43.0


From ff65b41f0ca3ce1b932ed9f2b9e65ffcb46e3ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:07 +0000
Subject: [PATCH 15/30] fix: ReaderAsRunesIterGen reads all the bytes of a
 rune, rejects surrogates and overlong encodings, and repeats errors

---
 iter/gen.go | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/iter/gen.go b/iter/gen.go
index d63c788..24c5077 100755
--- a/iter/gen.go
+++ b/iter/gen.go
@@ -233,12 +233,12 @@ func ReaderAsRunesIterGen(src goio.Reader) func() (rune, error) {
 	// See https://en.wikipedia.org/wiki/UTF-8 for further details
 
 	var (
-		done  = src == nil
-		err   = EOI
-		n, eb int
-		buf   = make([]byte, 3)
-		b     byte
-		r     rune
+		done = src == nil
+		err  = EOI
+		eb   int
+		buf  = make([]byte, 3)
+		b    byte
+		r    rune
 	)
 
 	return func() (rune, error) {
@@ -248,12 +248,12 @@ func ReaderAsRunesIterGen(src goio.Reader) func() (rune, error) {
 
 		// Read up to next 4 bytes from reader, depending on bit pattern of first byte
 		eb = 0
-		if n, err = src.Read(buf[0:1]); (n == 0) || (err != nil) {
+		// ReadFull deals with readers that return less bytes than asked for, or the last bytes with an error
+		if _, err = goio.ReadFull(src, buf[0:1]); err != nil {
 			done = true
 
-			// Should be a non-nil error if 0 bytes were returned, but don't assume
 			// Translate EOF to EOI
-			if ((n == 0) && (err == nil)) || (err == goio.EOF) {
+			if err == goio.EOF {
 				err = EOI
 			}
 
@@ -285,9 +285,11 @@ func ReaderAsRunesIterGen(src goio.Reader) func() (rune, error) {
 		}
 
 		// Multiple bytes
-		if n, err = src.Read(buf[0:eb]); (n != eb) || (err != nil) {
+		if _, err = goio.ReadFull(src, buf[0:eb]); err != nil {
+			done = true
+
 			// Not enough extra bytes exist or some other error
-			if (err == nil) || (err == goio.EOF) {
+			if (err == goio.EOF) || (err == goio.ErrUnexpectedEOF) {
 				err = InvalidUTF8EncodingError
 			}
 
@@ -299,6 +301,7 @@ func ReaderAsRunesIterGen(src goio.Reader) func() (rune, error) {
 		for i := 0; i < eb; i++ {
 			if buf[i]&0b11_000000 != 0b10_000000 {
 				// Invalid extra byte
+				done = true
 				err = InvalidUTF8EncodingError
 				return 0, err
 			}
@@ -320,12 +323,13 @@ func ReaderAsRunesIterGen(src goio.Reader) func() (rune, error) {
 				(rune(buf[0]&0b00_111111) << (6 + 6)) |
 				(rune(buf[1]&0b00_111111) << 6) |
 				(rune(buf[2] & 0b00_111111))
+		}
 
-			// Cannot exceed maximum value
-			if r > utf8.MaxRune {
-				err = InvalidUTF8EncodingError
-				return 0, err
-			}
+		// Cannot exceed maximum value, be a surrogate, or be encoded in more bytes than necessary
+		if utf8.RuneLen(r) != eb+1 {
+			done = true
+			err = InvalidUTF8EncodingError
+			return 0, err
 		}
 
 		// Valid multiple bytes
-- 
2.43.0


From 08360510cbcf7a2c18c6403886d30a1e784832e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:43 +0000
Subject: [PATCH 16/30] fix: lines after a carriage return end at the next line
 feed

---
 iter/gen.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/iter/gen.go b/iter/gen.go
index 24c5077..6ae9e8e 100755
--- a/iter/gen.go
+++ b/iter/gen.go
@@ -393,6 +393,7 @@ func readLines(it func() (rune, error)) func() (string, error) {
 				return str.String(), nil
 			}
 
+			lastCR = false
 			str.WriteRune(codePoint)
 		}
 	}
-- 
2.43.0


From 58d82e244daa356dfd5d2b7e4a97154ba9399348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:04 +0000
Subject: [PATCH 17/30] fix: ErrorReader does not read beyond the end of its
 input

---
 io/io.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/io/io.go b/io/io.go
index 029948b..04f35f2 100755
--- a/io/io.go
+++ b/io/io.go
@@ -40,7 +40,7 @@ func (r *ErrorReader) Read(p []byte) (int, error) {
 	}
 
 	// Return the number of bytes asked for, or what we have remaining, whichever is less
-	numBytes := math.MinOrdered(len(r.input), len(p))
+	numBytes := math.MinOrdered(len(r.input)-r.pos, len(p))
 
 	copy(p[:numBytes], r.input[r.pos:r.pos+numBytes])
 	r.pos += numBytes
-- 
2.43.0


From 450b401535dc863eab62043c01314b7a47050ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:07 +0000
Subject: [PATCH 18/30] fix: OfResultError accepts an error with a nil
 interface value

---
 union/union.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/union/union.go b/union/union.go
index 8b40b5d..74fcc5a 100755
--- a/union/union.go
+++ b/union/union.go
@@ -176,8 +176,8 @@ func OfError[R any](err error) Result[R] {
 // Panics if the error is non-nil and R is not the zero value
 func OfResultError[R any](r R, err error) Result[R] {
 	if err != nil {
-		// R is not comparable
-		if !goreflect.ValueOf(r).IsZero() {
+		// R is not comparable, and may be an interface
+		if !goreflect.ValueOf(&r).Elem().IsZero() {
 			panic(fmt.Errorf("A Result cannot have both a non-zero R value and a non-nil error"))
 		}
 	}
-- 
2.43.0


From c21afa51f71b1be5efbb2687d86e0d4cb35fb277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:15 +0000
Subject: [PATCH 19/30] fix: AdjustDecimalScale pads and rounds decimals with
 fewer digits than the difference of scales

---
 math/decimal.go | 56 +++++++++++--------------------------------------
 1 file changed, 12 insertions(+), 44 deletions(-)

diff --git a/math/decimal.go b/math/decimal.go
index c6c1b16..e28d2be 100755
--- a/math/decimal.go
+++ b/math/decimal.go
@@ -278,25 +278,15 @@ func AdjustDecimalScale(d1, d2 *Decimal) error {
 	    d1, d2 = d2, d1
 	}
 
-	// Convert d1 and d2 to strings of digits only, to see how many significant digits they possess
-	var str1, str2 string
-	str1 = conv.IntToString(funcs.Ternary(d1.value >= 0, d1.value, -d1.value))
-	str2 = conv.IntToString(funcs.Ternary(d2.value >= 0, d2.value, -d2.value))
-
 	var (
-		len1       = len(str1)
-		len2       = len(str2)
-		d2Capacity = decimalMaxScale - len2
-		scaleDiff  = int(d1.scale - d2.scale)
+		power10 = powersOf10[d1.scale-d2.scale]
+		maxVal2 = decimalMaxValue / power10
 	)
 
 	// Does d2 have enough remaining capacity for the required trailing zeroes to increase the scale?
-	if d2Capacity >= scaleDiff {
-		// Easy solution - multiply d2 by 10 ^ scaleDiff, and set scale to match d1
-		for i := 0; i < scaleDiff; i++ {
-			d2.value *= 10
-		}
-
+	if (d2.value >= -maxVal2) && (d2.value <= maxVal2) {
+		// Easy solution - multiply d2 by 10 ^ scale difference, and set scale to match d1
+		d2.value *= power10
 		d2.scale = d1.scale
 	} else {
 		// Harder solution - round d1 away from 0 to the same scale as d2, and set scale to match d2
@@ -310,39 +300,17 @@ func AdjustDecimalScale(d1, d2 *Decimal) error {
 			return fmt.Errorf(errValueTooSmallToRoundMsg, d2.String())
 		}
 
-		// Round by manipulating digits directly in string as a []byte
-		dig1 := []byte(str1)
-
-		// Round by just examining first decimal place, if <= 4 round integer down, else round integer up
-		round := dig1[len1-scaleDiff] >= '5'
-
-		// throw away decimal digits
-		dig1 = dig1[:len1-scaleDiff]
-		len1 = len(dig1)
-
-		// Integer rounding affects digits of d1 we're keeping
-		// - as long as integer digit = 9, set to 0
-		// - if a digit < 9 is encountered, increment and stop
-		// - if all digits are 9, add additional 1 digit on left
-		var dig byte
-		for i := len1 - 1; round && (i >= 0); i-- {
-			dig = dig1[i]
-			round = dig == '9'
-			dig1[i] = funcs.Ternary(round, '0', dig+1)
+		// Throw away decimal digits, rounding away from zero if they are at least half
+		rmdr := d1.value % power10
+		d1.value /= power10
+		if rmdr >= power10/2 {
+			d1.value++
+		} else if rmdr <= -power10/2 {
+			d1.value--
 		}
 
-		// If final round is true, all integer digits are 9, add a leading 1
-		str1 = funcs.Ternary(round, "1"+string(dig1), string(dig1))
-
 		// Set d1 scale
 		d1.scale = d2.scale
-
-		// Set d1 value (preserving sign)
-		neg := d1.value < 0
-		conv.StringToInt64(str1, &d1.value)
-		if neg {
-			d1.value = -d1.value
-		}
 	}
 
 	return nil
-- 
2.43.0


From 988ec5b6a2a93c956d08a493c6c0f415f60c2bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:18 +0000
Subject: [PATCH 20/30] fix: StringToDecimal rejects text before or after a
 decimal, and text without digits

---
 math/decimal.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/math/decimal.go b/math/decimal.go
index e28d2be..a9d8db5 100755
--- a/math/decimal.go
+++ b/math/decimal.go
@@ -6,7 +6,6 @@ import (
 	"fmt"
     "math/big"
 	"regexp"
-	"slices"
 	"strconv"
 	"strings"
 
@@ -16,7 +15,7 @@ import (
 
 var (
 	// optional minus sign, zero or more digits, optional dot and zero or more digits.
-	decimalRegex = regexp.MustCompile("(-?)([0-9]*)[.]?([0-9]*)")
+	decimalRegex = regexp.MustCompile("^(-?)([0-9]*)[.]?([0-9]*)$")
 
 	// Powers of 10 constants from 10^0 thru 10^18 (scale can be 0 - 18)
 	powersOf10 = []int64{
@@ -166,9 +165,10 @@ func StringToDecimal(value string) (d Decimal, err error) {
 	parts := decimalRegex.FindStringSubmatch(value)
 
 	// Error if string doesn't match regex
+	// Error if there are no digits
 	// Error if total number of digits > 18
 	// indexes : 1 = optional leading minus sign, 2 = optional integer digits, 3 = optional decimal digits
-	if (parts == nil) || slices.Equal(parts, []string{"", "", "", ""}) || ((len(parts[2]) + len(parts[3])) > 18) {
+	if (parts == nil) || ((len(parts[2]) + len(parts[3])) == 0) || ((len(parts[2]) + len(parts[3])) > 18) {
 		err = fmt.Errorf(errInvalidStringMsg, value)
 		return
 	}
-- 
2.43.0


From e6f5a4d9878b1227b7e79f6daf344b20ee254939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:20 +0000
Subject: [PATCH 21/30] fix: DivIntAdd spreads the remainder of normalized and
 negative decimals; DivIntQuoRem rejects divisors over 63 bits

---
 math/decimal.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/math/decimal.go b/math/decimal.go
index a9d8db5..2a1ca7b 100755
--- a/math/decimal.go
+++ b/math/decimal.go
@@ -719,7 +719,7 @@ func (d Decimal) DivIntQuoRem(o uint) (Decimal, Decimal, error) {
 	for i := uint(0); i < d.scale; i++ {
 		intPartOfD /= 10
 	}
-	if int64(o) > intPartOfD {
+	if uint64(o) > uint64(intPartOfD) {
 		return Decimal{}, Decimal{}, fmt.Errorf(errDecimalDivisorTooLargeMsg, d, o)
 	}
 
@@ -742,20 +742,21 @@ func (d Decimal) MustDivIntQuoRem(o uint) (Decimal, Decimal) {
 // EG, 100.00 / 3 = [33.34, 33.33, 33.33].
 // This method just calls DivIntQuoRem and spreads the remainder across the first remainder values returned.
 func (d Decimal) DivIntAdd(o uint) ([]Decimal, error) {
-	// Get the quotient and remainder, returning (nil, error) if an error is returned
-	q, r, e := d.DivIntQuoRem(o)
+	// Get the quotient, returning (nil, error) if an error is returned
+	q, _, e := d.DivIntQuoRem(o)
 	if e != nil {
 		return nil, e
 	}
 
-	// Remainder is just a count of how many values need to be increased by 1
+	// Remainder in units of d scale is just a count of how many values need to be increased by 1 (decreased if negative)
 	var (
-		rc  = r.value
+		rc  = d.value - q.value*int64(o)
+		inc = int64(d.Sign())
 		res = make([]Decimal, o)
 	)
 	for i := int64(0); i < int64(o); i++ {
-		res[i] = Decimal{scale: d.scale, value: q.value + int64(funcs.Ternary(rc > 0, 1, 0)), denormalized: d.denormalized}
-		rc--
+		res[i] = Decimal{scale: d.scale, value: q.value + funcs.Ternary(rc != 0, inc, 0), denormalized: d.denormalized}
+		rc -= funcs.Ternary(rc != 0, inc, 0)
 	}
 
 	return res, nil
-- 
2.43.0


From d4e7846ae39cdf48b18798e8476c4e225599051e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:23 +0000
Subject: [PATCH 22/30] fix: Decimal.Mul rounds half away from zero once, to at
 most 18 digits and decimals

---
 math/decimal.go | 151 ++++++++++--------------------------------------
 1 file changed, 32 insertions(+), 119 deletions(-)

diff --git a/math/decimal.go b/math/decimal.go
index 2a1ca7b..caa1e72 100755
--- a/math/decimal.go
+++ b/math/decimal.go
@@ -6,7 +6,6 @@ import (
 	"fmt"
     "math/big"
 	"regexp"
-	"strconv"
 	"strings"
 
 	"github.com/bantling/micro/conv"
@@ -553,137 +552,51 @@ func (d Decimal) MustSub(o Decimal) Decimal {
 	return funcs.MustValue(d.Sub(o))
 }
 
-// Mul calculates d * o using one of two methods:
+// Mul calculates d * o.
 //
-// r = d * o is tried first
-// If r = 0, then return 0 scale 0.
-// If r / d = o, then if r > max value or < min value, we have a valid result 19 digits in length.
-//	- Round it to 18 with single divide by 10, and add 1 if remainder >= 5.
-//	- Given max int64 value starts with 92, divide by 10 and add 1 cannot go back up 19 digits.
+// The exact result has a scale of d scale + o scale, and may be up to 36 digits, so it is calculated as a BigInt.
+// If it has more than 18 digits or a scale greater than 18, it is rounded half away from zero to the largest scale that fits:
+//  - If there are more than 18 integer digits, the integer portion is too large, it is an overflow.
+//  - Otherwise, all the extra digits are rounded off at once.
 //
-// Otherwise If r / d != o, it is a 64-bit overflow, use BigInt to multiply the two numbers, and get the base 10 string.
-// The resulting scale rs is d scale + o scale, and we need to round (length - 18) times:
-//  - Check that resulting scale >= length - 18. If not, the integer portion is too large, it is an overflow.
-//  - Otherwise, round length - 18 times to bring the result down to max of 18 digits.
-//
-// If the result is 0, return 0 scale 0, else return r scale rs.
+// If the result is 0, return 0 scale 0.
 func (d Decimal) Mul(o Decimal) (Decimal, error) {
-    // Ensure both values are non-negative
+	// Multiply the absolute values
 	var (
-		dval = d.value
-		dpos = dval >= 0
-
-		oval = o.value
-		opos = oval >= 0
-
+		rpos   = (d.value >= 0) == (o.value >= 0)
 		rscale = d.scale + o.scale
+		bi     = big.NewInt(d.value)
 	)
 
-	if !dpos {
-		dval = -dval
-	}
-	if !opos {
-		oval = -oval
+	bi.Mul(bi, big.NewInt(o.value))
+	bi.Abs(bi)
+
+	// Round off as many digits as needed to have at most 18 digits, and at most 18 decimals
+	if drop := MaxOrdered(len(bi.Text(10)), int(rscale)) - decimalMaxScale; drop > 0 {
+		// If there are not enough decimals to round off, the integer portion is too large
+		if drop > int(rscale) {
+			return Decimal{}, fmt.Errorf(funcs.Ternary(rpos, errDecimalOverflowMsg, errDecimalUnderflowMsg), d, "*", o)
+		}
+
+		// Round half up by adding half of the power of ten to divide by
+		power10 := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(drop)), nil)
+		bi.Add(bi, new(big.Int).Quo(power10, big.NewInt(2)))
+		bi.Quo(bi, power10)
+		rscale -= uint(drop)
 	}
 
-	// Try just multiplying the two 64-bit values together, and see if the result fits in 64 bits
-	var (
-		rval = dval * oval
-		rpos = dpos == opos
-	)
+	rval := bi.Int64()
 
-    // Flag to track if we have a 19 digit number that could possibly round to 18, if scale > 0
-    var round19 bool
-
-	// If result is 0, nothing more to do
-	if dval != 0 {
-		// If rval / dval != oval, the binary result overflowed, and we have to use a different technique
-		// Otherwise, it is possible we have a 19 digit value that we can try and round down to 18
-		// Since we already checked dval != 0, we cannot get division by zero
-		if round19 = rval / dval == oval; !round19 {
-		    // If the scale is 0, it is an integer value that must overflow
-            if rscale == 0 {
-                return Decimal{}, fmt.Errorf(funcs.Ternary(d.Sign() == o.Sign(), errDecimalOverflowMsg, errDecimalUnderflowMsg), d, "*", o)
-            }
-
-			// We need a 128-bit result, so use BigInt
-            bi := big.NewInt(dval)
-            bi = bi.Mul(bi, big.NewInt(oval))
-
-            // Get result as a decimal string, converted to a slice of ascii bytes
-            base10 := []byte(bi.Text(10))
-
-            // Normalize by removing insignificant 0s at the end, as long as they are after the decimal
-            for (rscale > 0) && (base10[len(base10)-1] - '0' == 0) {
-                rscale--
-                base10 = base10[:len(base10)-1]
-            }
-
-            // The length of the string - result scale = number of integer digits
-            // It is an overflow if the number of integer digits > 18
-            if (len(base10) - int(rscale) > 18) {
-                return Decimal{}, fmt.Errorf(funcs.Ternary(d.Sign() == o.Sign(), errDecimalOverflowMsg, errDecimalUnderflowMsg), d, "*", o)
-            }
-
-            // While the total length > 18, round off decimal digits until it isn't
-            // This may round to an integer, or may still have some decimals
-            var digit, carry byte
-            for ; len(base10) > 18; base10 = base10[:len(base10) - 1] {
-                digit = base10[len(base10) - 1] - '0' + carry
-                carry = 0
-                if digit >= 5 {
-                    carry = 1
-                }
-                rscale--
-            }
-
-            // Get final digit
-            digit = base10[len(base10) - 1] - '0'
-
-            // Convert byte slice back to a 64 bit int (cannot fail, as it is <= 18 digits in length)
-            rval, _ = strconv.ParseInt(string(base10), 10, 64)
-
-            // Add 1 if the final carry is 1 and final digit >= 5
-            // Let the binary add ripple the carry as needed
-            if (carry == 1) && (digit >= 5) {
-                rval++
-
-                // It is possible we just added 1 to an 18 digit value that became a 19 digit value
-                round19 = true
-            }
+	// Rounding may have carried all the way into a 19th digit, in which case the last digit is 0
+	if rval > decimalMaxValue {
+		if rscale == 0 {
+			return Decimal{}, fmt.Errorf(funcs.Ternary(rpos, errDecimalOverflowMsg, errDecimalUnderflowMsg), d, "*", o)
 		}
+
+		rval /= 10
+		rscale--
 	}
 
-    if round19 && (rval > decimalMaxValue) {
-        // If we have no decimal digits, we cannot round
-        if rscale == 0 {
-            return Decimal{}, fmt.Errorf(funcs.Ternary(d.Sign() == o.Sign(), errDecimalOverflowMsg, errDecimalUnderflowMsg), d, "*", o)
-        }
-
-        // Round one digit
-        rmdr := rval % 10
-        rval /= 10
-        if rmdr >= 5 {
-            rval++
-
-            // If we have 18 9's, then adding 1 would make it 19 digits again
-            if (rval > decimalMaxValue) {
-                return Decimal{}, fmt.Errorf(funcs.Ternary(d.Sign() == o.Sign(), errDecimalOverflowMsg, errDecimalUnderflowMsg), d, "*", o)
-            }
-        }
-    }
-
-    // If rscale > 18, then we need to round off digits until it is down to 18
-    for rscale > 18 {
-        rmdr := rval % 10
-        rval /= 10
-        if rmdr >= 5 {
-            rval++
-        }
-        rscale--
-    }
-
-	// Perform common final operations, regardless of which technique was used to get the result
 	if !rpos {
 		rval = -rval
 	}
-- 
2.43.0


From 51342a917c3e84524971f0ad399467c6c69cef50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:25 +0000
Subject: [PATCH 23/30] fix: Decimal.Div reports division by zero, and rounds
 to at most 18 digits and decimals without overflow

---
 math/decimal.go | 91 +++++++++++++++++++------------------------------
 1 file changed, 35 insertions(+), 56 deletions(-)

diff --git a/math/decimal.go b/math/decimal.go
index caa1e72..e88bc68 100755
--- a/math/decimal.go
+++ b/math/decimal.go
@@ -796,7 +796,14 @@ func (d Decimal) MustDivIntAdd(o uint) []Decimal {
 // Scale 0 - 1 = -1 = Multiply by 10^1
 // = 1 * 10^18
 // = overflow
+//
+// Returns a division by zero error if o is zero.
 func (d Decimal) Div(o Decimal) (Decimal, error) {
+	// If o is 0, return division by zero error
+	if o.value == 0 {
+		return Decimal{}, fmt.Errorf(errDecimalDivisionByZeroMsg, d)
+	}
+
 	// Check if d and o are positive (>= 0)
 	// 	fmt.Printf("%s / %s\n", d, o)
 	dpos, opos := d.value >= 0, o.value >= 0
@@ -815,71 +822,43 @@ func (d Decimal) Div(o Decimal) (Decimal, error) {
 	r := dval % oval
 
 	// Scale is dividend - divisor, could be negative
-	s := int(d.scale - o.scale)
+	s := int(d.scale) - int(o.scale)
+
+	// Generate digits until the scale is not negative, and there is no remainder or the maximum scale is reached
+	for (s < 0) || ((r != 0) && (s < decimalMaxScale)) {
+		// If quotient would exceed max value with another digit, fall back on quotient, as most accurate result we can get,
+		// unless it is an integer that needs the digit
+		if q > decimalMaxValue/10 {
+			if s < 0 {
+				return Decimal{}, fmt.Errorf(funcs.Ternary(dpos == opos, errDecimalOverflowMsg, errDecimalUnderflowMsg), d, "/", o)
+			}
 
-	// If scale is negative, multiply q,r by 10^(-scale), set scale = 0
-	// If the multiplications go beyond the limit of digits, we have to error out
-	for s < 0 {
-		q *= 10
-		r *= 10
-		s += 1
+			break
+		}
 
-		if q > decimalMaxValue {
-			// Return over/underflow
+		// If remainder exceeds max value, over/underflow occurs
+		if r > decimalMaxValue/10 {
 			return Decimal{}, fmt.Errorf(funcs.Ternary(dpos == opos, errDecimalOverflowMsg, errDecimalUnderflowMsg), d, "/", o)
 		}
-	}
 
-	// If r != 0, perform successive multiply/divides until r = 0
-main_loop:
-	for r != 0 {
-		// Multiply q,r by 10 until r >= o
-		for r < oval {
-			nq, nr, ns := q*10, r*10, s+1
-			// fmt.Printf("nq = %d, nr = %d, ns = %d\n", nq, nr, ns)
-
-			// If quotient exceeds max value, fall back on previous quotient, as most accurate result we can get
-			if nq > decimalMaxValue {
-				// fmt.Println("ran out of digits")
-
-				// Get next generated digit, so we know if we should round up the existing quotient
-				// Remainder may be < oval, multiply by 10 until it isn't
-				for nr < oval {
-					nr *= 10
-				}
-				nr /= oval
-				// fmt.Printf("next digit remainder = %d\n", nr)
-
-				// New remainder may be > 10
-				// If so, divide by 10 until remainder < 10, to get most significant digit of it
-				for nr > 10 {
-					nr /= 10
-				}
-				// fmt.Printf("next digit = %d\n", nr)
-
-				// Is next digit >= 5?
-				if nr >= 5 {
-					// fmt.Printf("Rounding up")
-					q++
-				}
-
-				break main_loop
-			}
+		// Add next digit to quotient
+		r *= 10
+		q, r, s = q*10+r/oval, r%oval, s+1
+	}
 
-			// If remainder exceeds max value, over/underflow occurs
-			if nr > decimalMaxValue {
-				// fmt.Println("exceeded max")
-				return Decimal{}, fmt.Errorf(funcs.Ternary(dpos == opos, errDecimalOverflowMsg, errDecimalUnderflowMsg), d, "/", o)
-			}
+	// Round half up any digits that were not generated
+	if r >= oval-r {
+		q++
+	}
 
-			// Copy new quotient, remainder, scale into current
-			q = nq
-			r = nr
-			s = ns
+	// Rounding may have carried all the way into a 19th digit, in which case the last digit is 0
+	if q > decimalMaxValue {
+		if s == 0 {
+			return Decimal{}, fmt.Errorf(funcs.Ternary(dpos == opos, errDecimalOverflowMsg, errDecimalUnderflowMsg), d, "/", o)
 		}
 
-		// Add r / oval to q, set r to r mod oval
-		q, r = q+r/oval, r%oval
+		q /= 10
+		s--
 	}
 
 	// If original signs differed, then result is negative
-- 
2.43.0


From 14ef59b08d256ff9c9ea7754b2e07afe273eabb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:20 +0000
Subject: [PATCH 24/30] fix: StringToDecimal accepts the zero that String puts
 before 18 decimals

---
 math/decimal.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/math/decimal.go b/math/decimal.go
index e88bc68..8607548 100755
--- a/math/decimal.go
+++ b/math/decimal.go
@@ -163,10 +163,15 @@ func MustDecimal(value int64, scale uint, normalized ...bool) Decimal {
 func StringToDecimal(value string) (d Decimal, err error) {
 	parts := decimalRegex.FindStringSubmatch(value)
 
+	// A zero before the decimal point is not significant, String() adds it to values of 18 decimals
+	// indexes : 1 = optional leading minus sign, 2 = optional integer digits, 3 = optional decimal digits
+	if (parts != nil) && (parts[2] == "0") && (len(parts[3]) > 0) {
+		parts[2] = ""
+	}
+
 	// Error if string doesn't match regex
 	// Error if there are no digits
 	// Error if total number of digits > 18
-	// indexes : 1 = optional leading minus sign, 2 = optional integer digits, 3 = optional decimal digits
 	if (parts == nil) || ((len(parts[2]) + len(parts[3])) == 0) || ((len(parts[2]) + len(parts[3])) > 18) {
 		err = fmt.Errorf(errInvalidStringMsg, value)
 		return
-- 
2.43.0


From 7fabb6ce310f61c56d9674d942716b050be377a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:46 +0000
Subject: [PATCH 25/30] fix: stream.Generator remembers the iter it generated a
 function for

---
 stream/stream.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/stream/stream.go b/stream/stream.go
index 149dc06..f94110d 100755
--- a/stream/stream.go
+++ b/stream/stream.go
@@ -711,6 +711,7 @@ func Generator[T, U any](gen func() func(iter.Iter[T]) iter.Iter[U]) func(iter.I
 
 	return func(it iter.Iter[T]) iter.Iter[U] {
 		if currentIter != it {
+			currentIter = it
 			fn = gen()
 		}
 
-- 
2.43.0


From 706e6ab7e9a3fee33d5b8f1e0beae3f148bf4b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:04 +0000
Subject: [PATCH 26/30] fix: stream.Parallel of two different interface types
 does not panic

---
 stream/stream.go | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/stream/stream.go b/stream/stream.go
index f94110d..ae17442 100755
--- a/stream/stream.go
+++ b/stream/stream.go
@@ -1207,15 +1207,9 @@ func Parallel[T, U any](transforms func(iter.Iter[T]) iter.Iter[U], info ...PInf
 		sliceRanges := generateRanges(numItems, info)
 
 		// Determine a slice to use for the output
-		var (
-			zt     T
-			zu     U
-			output []U
-		)
-		if reflect.TypeOf(zt) == reflect.TypeOf(zu) {
-			// T and U are the same type, modify input slice in place
-			output = any(input).([]U)
-		} else {
+		// If T and U are the same type, modify input slice in place
+		output, isa := any(input).([]U)
+		if !isa {
 			// Create a separate output slice
 			output = make([]U, numItems)
 		}
-- 
2.43.0


From 54758975dbe9ff4b9e2da804c5503817ad883079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:40 +0000
Subject: [PATCH 27/30] fix: json values accept only valid number texts, and
 maps and slices of values

---
 encoding/json/value.go | 45 ++++++++++++++++++++++++------------------
 1 file changed, 26 insertions(+), 19 deletions(-)

diff --git a/encoding/json/value.go b/encoding/json/value.go
index 4ea1cf4..eb886f9 100755
--- a/encoding/json/value.go
+++ b/encoding/json/value.go
@@ -14,8 +14,8 @@ import (
 	"github.com/bantling/micro/union"
 )
 
-// NumberString regex
-var numberStringRegex = regexp.MustCompile("-?[0-9]+([.][0-9]+)?(e[0-9]+)?")
+// NumberString regex, which matches only a complete JSON number
+var numberStringRegex = regexp.MustCompile("^-?(0|[1-9][0-9]*)([.][0-9]+)?([eE][+-]?[0-9]+)?$")
 
 // Error constants
 var (
@@ -86,6 +86,10 @@ func toValue(val any) (res Value, err error) {
 			return
 		}
 
+		// Object that has Values
+	} else if mp, isa := val.(map[string]Value); isa {
+		res, err = MapToValue(mp)
+
 		// Array
 	} else if arr, isa := val.([]any); isa {
 		// recursive call
@@ -93,6 +97,10 @@ func toValue(val any) (res Value, err error) {
 			return
 		}
 
+		// Array that has Values
+	} else if arr, isa := val.([]Value); isa {
+		res, err = SliceToValue(arr)
+
 		// Boolean
 	} else if bln, isa := val.(bool); isa {
 		res = BoolToValue(bln)
@@ -102,23 +110,21 @@ func toValue(val any) (res Value, err error) {
 		// nil only occurs if a *big is nil
 		res = NullValue
 
-	} else {
-		// string and NumberString
-		typ := goreflect.TypeOf(val)
-
-		if typ.Kind() == goreflect.String {
-			if typ.AssignableTo(goreflect.TypeOf(NumberString(""))) {
-				res, err = numberToValue(val.(NumberString))
-			} else {
-				res = StringToValue(val.(string))
-			}
+		// String
+	} else if str, isa := val.(string); isa {
+		res = StringToValue(str)
 
-			return
+		// NumberString
+	} else if num, isa := val.(NumberString); isa {
+		res, err = numberToValue(num)
 
-			// Must be Number
-		} else {
-			res, err = numberToValue(val)
-		}
+		// A type derived from string is not acceptable, and must not be mistaken for a number
+	} else if goreflect.TypeOf(val).Kind() == goreflect.String {
+		err = fmt.Errorf(errInvalidGoValueMsg, val)
+
+		// Must be Number
+	} else {
+		res, err = numberToValue(val)
 	}
 
 	return
@@ -227,8 +233,9 @@ func numberToValue(val any) (nval Value, err error) {
 			return
 		}
 
-		// A NumberString could be the empty string, or "foo" or some other value that is not a number
-		if ns, isa := val.(NumberString); isa && (!numberStringRegex.MatchString(string(ns))) {
+		// A NumberString could be the empty string, or "foo" or some other value that is not a number.
+		// A float could be NaN or an infinity, which are not JSON numbers.
+		if !numberStringRegex.MatchString(str) {
 			err = errNotNumber
 			return
 		}
-- 
2.43.0


From a660324d458bc4605c4f29cbfbe027b44c44b40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:41 +0000
Subject: [PATCH 28/30] fix: json lexer handles an escaped quote as \\u0022 and
 rejects -01

---
 encoding/json/parse/lex.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/encoding/json/parse/lex.go b/encoding/json/parse/lex.go
index 143bd8b..6e88398 100755
--- a/encoding/json/parse/lex.go
+++ b/encoding/json/parse/lex.go
@@ -199,7 +199,9 @@ func lexString(it iter.Iter[rune]) (token, error) {
                     hexVal = hexValCombined
 				}
 
-				val = hexVal
+				// Cannot just set val, \u0022 is an escaped double quote, that later code would think is the end of the string
+				str = append(str, hexVal)
+				continue
 			default:
 				return zv, fmt.Errorf(errIllegalStringEscapeMsg, string('\\')+string(val))
 			}
@@ -260,11 +262,14 @@ func lexNumber(it iter.Iter[rune]) (token, error) {
 		}
 
 		if (val >= '0') && (val <= '9') {
-			haveDigit = true
 			str = append(str, val)
 			if leadingZero {
 				return die()
 			}
+
+			// A zero after a minus sign is also a leading zero
+			leadingZero = (!haveDigit) && (val == '0')
+			haveDigit = true
 		} else if val == '.' {
 			str = append(str, val)
 			if haveDigit {
-- 
2.43.0


From b1794262ad0e9a4b16d20de13202559b1d836a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:42 +0000
Subject: [PATCH 29/30] fix: json parser rejects missing values and commas
 before a closing brace

---
 encoding/json/parse/parse.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/encoding/json/parse/parse.go b/encoding/json/parse/parse.go
index 53aea2d..e6fcc24 100755
--- a/encoding/json/parse/parse.go
+++ b/encoding/json/parse/parse.go
@@ -15,6 +15,7 @@ import (
 // Error constants
 var (
 	errObjectRequiresKeyOrBrace              = fmt.Errorf("A JSON object must have a string key or closing brace after the opening brace")
+	errObjectCommaRequiresKey                = fmt.Errorf("A JSON object must have a string key after a comma")
 	errObjectDuplicateKeyMsg                 = "A JSON object cannot have duplicate key %q"
 	errObjectKeyRequiresColonMsg             = "The JSON object key %q just be followed by a colon"
 	errObjectKeyRequiresValueMsg             = "The JSON object key %q must be have a value that is an object, arrray, string, number, boolean, or null"
@@ -78,6 +79,7 @@ func parseObject(it iter.Iter[token]) (json.Value, error) {
 		value      json.Value
 		zv         json.Value
 		commaBrace token
+		comma      bool
 		object     = map[string]json.Value{}
 	)
 
@@ -92,8 +94,12 @@ func parseObject(it iter.Iter[token]) (json.Value, error) {
 			return zv, err // Case 2
 		}
 
-		// If closing brace, valid empty object
+		// If closing brace, valid empty object, unless it follows a comma
 		if key.typ == tCBrace {
+			if comma {
+				return zv, errObjectCommaRequiresKey // Case 14
+			}
+
 			return json.MapToValue(object)
 		}
 
@@ -134,6 +140,10 @@ func parseObject(it iter.Iter[token]) (json.Value, error) {
 			// A problem
 			return zv, err // Case 10
 		}
+		if value.Type() == json.Invalid {
+			// The token cannot begin a value
+			return zv, fmt.Errorf(errObjectKeyRequiresValueMsg, key.value) // Case 15
+		}
 		object[key.value] = value
 
 		// Expect a comma or closing brace
@@ -147,6 +157,7 @@ func parseObject(it iter.Iter[token]) (json.Value, error) {
 
 		if commaBrace.typ == tComma {
 			// Read next key/value pair
+			comma = true
 			continue
 		}
 
@@ -202,6 +213,10 @@ func parseArray(it iter.Iter[token]) iter.Iter[json.Value] {
 				// A problem - cannot be EOI
 				return zv, err // Case 4
 			}
+			if value.Type() == json.Invalid {
+				// The token cannot begin a value
+				return zv, errArrayRequiresValueOrBracket // Case 12
+			}
 
 			// Return first value
 			first = false
@@ -233,6 +248,10 @@ func parseArray(it iter.Iter[token]) iter.Iter[json.Value] {
 				// A problem - cannot be EOI
 				return zv, err // Case 9
 			}
+			if value.Type() == json.Invalid {
+				// The token cannot begin a value
+				return zv, errArrayRequiresValue // Case 13
+			}
 
 			return value, nil
 		}
-- 
2.43.0


From 42a6e0a6f77301fdb4f0fe9a5b365bece1fcf891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:43 +0000
Subject: [PATCH 30/30] fix: json strings and keys are escaped when written

---
 encoding/json/write/write.go | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/encoding/json/write/write.go b/encoding/json/write/write.go
index da80e08..d0d7554 100755
--- a/encoding/json/write/write.go
+++ b/encoding/json/write/write.go
@@ -8,6 +8,35 @@ import (
 	"github.com/bantling/micro/io/writer"
 )
 
+// appendString appends a string to some data as a JSON string, with the characters escaped that must be
+func appendString(data []rune, str string) []rune {
+	const hex = "0123456789abcdef"
+
+	data = append(data, '"')
+	for _, char := range str {
+		switch {
+		case (char == '"') || (char == '\\'):
+			data = append(data, '\\', char)
+		case char == '\b':
+			data = append(data, '\\', 'b')
+		case char == '\f':
+			data = append(data, '\\', 'f')
+		case char == '\n':
+			data = append(data, '\\', 'n')
+		case char == '\r':
+			data = append(data, '\\', 'r')
+		case char == '\t':
+			data = append(data, '\\', 't')
+		case char < ' ':
+			data = append(data, '\\', 'u', '0', '0', rune(hex[char>>4]), rune(hex[char&0xF]))
+		default:
+			data = append(data, char)
+		}
+	}
+
+	return append(data, '"')
+}
+
 // Write writes any value to a writer
 func Write(jv json.Value, dst writer.Writer[rune]) error {
 	switch jv.Type() {
@@ -16,7 +45,7 @@ func Write(jv json.Value, dst writer.Writer[rune]) error {
 	case json.Array:
 		return WriteArray(jv, dst)
 	case json.String:
-		return dst.Write(append(append([]rune{'"'}, []rune(jv.AsString())...), '"')...)
+		return dst.Write(appendString(nil, jv.AsString())...)
 	case json.Number:
 		fallthrough
 	case json.Boolean:
@@ -46,7 +75,7 @@ func WriteObject(jv json.Value, dst writer.Writer[rune]) error {
 		}
 		i++
 
-		data = append(append(append(data, '"'), []rune(k)...), '"', ':')
+		data = append(appendString(data, k), ':')
 		if err := dst.Write(data...); err != nil {
 			return err
 		}
-- 
2.43.0

