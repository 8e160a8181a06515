From 46193afd37da3843cd3821340117c45fd07bf222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:25 +0000
Subject: [PATCH 01/20] fix: correct the LnInt table above e^36, where float64
 exp was too coarse

---
 pkg/unsigned/log.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/pkg/unsigned/log.go b/pkg/unsigned/log.go
index c082186..5e051f9 100644
--- a/pkg/unsigned/log.go
+++ b/pkg/unsigned/log.go
@@ -13,25 +13,26 @@ package unsigned
 var bounds []uint64
 
 func init() {
-	// Table was constructed in python:
+	// bounds[i] is ceil(e^i)-1, the largest integer whose logarithm is below i.
+	// It must be computed with more than float64 precision, which is not enough
+	// from e^36 on. Table was constructed in python with sympy:
 	//
-	// >>> from math import ceil, exp
+	// >>> from sympy import ceiling, exp
 	// >>> i = 0
 	// >>> bounds = []
-	// >>> while exp(i) <= 2**64:
-	// ...     bounds.append(ceil(exp(i))-1)
+	// >>> while ceiling(exp(i)) <= 2**64:
+	// ...     bounds.append(ceiling(exp(i))-1)
 	// ...     i += 1
 	// ...
-	// True
 	bounds = []uint64{
 		0, 2, 7, 20, 54, 148, 403, 1096, 2980, 8103, 22026, 59874, 162754, 442413,
 		1202604, 3269017, 8886110, 24154952, 65659969, 178482300, 485165195,
 		1318815734, 3584912846, 9744803446, 26489122129, 72004899337, 195729609428,
 		532048240601, 1446257064291, 3931334297144, 10686474581524, 29048849665247,
 		78962960182680, 214643579785916, 583461742527454, 1586013452313430,
-		4311231547115194, 11719142372802611, 31855931757113755, 86593400423993743,
-		235385266837019999, 639843493530054911, 1739274941520500991,
-		4727839468229346303, 12851600114359308287, ^uint64(0),
+		4311231547115195, 11719142372802611, 31855931757113756, 86593400423993746,
+		235385266837019985, 639843493530054949, 1739274941520501047,
+		4727839468229346561, 12851600114359308275, ^uint64(0),
 	}
 }
 
-- 
2.43.0


From 3280459cc20083c5d8d31b208acb47ff373d6eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:31 +0000
Subject: [PATCH 02/20] fix: ExpFrac panicked or wrapped for fractions near 1
 and large operands

The factorial wrapped to zero after 65 terms (division by zero) when
numerator equals denominator, and the range checks came after the
scaling multiplication that could wrap.
---
 pkg/signed/exp.go   | 11 +++++++----
 pkg/unsigned/exp.go | 11 +++++++----
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/pkg/signed/exp.go b/pkg/signed/exp.go
index 178c236..16f1af3 100644
--- a/pkg/signed/exp.go
+++ b/pkg/signed/exp.go
@@ -39,14 +39,16 @@ import (
 // napu multiplication factor of 100,000,000 (which is also the value we use for percentages).
 func ExpFrac(numerator, denominator int64) (int64, error) {
 	rounder := int64(10)
-	numerator *= rounder
-	denominator *= rounder
-	if denominator > (math.MaxInt64 / 2) {
+	// check before scaling, because the scaled values could wrap; the result can be
+	// e times the denominator
+	if denominator > math.MaxInt64/3/rounder {
 		return 0, errors.New("denominator too large")
 	}
 	if numerator > denominator || numerator < 0 || denominator < 0 {
 		return 0, errors.New("fraction must be between 0 and 1")
 	}
+	numerator *= rounder
+	denominator *= rounder
 	// start the sum at 1 + x, which is b/b + a/b, and we only care about the
 	// numerator, so it's just b+a
 	sum := denominator + numerator
@@ -58,9 +60,10 @@ func ExpFrac(numerator, denominator int64) (int64, error) {
 	// the result is 144/10000 which is correct.
 	// This converges at a rate of approximately one decimal digit per loop.
 	product := numerator
+	// The product is below 21!, so terms beyond 20! contribute nothing (and 21! would wrap).
 	fact := int64(1)
 	var err error
-	for i := int64(2); product != 0; i++ {
+	for i := int64(2); product != 0 && i <= 20; i++ {
 		product, err = MulDiv(product, numerator, denominator)
 		if err != nil {
 			return 0, err
diff --git a/pkg/unsigned/exp.go b/pkg/unsigned/exp.go
index c94405e..2196111 100644
--- a/pkg/unsigned/exp.go
+++ b/pkg/unsigned/exp.go
@@ -39,14 +39,16 @@ import (
 // napu multiplication factor of 100,000,000 (which is also the value we use for percentages).
 func ExpFrac(numerator, denominator uint64) (uint64, error) {
 	rounder := uint64(10)
-	numerator *= rounder
-	denominator *= rounder
-	if denominator > (math.MaxUint64 / 2) {
+	// check before scaling, because the scaled values could wrap; the result can be
+	// e times the denominator
+	if denominator > math.MaxUint64/3/rounder {
 		return 0, errors.New("denominator too large")
 	}
 	if numerator > denominator {
 		return 0, errors.New("fraction must be between 0 and 1")
 	}
+	numerator *= rounder
+	denominator *= rounder
 	// start the sum at 1 + x, which is b/b + a/b, and we only care about the
 	// numerator, so it's just b+a
 	sum := denominator + numerator
@@ -58,9 +60,10 @@ func ExpFrac(numerator, denominator uint64) (uint64, error) {
 	// the result is 144/10000 which is correct.
 	// This converges at a rate of approximately one decimal digit per loop.
 	product := numerator
+	// The product is below 21!, so terms beyond 20! contribute nothing (and 21! would wrap).
 	fact := uint64(1)
 	var err error
-	for i := uint64(2); product != 0; i++ {
+	for i := uint64(2); product != 0 && i <= 20; i++ {
 		product, err = MulDiv(product, numerator, denominator)
 		if err != nil {
 			return 0, err
-- 
2.43.0


From 38babefd48483a7e78a0d1f8ac2910aa18485c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:04 +0000
Subject: [PATCH 03/20] fix: Ndau.String lost the sign of amounts between -1
 and 0 ndau

The sign was applied to the whole part only, so -0.5 ndau printed as 0.5;
the minimum int64 printed as garbage.
---
 pkg/types/ndau.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pkg/types/ndau.go b/pkg/types/ndau.go
index c909ab8..59bb921 100644
--- a/pkg/types/ndau.go
+++ b/pkg/types/ndau.go
@@ -71,17 +71,18 @@ func (n Ndau) Compare(rhs Ndau) int {
 // decimal value of ndau. The full napu value is displayed, but trailing zeros
 // are suppressed.
 func (n Ndau) String() string {
-	var sign int64 = 1
+	sign := ""
 	if n < 0 {
-		sign = -1
+		sign = "-"
 	}
-	na := n.Abs()
+	// unsigned, so that the magnitude of MinInt64 is correct too
+	na := uint64(n.Abs())
 	ndau := na / constants.NapuPerNdau
 	napu := na % constants.NapuPerNdau
 	if napu == 0 {
-		return strconv.FormatInt(int64(sign*int64(ndau)), 10)
+		return sign + strconv.FormatUint(ndau, 10)
 	}
-	s := fmt.Sprintf("%d.%08d", sign*int64(ndau), napu)
+	s := fmt.Sprintf("%s%d.%08d", sign, ndau, napu)
 	t := len(s)
 	// trim off trailing zeros
 	for ; s[t-1] == '0'; t-- {
-- 
2.43.0


From fade19a3ba59e9869517b5539431c0cafe1319c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:04 +0000
Subject: [PATCH 04/20] fix: ParseNdau silently wrapped amounts beyond the
 range of Ndau

---
 pkg/types/ndau.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pkg/types/ndau.go b/pkg/types/ndau.go
index 59bb921..d2649c7 100644
--- a/pkg/types/ndau.go
+++ b/pkg/types/ndau.go
@@ -130,6 +130,10 @@ func ParseNdau(s string) (Ndau, error) {
 		return 0, errors.Wrap(err, "parsing ndau")
 	}
 
+	if whole > gomath.MaxInt64/constants.NapuPerNdau {
+		return 0, errors.New("parsing ndau: value out of range")
+	}
+
 	out := Ndau(whole) * constants.NapuPerNdau
 
 	fracs, ok := result["frac"]
@@ -147,7 +151,10 @@ func ParseNdau(s string) (Ndau, error) {
 		if err != nil {
 			return 0, errors.Wrap(err, "parsing frac component")
 		}
-		out += Ndau(frac)
+		out, err = out.Add(Ndau(frac))
+		if err != nil {
+			return 0, errors.Wrap(err, "parsing ndau")
+		}
 	}
 
 	return out, nil
-- 
2.43.0


From f650aaf4e3b9084412e24dd148c929b7d6e00646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:04 +0000
Subject: [PATCH 05/20] fix: ParseDuration silently wrapped durations beyond
 the range of Duration

---
 pkg/types/duration.go | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/pkg/types/duration.go b/pkg/types/duration.go
index e048932..ed4f199 100644
--- a/pkg/types/duration.go
+++ b/pkg/types/duration.go
@@ -14,6 +14,7 @@ import (
 	"encoding"
 	"errors"
 	"fmt"
+	"math"
 	"strconv"
 	"time"
 
@@ -67,14 +68,28 @@ func ParseDuration(s string) (Duration, error) {
 		}
 	}
 
+	// the sign is applied to each component, so that the most negative
+	// duration can be reached
+	var sign int64 = 1
+	if result["neg"] != "" {
+		sign = -1
+	}
+
 	duration := Duration(0)
-	addTime := func(name string, unit uint64) error {
+	addTime := func(name string, unit int64) error {
 		if result[name] != "" {
-			value, err := strconv.ParseUint(result[name], 10, 64)
+			value, err := strconv.ParseInt(result[name], 10, 64)
 			if err != nil {
 				return fmt.Errorf("invalid integer: %s", result[name])
 			}
-			duration += Duration(value * unit)
+			if value > math.MaxInt64/unit {
+				return fmt.Errorf("duration out of range: %s", s)
+			}
+			sum, err := signed.Add(int64(duration), sign*value*unit)
+			if err != nil {
+				return fmt.Errorf("duration out of range: %s", s)
+			}
+			duration = Duration(sum)
 		}
 		return nil
 	}
@@ -101,10 +116,6 @@ func ParseDuration(s string) (Duration, error) {
 		return Duration(0), err
 	}
 
-	if result["neg"] != "" {
-		duration = -duration
-	}
-
 	return duration, nil
 }
 
-- 
2.43.0


From b820ce5bd12b165e2f0d8bb11112e08f80c1c38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:04 +0000
Subject: [PATCH 06/20] fix: Duration.String printed "-" for the most negative
 duration

---
 pkg/types/duration.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pkg/types/duration.go b/pkg/types/duration.go
index ed4f199..f2d1cd3 100644
--- a/pkg/types/duration.go
+++ b/pkg/types/duration.go
@@ -121,17 +121,18 @@ func ParseDuration(s string) (Duration, error) {
 
 // String represents a Duration as a human-readable string
 func (d Duration) String() string {
-	value := int64(d)
+	// unsigned, so that the most negative duration has a magnitude
+	value := uint64(d)
 	out := ""
-	if value < 0 {
+	if d < 0 {
 		out = "-"
 		value = -value
 	}
-	divmod := func(divisor, dividend int64) (int64, int64) {
+	divmod := func(divisor, dividend uint64) (uint64, uint64) {
 		return divisor / dividend, divisor % dividend
 	}
-	extract := func(symbol string, unit int64) {
-		var units int64
+	extract := func(symbol string, unit uint64) {
+		var units uint64
 		units, value = divmod(value, unit)
 		if units > 0 {
 			out += fmt.Sprintf("%d%s", units, symbol)
-- 
2.43.0


From d23601bdf95f8d095796d995248d44c4e8634374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:12 +0000
Subject: [PATCH 07/20] fix: address.Validate accepted padding and line breaks
 inside an address

A 48-character string ending in base32 padding or containing line breaks
decodes to fewer than 30 bytes and was accepted if its last two bytes
happened to be a valid checksum of the rest.
---
 pkg/address/address_impl.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/address/address_impl.go b/pkg/address/address_impl.go
index 2df444f..d2cff43 100644
--- a/pkg/address/address_impl.go
+++ b/pkg/address/address_impl.go
@@ -190,6 +190,11 @@ func Validate(addr string) (Address, error) {
 	if err != nil {
 		return emptyA(), err
 	}
+	// base32 padding and embedded line breaks are not part of an address:
+	// all of its characters must carry data
+	if len(h)*8 != AddrLength*5 {
+		return emptyA(), newError(fmt.Sprintf("not a valid address: '%s'", addr))
+	}
 	// now check the two bytes of the checksum
 	if !b32.Check(h[:len(h)-2], h[len(h)-2:]) {
 		// uncomment these lines if you want to regenerate a key
-- 
2.43.0


From d3d241901f250f073218f984a8604c4b0ff5cdbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:12 +0000
Subject: [PATCH 08/20] fix: Address.UnmarshalText kept the casing of the text
 it was given

so that equal addresses compared unequal and Kind returned an invalid kind.
---
 pkg/address/address.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pkg/address/address.go b/pkg/address/address.go
index d6dfd27..7e8becd 100644
--- a/pkg/address/address.go
+++ b/pkg/address/address.go
@@ -46,11 +46,10 @@ func (a Address) MarshalText() ([]byte, error) {
 
 // UnmarshalText implements encoding.TextUnmarshaler
 func (a *Address) UnmarshalText(text []byte) error {
-	s := string(text)
-	_, err := Validate(s)
+	v, err := Validate(string(text))
 	if err != nil {
 		return err
 	}
-	a.addr = s
+	*a = v
 	return nil
 }
-- 
2.43.0


From 56bcd31059e8c237ede7e55dbfc4aed4fd6cd12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:18 +0000
Subject: [PATCH 09/20] fix: words.ToBytes accepted word lists FromBytes never
 makes

It panicked on an empty list, accepted lists whose length leaves no room for a
checksum (any eight words), and preferred a shorter reading FromBytes would
have encoded in fewer words.
---
 pkg/words/words.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/words/words.go b/pkg/words/words.go
index a2c7907..185ec32 100644
--- a/pkg/words/words.go
+++ b/pkg/words/words.go
@@ -199,6 +199,11 @@ func ToBytes(lang string, s []string) ([]byte, error) {
 	// because if this crc is correct it's more likely to be the right answer
 	for _, rb := range []int{resultbytes - 1, resultbytes} {
 		runlen := nbits - rb*8
+		// FromBytes leaves at least 4 bits for the crc, and never as much as
+		// another whole word; anything else isn't one of its word lists
+		if rb < 0 || runlen < 4 || runlen >= 4+11 {
+			continue
+		}
 		mask := (1 << uint(runlen)) - 1 // generate runlen 1 bits
 		ckcalc := int(crc8(result[:rb])) & mask
 		ckfound := getRun(rb*8, runlen, result)
-- 
2.43.0


From a22fff0a71928bf185652d27ba2410943ae1d55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:51 +0000
Subject: [PATCH 10/20] fix: CheckChecksum panicked on wide checksums and
 accepted an empty one

---
 pkg/signature/checksum.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/signature/checksum.go b/pkg/signature/checksum.go
index 683711a..5a2cfca 100644
--- a/pkg/signature/checksum.go
+++ b/pkg/signature/checksum.go
@@ -84,6 +84,11 @@ func CheckChecksum(checked []byte) (message []byte, checksumOk bool) {
 	if end < 1 {
 		return nil, false
 	}
+	// no other width comes from AddChecksum; too narrow a checksum proves
+	// nothing, and too wide a one is more than the hash can fill
+	if n != checksumWidth(end-1) {
+		return nil, false
+	}
 	message = checked[1:end]
 
 	sumActual := checked[end:]
-- 
2.43.0


From f9beb09581830ad25437aa0e618af0c2dc746ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:52 +0000
Subject: [PATCH 11/20] fix: unmarshalling bad signatures or unknown algorithms
 panicked

---
 pkg/signature/algorithm.go | 13 +++++++++++--
 pkg/signature/signature.go |  8 +++++---
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/pkg/signature/algorithm.go b/pkg/signature/algorithm.go
index aae8e4a..6ad40e1 100644
--- a/pkg/signature/algorithm.go
+++ b/pkg/signature/algorithm.go
@@ -11,6 +11,7 @@ package signature
 
 
 import (
+	"fmt"
 	"io"
 	"reflect"
 
@@ -95,7 +96,11 @@ func unmarshal(serialized []byte) (al Algorithm, data []byte, err error) {
 	if len(leftovers) > 0 {
 		return nil, nil, errors.New("Leftovers present after deserialization")
 	}
-	return cloneAl(idMap[container.Algorithm]), container.Data, nil
+	original, known := idMap[container.Algorithm]
+	if !known {
+		return nil, nil, fmt.Errorf("unknown algorithm id %d", container.Algorithm)
+	}
+	return cloneAl(original), container.Data, nil
 }
 
 func unmarshalWithLeftovers(serialized []byte) (al Algorithm, data, leftovers []byte, err error) {
@@ -104,7 +109,11 @@ func unmarshalWithLeftovers(serialized []byte) (al Algorithm, data, leftovers []
 	if err != nil {
 		return nil, nil, nil, err
 	}
-	return cloneAl(idMap[container.Algorithm]), container.Data, leftovers, nil
+	original, known := idMap[container.Algorithm]
+	if !known {
+		return nil, nil, nil, fmt.Errorf("unknown algorithm id %d", container.Algorithm)
+	}
+	return cloneAl(original), container.Data, leftovers, nil
 }
 
 // Generate a high-level keypair
diff --git a/pkg/signature/signature.go b/pkg/signature/signature.go
index 303898d..846bd7b 100644
--- a/pkg/signature/signature.go
+++ b/pkg/signature/signature.go
@@ -64,9 +64,11 @@ func (signature Signature) Marshal() (serialized []byte, err error) {
 // Unmarshal unmarshals the serialized binary data into the supplied signature instance
 func (signature *Signature) Unmarshal(serialized []byte) error {
 	al, b, err := unmarshal(serialized)
-	ss := al.SignatureSize()
-	if err == nil && ss >= 0 && len(b) != ss {
-		err = fmt.Errorf("Wrong size signature: expect len %d, have %d", al.SignatureSize(), len(b))
+	if err != nil {
+		return err
+	}
+	if ss := al.SignatureSize(); ss >= 0 && len(b) != ss {
+		err = fmt.Errorf("Wrong size signature: expect len %d, have %d", ss, len(b))
 	}
 	if err == nil {
 		signature.algorithm = al
-- 
2.43.0


From b09a5ae1d9b7ddaf5e3c941dd14ed6a55969e7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:53 +0000
Subject: [PATCH 12/20] fix: unmarshalling key text shorter than its prefix
 panicked

---
 pkg/signature/private_key.go | 4 ++--
 pkg/signature/public_key.go  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/signature/private_key.go b/pkg/signature/private_key.go
index e449d03..bc2faf0 100644
--- a/pkg/signature/private_key.go
+++ b/pkg/signature/private_key.go
@@ -124,8 +124,8 @@ func (key PrivateKey) MarshalText() ([]byte, error) {
 func (key *PrivateKey) UnmarshalText(text []byte) error {
 	expectPrefix := []byte(PrivateKeyPrefix)
 	lep := len(expectPrefix)
-	if !bytes.Equal(expectPrefix, text[:lep]) {
-		return fmt.Errorf("private key must begin with %q; got %q", PrivateKeyPrefix, text[:lep])
+	if !bytes.HasPrefix(text, expectPrefix) {
+		return fmt.Errorf("private key must begin with %q; got %q", PrivateKeyPrefix, text[:min(lep, len(text))])
 	}
 	err := key.keyBase.UnmarshalText(text[lep:])
 	if err == nil {
diff --git a/pkg/signature/public_key.go b/pkg/signature/public_key.go
index 1378637..ebe7753 100644
--- a/pkg/signature/public_key.go
+++ b/pkg/signature/public_key.go
@@ -136,8 +136,8 @@ func (key PublicKey) MarshalText() ([]byte, error) {
 func (key *PublicKey) UnmarshalText(text []byte) error {
 	expectPrefix := []byte(PublicKeyPrefix)
 	lep := len(expectPrefix)
-	if !bytes.Equal(expectPrefix, text[:lep]) {
-		return fmt.Errorf("public key must begin with %q; got %q", PublicKeyPrefix, text[:lep])
+	if !bytes.HasPrefix(text, expectPrefix) {
+		return fmt.Errorf("public key must begin with %q; got %q", PublicKeyPrefix, text[:min(lep, len(text))])
 	}
 	err := key.keyBase.UnmarshalText(text[lep:])
 	if err == nil {
-- 
2.43.0


From 6e3857ae2295bab113321c695e58ab393cac4061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:22 +0000
Subject: [PATCH 13/20] fix: the advertised size of keys left out the extra
 bytes and the length byte

---
 pkg/signature/keybase.go     | 3 ++-
 pkg/signature/private_key.go | 5 +----
 pkg/signature/public_key.go  | 3 +--
 3 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/pkg/signature/keybase.go b/pkg/signature/keybase.go
index 32f386a..1d833e4 100644
--- a/pkg/signature/keybase.go
+++ b/pkg/signature/keybase.go
@@ -131,7 +131,8 @@ func (key *keyBase) UnmarshalMsg(in []byte) (leftover []byte, err error) {
 // as fundamentally a keyBase gets serialized as an IdentifiedData, and so should
 // have the same size.
 func (key *keyBase) Msgsize() (s int) {
-	s = 1 + msgp.Uint8Size + msgp.BytesPrefixSize + len(key.key)
+	// the packed data is the length of the key, the key, and the extra bytes
+	s = 1 + msgp.Uint8Size + msgp.BytesPrefixSize + 1 + len(key.key) + len(key.extra)
 	return
 }
 
diff --git a/pkg/signature/private_key.go b/pkg/signature/private_key.go
index bc2faf0..f2d8010 100644
--- a/pkg/signature/private_key.go
+++ b/pkg/signature/private_key.go
@@ -14,8 +14,6 @@ import (
 	"bytes"
 	"fmt"
 	"strings"
-
-	"github.com/tinylib/msgp/msgp"
 )
 
 // PrivateKeyPrefix always prefixes Ndau private keys in text serialization
@@ -106,8 +104,7 @@ func (key *PrivateKey) UnmarshalMsg(in []byte) (leftover []byte, err error) {
 // as fundamentally a PrivateKey gets serialized as an IdentifiedData, and so should
 // have the same size.
 func (key *PrivateKey) Msgsize() (s int) {
-	s = 1 + msgp.Uint8Size + msgp.BytesPrefixSize + len(key.key)
-	return
+	return key.keyBase.Msgsize()
 }
 
 // MarshalText implements encoding.TextMarshaler.
diff --git a/pkg/signature/public_key.go b/pkg/signature/public_key.go
index ebe7753..906662f 100644
--- a/pkg/signature/public_key.go
+++ b/pkg/signature/public_key.go
@@ -118,8 +118,7 @@ func (key *PublicKey) UnmarshalMsg(in []byte) (leftover []byte, err error) {
 // as fundamentally a PublicKey gets serialized as an IdentifiedData, and so should
 // have the same size.
 func (key *PublicKey) Msgsize() (s int) {
-	s = 1 + msgp.Uint8Size + msgp.BytesPrefixSize + len(key.key)
-	return
+	return key.keyBase.Msgsize()
 }
 
 // MarshalText implements encoding.TextMarshaler.
-- 
2.43.0


From 3a58c51841e50845aaadcac3ca934d6a1fe0efcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:23 +0000
Subject: [PATCH 14/20] fix: verifying or sizing an empty signature panicked

---
 pkg/signature/id_map.go    | 4 ++++
 pkg/signature/signature.go | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/pkg/signature/id_map.go b/pkg/signature/id_map.go
index 5e81ee5..b415244 100644
--- a/pkg/signature/id_map.go
+++ b/pkg/signature/id_map.go
@@ -71,6 +71,10 @@ func buildNameMap() {
 
 // NameOf returns the name of an Algorithm
 func NameOf(al Algorithm) string {
+	// no algorithm is the null algorithm
+	if al == nil {
+		al = Null
+	}
 	ty := reflect.TypeOf(al)
 	// arbitrary-depth dereference
 	for ty.Kind() == reflect.Interface || ty.Kind() == reflect.Ptr {
diff --git a/pkg/signature/signature.go b/pkg/signature/signature.go
index 846bd7b..70ea636 100644
--- a/pkg/signature/signature.go
+++ b/pkg/signature/signature.go
@@ -52,6 +52,9 @@ func RawSignature(al Algorithm, data []byte) (*Signature, error) {
 
 // Size returns the size of this signature
 func (signature Signature) Size() int {
+	if signature.algorithm == nil {
+		return Null.SignatureSize()
+	}
 	return signature.algorithm.SignatureSize()
 }
 
-- 
2.43.0


From 159f50d39a75efe132ece20041aa532ab65a7918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:24 +0000
Subject: [PATCH 15/20] fix: unmarshalling kept stale key bytes and accepted
 signatures of the wrong size

---
 pkg/signature/keybase.go   | 3 +++
 pkg/signature/signature.go | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/pkg/signature/keybase.go b/pkg/signature/keybase.go
index 1d833e4..3336672 100644
--- a/pkg/signature/keybase.go
+++ b/pkg/signature/keybase.go
@@ -55,6 +55,9 @@ func (key keyBase) pack() ([]byte, error) {
 
 func (key *keyBase) unpack(data []byte) error {
 	if len(data) == 0 {
+		// nothing packed: do not keep what the receiver held before
+		key.key = []byte{}
+		key.extra = []byte{}
 		return nil
 	}
 	lk := int(data[0])
diff --git a/pkg/signature/signature.go b/pkg/signature/signature.go
index 70ea636..c7d6145 100644
--- a/pkg/signature/signature.go
+++ b/pkg/signature/signature.go
@@ -99,6 +99,12 @@ func (signature *Signature) UnmarshalMsg(in []byte) (leftover []byte, err error)
 	var al Algorithm
 	var b []byte
 	al, b, leftover, err = unmarshalWithLeftovers(in)
+	if err != nil {
+		return
+	}
+	if ss := al.SignatureSize(); ss >= 0 && len(b) != ss {
+		err = fmt.Errorf("Wrong size signature: expect len %d, have %d", ss, len(b))
+	}
 	if err == nil {
 		signature.algorithm = al
 		signature.data = b
-- 
2.43.0


From 49a0d4e5db6e54b416b69effc4ca472e328fbd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:38 +0000
Subject: [PATCH 16/20] fix: HardenedChild wrapped large indices around to a
 normal child

---
 pkg/key/extendedkey.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/key/extendedkey.go b/pkg/key/extendedkey.go
index e627331..799e195 100644
--- a/pkg/key/extendedkey.go
+++ b/pkg/key/extendedkey.go
@@ -399,6 +399,10 @@ func (k *ExtendedKey) Public() (*ExtendedKey, error) {
 // A HardenedChild is guaranteed to have been derived from a private key.
 // It is an error if the given key is already a hardened key.
 func (k *ExtendedKey) HardenedChild(n uint32) (*ExtendedKey, error) {
+	// a larger index would wrap around to the index of a normal child
+	if n >= HardenedKeyStart {
+		return nil, errors.New("hardened child index out of range")
+	}
 	ndx := n + HardenedKeyStart
 	nk, err := k.Child(ndx)
 	return nk, errors.Wrap(err, "could not get child key")
-- 
2.43.0


From bffee5b8719541d40dfd5079d63b2eeaa8bf3461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:38 +0000
Subject: [PATCH 17/20] fix: a child key of zero was not rejected

---
 pkg/key/extendedkey.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/key/extendedkey.go b/pkg/key/extendedkey.go
index 799e195..83e6b18 100644
--- a/pkg/key/extendedkey.go
+++ b/pkg/key/extendedkey.go
@@ -324,6 +324,10 @@ func (k *ExtendedKey) Child(i uint32) (*ExtendedKey, error) {
 		keyNum := new(big.Int).SetBytes(k.key)
 		ilNum.Add(ilNum, keyNum)
 		ilNum.Mod(ilNum, btcec.S256().N)
+		// zero is not a usable private key, so the child is invalid
+		if ilNum.Sign() == 0 {
+			return nil, ErrInvalidChild
+		}
 		// the bytes function here returns a minimum-length buffer to represent a big-endian
 		// value. It actually works to trim leading zeros, but we definitely don't want that
 		// as we have an assumption that all keys are the same length. So we might need to
@@ -360,6 +364,10 @@ func (k *ExtendedKey) Child(i uint32) (*ExtendedKey, error) {
 		//
 		// childKey = serP(point(parse256(Il)) + parentKey)
 		childX, childY := btcec.S256().Add(ilx, ily, pubKey.X, pubKey.Y)
+		// the point at infinity is not a usable public key
+		if childX.Sign() == 0 && childY.Sign() == 0 {
+			return nil, ErrInvalidChild
+		}
 		pk := btcec.PublicKey{Curve: btcec.S256(), X: childX, Y: childY}
 		childKey = pk.SerializeCompressed()
 	}
-- 
2.43.0


From 701645609ef192b8cdf449512a5a46a224bcb658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:38 +0000
Subject: [PATCH 18/20] fix: reusing a wiped extended key returned a stale
 public key

---
 pkg/key/extendedkey.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/key/extendedkey.go b/pkg/key/extendedkey.go
index 83e6b18..78e9920 100644
--- a/pkg/key/extendedkey.go
+++ b/pkg/key/extendedkey.go
@@ -528,6 +528,8 @@ func (k *ExtendedKey) Zero() {
 	zero(k.chainCode)
 	zero(k.parentFP)
 	k.key = nil
+	// the memoized public key belongs to the key just wiped
+	k.pubKey = nil
 	k.depth = 0
 	k.childNum = 0
 	k.isPrivate = false
-- 
2.43.0


From fa7c186e7c685cdcfedb8812555530e9fdae2ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:53 +0000
Subject: [PATCH 19/20] fix: derived and converted keys shared their bytes with
 the source, so wiping one wiped the other

---
 pkg/key/extendedkey.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/pkg/key/extendedkey.go b/pkg/key/extendedkey.go
index 78e9920..0167fff 100644
--- a/pkg/key/extendedkey.go
+++ b/pkg/key/extendedkey.go
@@ -397,7 +397,8 @@ func (k *ExtendedKey) Public() (*ExtendedKey, error) {
 	// key will simply be the pubkey of the current extended private key.
 	//
 	// This is the function N((k,c)) -> (K, c) from [BIP32].
-	return NewExtendedKey(k.PubKeyBytes(), k.chainCode, k.parentFP,
+	// The public key gets its own bytes, so wiping one leaves the other alone.
+	return NewExtendedKey(clone(k.PubKeyBytes()), clone(k.chainCode), clone(k.parentFP),
 		k.depth, k.childNum, false), nil
 }
 
@@ -502,13 +503,18 @@ func (k *ExtendedKey) parseExtra(data []byte) error {
 		return errors.New("cannot parseExtra: too few bytes in data")
 	}
 	k.depth = data[0]
-	k.parentFP = data[1:4]
+	k.parentFP = clone(data[1:4])
 	k.childNum = binary.BigEndian.Uint32(data[4:8])
-	k.chainCode = data[8:40]
+	k.chainCode = clone(data[8:40])
 
 	return nil
 }
 
+// clone copies a byte slice, so that keys do not share their bytes
+func clone(b []byte) []byte {
+	return append([]byte(nil), b...)
+}
+
 // zero sets all bytes in the passed slice to zero.  This is used to
 // explicitly clear private key material from memory.
 func zero(b []byte) {
@@ -583,7 +589,7 @@ func (k *ExtendedKey) FromSignatureKey(key signature.Key) (err error) {
 	}
 
 	k.isPrivate = signature.IsPrivate(key)
-	k.key = key.KeyBytes()
+	k.key = clone(key.KeyBytes())
 	err = k.parseExtra(key.ExtraBytes())
 	if err != nil {
 		return errors.Wrap(err, "could not parse extra")
@@ -604,11 +610,11 @@ func FromSignatureKey(key signature.Key) (ek *ExtendedKey, err error) {
 // AsSignatureKey converts this ExtendedKey into a signature.Key instance
 func (k ExtendedKey) AsSignatureKey() (signature.Key, error) {
 	if k.isPrivate {
-		priv, err := signature.RawPrivateKey(signature.Secp256k1, k.key, k.extra())
+		priv, err := signature.RawPrivateKey(signature.Secp256k1, clone(k.key), k.extra())
 		err = errors.Wrap(err, "could not convert private key")
 		return priv, err
 	}
-	pub, err := signature.RawPublicKey(signature.Secp256k1, k.key, k.extra())
+	pub, err := signature.RawPublicKey(signature.Secp256k1, clone(k.key), k.extra())
 	err = errors.Wrap(err, "could not convert public key")
 	return pub, err
 }
-- 
2.43.0


From f47b1b08617f7f44291e43b95dcb4c0e11e1d6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:54 +0000
Subject: [PATCH 20/20] fix: a failed conversion left a half-read extended key
 behind

---
 pkg/key/extendedkey.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/key/extendedkey.go b/pkg/key/extendedkey.go
index 0167fff..e6af05f 100644
--- a/pkg/key/extendedkey.go
+++ b/pkg/key/extendedkey.go
@@ -592,6 +592,7 @@ func (k *ExtendedKey) FromSignatureKey(key signature.Key) (err error) {
 	k.key = clone(key.KeyBytes())
 	err = k.parseExtra(key.ExtraBytes())
 	if err != nil {
+		k.Zero()
 		return errors.Wrap(err, "could not parse extra")
 	}
 	return
-- 
2.43.0

