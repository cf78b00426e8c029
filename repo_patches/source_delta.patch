From c080aab0278fe594dfd08c47be1077b07e6c49b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:27 +0000
Subject: [PATCH 01/15] fix: csprng: never deliver the same keystream range
 twice

Read always restarted the AES-CTR keystream at offset 0 and XORed it onto
the previous content of the buffer. Every Read of a generator returned the
same bytes, so splits shared their coefficients, share tags exposed them,
recycled buffers cancelled them out (all shares carried the plaintext), and
GetUniqueBytes could loop forever.
---
 csprng/csprng.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/csprng/csprng.go b/csprng/csprng.go
index 4a7f3ec..d3f2b95 100644
--- a/csprng/csprng.go
+++ b/csprng/csprng.go
@@ -3,10 +3,12 @@ package csprng
 import (
 	"github.com/starius/aesctrat"
 	"math/rand"
+	"sync/atomic"
 	"time"
 )
 
 type CSPRNG struct {
+	pos uint64 // keystream bytes consumed so far, accessed atomically
 	c  *aesctrat.AesCtr
 	iv []byte
 }
@@ -19,16 +21,22 @@ func NewCSPRNG() *CSPRNG {
 	keyIv := make([]byte, 32)
 	rand.Read(keyIv)
 	ctr := aesctrat.NewAesCtr(keyIv[:16])
-	return &CSPRNG{ctr, keyIv[16:]}
+	return &CSPRNG{c: ctr, iv: keyIv[16:]}
 }
 
 func NewCSPRNGWithKeyIV(keyIv []byte) *CSPRNG {
 	ctr := aesctrat.NewAesCtr(keyIv[:16])
-	return &CSPRNG{ctr, keyIv[16:]}
+	return &CSPRNG{c: ctr, iv: keyIv[16:]}
 }
 
 func (r *CSPRNG) Read(buff []byte) (int, error) {
-	r.c.XORKeyStreamAt(buff, buff, r.iv, 0)
+	// every call consumes a fresh range of the keystream, and what buff held
+	// before must not show up in the output
+	offset := atomic.AddUint64(&r.pos, uint64(len(buff))) - uint64(len(buff))
+	for i := range buff {
+		buff[i] = 0
+	}
+	r.c.XORKeyStreamAt(buff, buff, r.iv, offset)
 	return len(buff), nil
 }
 
-- 
2.43.0


From fe7431676fa4345b799a4587043f25bec751dffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:28 +0000
Subject: [PATCH 02/15] fix: csprng: do not retain the caller's key/IV slice

The generator kept a reference to the IV half of the slice it was given, so
wiping or reusing that slice changed the stream.
---
 csprng/csprng.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/csprng/csprng.go b/csprng/csprng.go
index d3f2b95..2f98ff9 100644
--- a/csprng/csprng.go
+++ b/csprng/csprng.go
@@ -25,6 +25,8 @@ func NewCSPRNG() *CSPRNG {
 }
 
 func NewCSPRNGWithKeyIV(keyIv []byte) *CSPRNG {
+	// the caller may wipe or reuse its slice afterwards
+	keyIv = append([]byte(nil), keyIv...)
 	ctr := aesctrat.NewAesCtr(keyIv[:16])
 	return &CSPRNG{c: ctr, iv: keyIv[16:]}
 }
-- 
2.43.0


From 35fea18f4460044f71c89b1e1d40d33e9f154b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:28 +0000
Subject: [PATCH 03/15] fix: csprng: Perm stays within bounds for every n

The swap index ran over 1..n at the first step, so Perm panicked with
probability 1/n (and for n < 2 always, as n-2 wraps around), and not every
ordering was possible. SplitWithRandomizer with 20 or more parts panicked
for 1 in 256 keystreams.
---
 csprng/csprng.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/csprng/csprng.go b/csprng/csprng.go
index 2f98ff9..15418a2 100644
--- a/csprng/csprng.go
+++ b/csprng/csprng.go
@@ -51,8 +51,8 @@ func (r *CSPRNG) Perm(n byte) []byte {
 	}
 	shuffler := make([]byte, n)
 	_, _ = r.Read(shuffler)
-	for i := byte(0); i < n-2; i++ {
-		j := 1 + shuffler[i] % (n-i)
+	for i := byte(0); i+1 < n; i++ {
+		j := i + shuffler[i] % (n-i)
 		temp := buff[i]
 		buff[i] = buff[j]
 		buff[j] = temp
-- 
2.43.0


From 6b3dbf9a7b2e4505b07c509010088eaccf74c2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:29 +0000
Subject: [PATCH 04/15] fix: csprng: GetUniqueBytes keeps to the range of
 Perm(255)

It could return 255, which SplitWithRandomizer turned into the share tag 0:
that share is the plaintext secret.
---
 csprng/csprng.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/csprng/csprng.go b/csprng/csprng.go
index 15418a2..fa5da2e 100644
--- a/csprng/csprng.go
+++ b/csprng/csprng.go
@@ -70,7 +70,9 @@ func (r *CSPRNG) GetUniqueBytes(n byte) []byte {
 		return r.Perm(255)[:n]
 	}
 	buff := make([]byte, n)
-	isExist := map[byte]bool{}
+	// values are in [0,255), as with Perm(255): callers use value+1 as a
+	// nonzero share tag
+	isExist := map[byte]bool{255: true}
 	_, _ = r.Read(buff)
 	for i := byte(0); i < n; i++ {
 		isDuplicate := true
-- 
2.43.0


From 863ba66de6dac8c4c30d5adbbfc77b1b429fd0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:29 +0000
Subject: [PATCH 05/15] fix: randomizer: Perm returns a permutation

It copied elements instead of swapping them, so the result held duplicates,
and Perm(0) panicked.
---
 randomizer/randomizer.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/randomizer/randomizer.go b/randomizer/randomizer.go
index 0247e73..e84492a 100644
--- a/randomizer/randomizer.go
+++ b/randomizer/randomizer.go
@@ -34,9 +34,10 @@ func (r *Randomizer) Perm(n byte) []byte {
 	shuffler := make([]byte, n)
 	_, _ = r.Read(shuffler)
 	max := n-1
-	for i := byte(0); i < n-1; i++ {
-		rx := shuffler[i]%max
+	for i := byte(0); i+1 < n; i++ {
+		rx := shuffler[i]%(max+1)
 		temp := buff[rx]
+		buff[rx] = buff[max]
 		buff[max] = temp
 		max--
 	}
-- 
2.43.0


From de7128bf745376a4a366802112cab2fc67456ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:30 +0000
Subject: [PATCH 06/15] fix: shamir: Regenerate hands out distinct, nonzero
 share tags

The tag drawn to replace a duplicate was dropped, so new shares repeated the
tags of old or other new ones, and a tag of 0 exposed the secret. It also
panicked for a negative count and never returned when asked for more shares
than there are tags.
---
 shamir/shamir.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/shamir/shamir.go b/shamir/shamir.go
index 8b3a99c..df748ef 100644
--- a/shamir/shamir.go
+++ b/shamir/shamir.go
@@ -437,6 +437,9 @@ func Regenerate(parts [][]byte, numNewShares int) ([][]byte, error) {
 			return nil, fmt.Errorf("all parts must be the same length")
 		}
 	}
+	if numNewShares < 0 || len(parts)+numNewShares > 255 {
+		return nil, fmt.Errorf("old and new parts together cannot exceed 255")
+	}
 
 	// TODO: make a more efficient version of this by allocating less memory
 	// Create buffer to store the new shares
@@ -461,12 +464,14 @@ func Regenerate(parts [][]byte, numNewShares int) ([][]byte, error) {
 		return nil, fmt.Errorf("failed to generate new random x: %v", err)
 	}
 	// ensure no duplicate x generated
-	for _, nx := range newXs {
+	checkMap[0] = true // the share at x = 0 would be the secret itself
+	for i, nx := range newXs {
 		exists := checkMap[nx]
 		for exists {
 			nx = byte(rand.Uint32())
 			exists = checkMap[nx]
 		}
+		newXs[i] = nx
 		checkMap[nx] = true
 	}
 
-- 
2.43.0


From 9ec9506814007dc97a4f884a038543e53ac2aec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:30 +0000
Subject: [PATCH 07/15] fix: krawczyk: Combine reports malformed shares instead
 of panicking

An empty list, a share shorter than its metadata and a part-id equal to the
number of parts were out-of-range accesses.
---
 krawczyk/krawczyk.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/krawczyk/krawczyk.go b/krawczyk/krawczyk.go
index 44b90bc..cf5dc10 100644
--- a/krawczyk/krawczyk.go
+++ b/krawczyk/krawczyk.go
@@ -172,6 +172,9 @@ func newByteMatrix(r, c int) [][]byte {
 }
 
 func Combine(ssData [][]byte, parts, threshold int) ([]byte, error) {
+	if len(ssData) == 0 {
+		return nil, errors.New("no secret-shared data is given")
+	}
 	if len(ssData[0]) > math.MaxUint32 {
 		return nil, fmt.Errorf(
 			"the provided secret is too large, we can only combine up to %d bytes data", math.MaxUint32)
@@ -213,11 +216,14 @@ func Combine(ssData [][]byte, parts, threshold int) ([]byte, error) {
 	encodedData := make([][]byte, parts)
 	ssMetadata := make([][]byte, len(ssData))
 	for i := 0; i < len(ssData); i++ {
+		if len(ssData[i]) <= secretStartIdx {
+			return nil, errors.New("the given secret-shared data is wrong, a share is too short")
+		}
 		ssMetadata[i] = ssData[i][:secretStartIdx]
 
 		// check the part-id of the reed-solomon encoded data
 		partID := ssData[i][len(ssData[i])-1]
-		if partID > byte(parts) {
+		if partID >= byte(parts) {
 			return nil, errors.New("the given secret-shared data is wrong, part-id should be less than the number of parts")
 		}
 		encodedData[ssData[i][len(ssData[i])-1]] = ssData[i][secretStartIdx : len(ssData[i])-1]
-- 
2.43.0


From 9d179bd6e0bccedf72c45b5519e494e482d7823f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:31 +0000
Subject: [PATCH 08/15] fix: shamir: appending to a share must not overwrite
 the next one

Split, SplitWithRandomizer and SplitWithRandomizerOld cut the shares out of
one buffer without limiting their capacity.
---
 shamir/shamir.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/shamir/shamir.go b/shamir/shamir.go
index df748ef..752fa35 100644
--- a/shamir/shamir.go
+++ b/shamir/shamir.go
@@ -60,7 +60,7 @@ func Split(secret []byte, parts, threshold int) ([][]byte, error) {
 	for idx := range out {
 		s := (len(secret)+1)*idx
 		e := s + len(secret)+1
-		out[idx] = buff[s:e]
+		out[idx] = buff[s:e:e]
 		out[idx][len(secret)] = uint8(xCoordinates[idx]) + 1
 	}
 
@@ -137,7 +137,7 @@ func SplitWithRandomizerOld(secret []byte, parts, threshold int, randomizer *csp
 	for idx := range out {
 		s := (len(secret)+1)*idx
 		e := s + len(secret)+1
-		out[idx] = buff[s:e]
+		out[idx] = buff[s:e:e]
 		out[idx][len(secret)] = uint8(xCoordinates[idx]) + 1
 	}
 
@@ -192,7 +192,7 @@ func SplitWithRandomizer(secret []byte, parts, threshold int, randomizer *csprng
 	for idx := range out {
 		s := (len(secret)+1)*idx
 		e := s + len(secret)+1
-		out[idx] = buff[s:e]
+		out[idx] = buff[s:e:e]
 		out[idx][len(secret)] = uint8(xCoordinates[idx]) + 1
 	}
 
-- 
2.43.0


From 8a7177803a661588675a88ce97ba0a775997127a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:49 +0000
Subject: [PATCH 09/15] fix: krawczyk: Combine rejects negative part counts

A negative number of parts panicked when the shard table was allocated.
---
 krawczyk/krawczyk.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/krawczyk/krawczyk.go b/krawczyk/krawczyk.go
index cf5dc10..2e4f7a1 100644
--- a/krawczyk/krawczyk.go
+++ b/krawczyk/krawczyk.go
@@ -179,7 +179,7 @@ func Combine(ssData [][]byte, parts, threshold int) ([]byte, error) {
 		return nil, fmt.Errorf(
 			"the provided secret is too large, we can only combine up to %d bytes data", math.MaxUint32)
 	}
-	if threshold == 0 || parts == 0 {
+	if threshold <= 0 || parts <= 0 {
 		return nil, errors.New("#parts and #threshold can not be zero")
 	}
 	if threshold > parts {
-- 
2.43.0


From 6c0c1daca9f8e04ee46755685898460985c2a805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:50 +0000
Subject: [PATCH 10/15] fix: draw coefficients, keys and seeds from crypto/rand

The polynomial coefficients, the SSMS encryption key and the seeds of the
generators came from math/rand seeded with the clock. That source has fewer
than 2^31 states, so one share and a search over the seeds gave the secret.
---
 csprng/csprng.go         | 3 ++-
 krawczyk/krawczyk.go     | 2 +-
 randomizer/randomizer.go | 2 +-
 shamir/polynomial.go     | 2 +-
 4 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/csprng/csprng.go b/csprng/csprng.go
index fa5da2e..7b8f88c 100644
--- a/csprng/csprng.go
+++ b/csprng/csprng.go
@@ -1,6 +1,7 @@
 package csprng
 
 import (
+	crand "crypto/rand"
 	"github.com/starius/aesctrat"
 	"math/rand"
 	"sync/atomic"
@@ -19,7 +20,7 @@ func init() {
 
 func NewCSPRNG() *CSPRNG {
 	keyIv := make([]byte, 32)
-	rand.Read(keyIv)
+	crand.Read(keyIv)
 	ctr := aesctrat.NewAesCtr(keyIv[:16])
 	return &CSPRNG{c: ctr, iv: keyIv[16:]}
 }
diff --git a/krawczyk/krawczyk.go b/krawczyk/krawczyk.go
index 2e4f7a1..ff9852f 100644
--- a/krawczyk/krawczyk.go
+++ b/krawczyk/krawczyk.go
@@ -2,6 +2,7 @@ package krawczyk
 
 import (
 	"bytes"
+	"crypto/rand"
 	"encoding/binary"
 	"errors"
 	"fmt"
@@ -9,7 +10,6 @@ import (
 	"github.com/fadhilkurnia/shamir/shamir"
 	"github.com/klauspost/reedsolomon"
 	"math"
-	"math/rand"
 )
 
 // key size: 16 bytes (128 bit)
diff --git a/randomizer/randomizer.go b/randomizer/randomizer.go
index e84492a..fc1c398 100644
--- a/randomizer/randomizer.go
+++ b/randomizer/randomizer.go
@@ -3,7 +3,7 @@ package randomizer
 import (
 	"crypto/aes"
 	"crypto/cipher"
-	"math/rand"
+	"crypto/rand"
 )
 
 type Randomizer struct {
diff --git a/shamir/polynomial.go b/shamir/polynomial.go
index 35bea5d..b1089a4 100644
--- a/shamir/polynomial.go
+++ b/shamir/polynomial.go
@@ -1,11 +1,11 @@
 package shamir
 
 import (
+	"crypto/rand"
 	"crypto/subtle"
 	"github.com/fadhilkurnia/shamir/csprng"
 	gf "github.com/fadhilkurnia/shamir/galois"
 	"github.com/fadhilkurnia/shamir/utils"
-	"math/rand"
 )
 
 var polynomialBufferPool *utils.BytesBufferPool
-- 
2.43.0


From 51b99b368665274cc1050f366b5c771bdcccd0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:16 +0000
Subject: [PATCH 11/15] fix: galois: GalExp is right for every non-negative
 exponent

---
 galois/galois.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/galois/galois.go b/galois/galois.go
index 567a76e..c816529 100644
--- a/galois/galois.go
+++ b/galois/galois.go
@@ -56,11 +56,9 @@ func GalExp(a byte, n int) byte {
 		return 0
 	}
 
+	// a**255 is 1 for every nonzero a
 	logA := logTable[a]
-	logResult := int(logA) * n
-	for logResult >= 255 {
-		logResult -= 255
-	}
+	logResult := int(logA) * (n % 255) % 255
 	return expTable[logResult]
 }
 
-- 
2.43.0


From 2995e0cc689b663ac0f230c99aae69e2ea3de7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:16 +0000
Subject: [PATCH 12/15] fix: krawczyk: Combine rejects shares of unequal length

---
 krawczyk/krawczyk.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/krawczyk/krawczyk.go b/krawczyk/krawczyk.go
index ff9852f..526019e 100644
--- a/krawczyk/krawczyk.go
+++ b/krawczyk/krawczyk.go
@@ -219,6 +219,9 @@ func Combine(ssData [][]byte, parts, threshold int) ([]byte, error) {
 		if len(ssData[i]) <= secretStartIdx {
 			return nil, errors.New("the given secret-shared data is wrong, a share is too short")
 		}
+		if len(ssData[i]) != len(ssData[0]) {
+			return nil, errors.New("the given secret-shared data is wrong, all shares must be the same length")
+		}
 		ssMetadata[i] = ssData[i][:secretStartIdx]
 
 		// check the part-id of the reed-solomon encoded data
-- 
2.43.0


From d53bad1d85d18be3c2f0b97e799d7f831417b0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:00 +0000
Subject: [PATCH 13/15] fix: krawczyk: splitting no longer panics when the
 ciphertext buffer has too little spare room

---
 krawczyk/krawczyk.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/krawczyk/krawczyk.go b/krawczyk/krawczyk.go
index 526019e..3236716 100644
--- a/krawczyk/krawczyk.go
+++ b/krawczyk/krawczyk.go
@@ -53,6 +53,8 @@ func Split(secret []byte, parts, threshold int) ([][]byte, error) {
 	if err != nil {
 		return nil, fmt.Errorf("failed to initialize reed-solomon encoder: %v", err)
 	}
+	// the encoder clears #threshold bytes past the data it is given, so they have to exist
+	encryptedSecret = append(encryptedSecret, make([]byte, threshold)...)[:len(encryptedSecret)]
 	encodedSecret, err := encoder.Split(encryptedSecret)
 	if err != nil {
 		return nil, fmt.Errorf("failed to encode the secret: %v", err)
@@ -124,6 +126,8 @@ func SplitWithRandomizer(secret []byte, parts, threshold int, randomizer *csprng
 	if err != nil {
 		return nil, fmt.Errorf("failed to initialize reed-solomon encoder: %v", err)
 	}
+	// the encoder clears #threshold bytes past the data it is given, so they have to exist
+	encryptedSecret = append(encryptedSecret, make([]byte, threshold)...)[:len(encryptedSecret)]
 	encodedSecret, err := encoder.Split(encryptedSecret)
 	if err != nil {
 		return nil, fmt.Errorf("failed to encode the secret: %v", err)
-- 
2.43.0


From 35dd43075b1927aeccff9953967c6e5edda6e1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:00 +0000
Subject: [PATCH 14/15] fix: Regenerate rejects any number of new shares that
 does not fit

---
 shamir/shamir.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shamir/shamir.go b/shamir/shamir.go
index 752fa35..37066e8 100644
--- a/shamir/shamir.go
+++ b/shamir/shamir.go
@@ -437,7 +437,7 @@ func Regenerate(parts [][]byte, numNewShares int) ([][]byte, error) {
 			return nil, fmt.Errorf("all parts must be the same length")
 		}
 	}
-	if numNewShares < 0 || len(parts)+numNewShares > 255 {
+	if numNewShares < 0 || numNewShares > 255-len(parts) {
 		return nil, fmt.Errorf("old and new parts together cannot exceed 255")
 	}
 
-- 
2.43.0


From df9cdd02046977c1a895a1fca7f9bc1429aefa05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:50 +0000
Subject: [PATCH 15/15] fix: shamir: SplitP shares secrets of 4 GiB and more
 completely

---
 shamir/shamir.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/shamir/shamir.go b/shamir/shamir.go
index 37066e8..f906b21 100644
--- a/shamir/shamir.go
+++ b/shamir/shamir.go
@@ -321,8 +321,8 @@ func SplitP(secret []byte, parts, threshold int) ([][]byte, error) {
 	// Because we are using a field of size 256, we can only represent
 	// a single byte as the intercept of the polynomial, so we must
 	// use a new polynomial for each byte.
-	idx := uint32(0)
-	secretLen := uint32(len(secret))
+	idx := 0
+	secretLen := len(secret)
 	var wg sync.WaitGroup
 	for idx < secretLen {
 
@@ -332,7 +332,7 @@ func SplitP(secret []byte, parts, threshold int) ([][]byte, error) {
 		}
 
 		wg.Add(1)
-		go func(startIdx, endIdx uint32, values []byte) {
+		go func(startIdx, endIdx int, values []byte) {
 			defer wg.Done()
 
 			crtIdx := startIdx
-- 
2.43.0

