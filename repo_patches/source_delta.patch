From 2b5678611ad2c4a2c571ac4202368ac429d39d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:51 +0000
Subject: [PATCH 01/17] fix: csprng: advance through the keystream, and
 overwrite the buffer

Read always used the keystream from offset 0 and XORed it onto whatever
the buffer held, so every read of one generator returned the same bytes:
SplitWithRandomizer reused its coefficients, the SSMS key was the same for
every split and equal to the share tags, and GetUniqueBytes could flip
between two duplicate values forever.
---
 csprng/csprng.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/csprng/csprng.go b/csprng/csprng.go
index 4a7f3ec..abd5f76 100644
--- a/csprng/csprng.go
+++ b/csprng/csprng.go
@@ -3,12 +3,14 @@ package csprng
 import (
 	"github.com/starius/aesctrat"
 	"math/rand"
+	"sync/atomic"
 	"time"
 )
 
 type CSPRNG struct {
-	c  *aesctrat.AesCtr
-	iv []byte
+	offset uint64 // position of the next unused keystream byte
+	c      *aesctrat.AesCtr
+	iv     []byte
 }
 
 func init() {
@@ -19,16 +21,22 @@ func NewCSPRNG() *CSPRNG {
 	keyIv := make([]byte, 32)
 	rand.Read(keyIv)
 	ctr := aesctrat.NewAesCtr(keyIv[:16])
-	return &CSPRNG{ctr, keyIv[16:]}
+	return &CSPRNG{c: ctr, iv: keyIv[16:]}
 }
 
 func NewCSPRNGWithKeyIV(keyIv []byte) *CSPRNG {
 	ctr := aesctrat.NewAesCtr(keyIv[:16])
-	return &CSPRNG{ctr, keyIv[16:]}
+	return &CSPRNG{c: ctr, iv: keyIv[16:]}
 }
 
+// Read fills buff with the next len(buff) bytes of the keystream,
+// no part of the keystream is ever returned twice.
 func (r *CSPRNG) Read(buff []byte) (int, error) {
-	r.c.XORKeyStreamAt(buff, buff, r.iv, 0)
+	end := atomic.AddUint64(&r.offset, uint64(len(buff)))
+	for i := range buff {
+		buff[i] = 0
+	}
+	r.c.XORKeyStreamAt(buff, buff, r.iv, end-uint64(len(buff)))
 	return len(buff), nil
 }
 
-- 
2.43.0


From 5bfbd9d7b67a163bb9d6819508a91f4a10587716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:51 +0000
Subject: [PATCH 02/17] fix: csprng: keep a private copy of the caller's IV

NewCSPRNGWithKeyIV kept a slice of the caller's buffer, so the stream of
an existing generator changed when the caller reused that buffer.
---
 csprng/csprng.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/csprng/csprng.go b/csprng/csprng.go
index abd5f76..cb1aed7 100644
--- a/csprng/csprng.go
+++ b/csprng/csprng.go
@@ -26,7 +26,9 @@ func NewCSPRNG() *CSPRNG {
 
 func NewCSPRNGWithKeyIV(keyIv []byte) *CSPRNG {
 	ctr := aesctrat.NewAesCtr(keyIv[:16])
-	return &CSPRNG{c: ctr, iv: keyIv[16:]}
+	iv := make([]byte, aesctrat.BlockSize)
+	copy(iv, keyIv[16:])
+	return &CSPRNG{c: ctr, iv: iv}
 }
 
 // Read fills buff with the next len(buff) bytes of the keystream,
-- 
2.43.0


From 352202c5745a0011634201316e69f1f594405b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:51 +0000
Subject: [PATCH 03/17] fix: csprng: stay inside the buffer when shuffling in
 Perm

j could be n (index out of range with probability 1/n), and Perm(0) and
Perm(1) always panicked.
---
 csprng/csprng.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/csprng/csprng.go b/csprng/csprng.go
index cb1aed7..a0fdce1 100644
--- a/csprng/csprng.go
+++ b/csprng/csprng.go
@@ -51,8 +51,8 @@ func (r *CSPRNG) Perm(n byte) []byte {
 	}
 	shuffler := make([]byte, n)
 	_, _ = r.Read(shuffler)
-	for i := byte(0); i < n-2; i++ {
-		j := 1 + shuffler[i] % (n-i)
+	for i := byte(0); i < n; i++ {
+		j := i + shuffler[i]%(n-i)
 		temp := buff[i]
 		buff[i] = buff[j]
 		buff[j] = temp
-- 
2.43.0


From 22538b91b3c42421e2696bdd90b665a3ea0e29a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:51 +0000
Subject: [PATCH 04/17] fix: csprng: never return 255 from GetUniqueBytes

SplitWithRandomizer adds one to each of these bytes to make the share tags,
so 255 became tag 0: a share at x=0 is the secret itself. Perm(255), used
for n >= 20, has the range [0,255) already.
---
 csprng/csprng.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/csprng/csprng.go b/csprng/csprng.go
index a0fdce1..9d47f8c 100644
--- a/csprng/csprng.go
+++ b/csprng/csprng.go
@@ -70,7 +70,7 @@ func (r *CSPRNG) GetUniqueBytes(n byte) []byte {
 		return r.Perm(255)[:n]
 	}
 	buff := make([]byte, n)
-	isExist := map[byte]bool{}
+	isExist := map[byte]bool{255: true} // values are in [0,255), as with Perm(255)
 	_, _ = r.Read(buff)
 	for i := byte(0); i < n; i++ {
 		isDuplicate := true
-- 
2.43.0


From 92805d1f5c090798ca3056fd948ca8d2e0a5355b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:51 +0000
Subject: [PATCH 05/17] fix: csprng: key new generators from crypto/rand

The key came from math/rand, seeded with the time (at most 2^31 distinct
keys) or with whatever the program seeds it with.
---
 csprng/csprng.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/csprng/csprng.go b/csprng/csprng.go
index 9d47f8c..308e80d 100644
--- a/csprng/csprng.go
+++ b/csprng/csprng.go
@@ -1,6 +1,7 @@
 package csprng
 
 import (
+	crand "crypto/rand"
 	"github.com/starius/aesctrat"
 	"math/rand"
 	"sync/atomic"
@@ -19,7 +20,9 @@ func init() {
 
 func NewCSPRNG() *CSPRNG {
 	keyIv := make([]byte, 32)
-	rand.Read(keyIv)
+	if _, err := crand.Read(keyIv); err != nil {
+		panic(err)
+	}
 	ctr := aesctrat.NewAesCtr(keyIv[:16])
 	return &CSPRNG{c: ctr, iv: keyIv[16:]}
 }
-- 
2.43.0


From 220c6044eaa74414437478a3abd0f971e1399273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:51 +0000
Subject: [PATCH 06/17] fix: shamir: draw coefficients from crypto/rand

The coefficients that hide the secret came from math/rand: whoever knows or
guesses the seed (a time) can compute the secret from a single share.
---
 shamir/polynomial.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/shamir/polynomial.go b/shamir/polynomial.go
index 35bea5d..dde6cb1 100644
--- a/shamir/polynomial.go
+++ b/shamir/polynomial.go
@@ -1,11 +1,11 @@
 package shamir
 
 import (
+	"crypto/rand"
 	"crypto/subtle"
 	"github.com/fadhilkurnia/shamir/csprng"
 	gf "github.com/fadhilkurnia/shamir/galois"
 	"github.com/fadhilkurnia/shamir/utils"
-	"math/rand"
 )
 
 var polynomialBufferPool *utils.BytesBufferPool
@@ -18,7 +18,9 @@ func makePolynomialsWithBuff(intercepts []uint8, degree int, buffer []uint8) ([]
 	N := len(intercepts)
 
 	// assign random coefficients for all the N polynomials
-	_, _ = rand.Read(buffer)
+	if _, err := rand.Read(buffer); err != nil {
+		return nil, err
+	}
 
 	for p := 0; p < N; p++ {
 		s := (degree+1)*p
-- 
2.43.0


From 65b5cddee008464260af96411977e1da855f73f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:51 +0000
Subject: [PATCH 07/17] fix: krawczyk: draw the encryption key from crypto/rand

The key came from math/rand, so it was determined by the program's seed.
---
 krawczyk/krawczyk.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/krawczyk/krawczyk.go b/krawczyk/krawczyk.go
index 44b90bc..b1d9d5b 100644
--- a/krawczyk/krawczyk.go
+++ b/krawczyk/krawczyk.go
@@ -2,6 +2,7 @@ package krawczyk
 
 import (
 	"bytes"
+	"crypto/rand"
 	"encoding/binary"
 	"errors"
 	"fmt"
@@ -9,7 +10,6 @@ import (
 	"github.com/fadhilkurnia/shamir/shamir"
 	"github.com/klauspost/reedsolomon"
 	"math"
-	"math/rand"
 )
 
 // key size: 16 bytes (128 bit)
-- 
2.43.0


From 5e69ec5426c3a6d794ee48d744cd09d829b8806c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:51 +0000
Subject: [PATCH 08/17] fix: randomizer: key new generators from crypto/rand

The key came from math/rand, so it was determined by the program's seed.
---
 randomizer/randomizer.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/randomizer/randomizer.go b/randomizer/randomizer.go
index 0247e73..1bc7d20 100644
--- a/randomizer/randomizer.go
+++ b/randomizer/randomizer.go
@@ -3,7 +3,7 @@ package randomizer
 import (
 	"crypto/aes"
 	"crypto/cipher"
-	"math/rand"
+	"crypto/rand"
 )
 
 type Randomizer struct {
@@ -12,7 +12,9 @@ type Randomizer struct {
 
 func NewRandomizer() *Randomizer {
 	keyAndIV := make([]byte, 16 + aes.BlockSize)
-	rand.Read(keyAndIV)
+	if _, err := rand.Read(keyAndIV); err != nil {
+		panic(err)
+	}
 	c, err := aes.NewCipher(keyAndIV[:16])
 	if err != nil {
 		panic(err)
-- 
2.43.0


From 48f5fdd89fcdc245ad5b92f3960644cbaebda12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:51 +0000
Subject: [PATCH 09/17] fix: randomizer: make Perm return a permutation

Values were copied instead of swapped, so the result had duplicates, and
Perm(0) panicked.
---
 randomizer/randomizer.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/randomizer/randomizer.go b/randomizer/randomizer.go
index 1bc7d20..abfdabf 100644
--- a/randomizer/randomizer.go
+++ b/randomizer/randomizer.go
@@ -35,12 +35,9 @@ func (r *Randomizer) Perm(n byte) []byte {
 	}
 	shuffler := make([]byte, n)
 	_, _ = r.Read(shuffler)
-	max := n-1
-	for i := byte(0); i < n-1; i++ {
-		rx := shuffler[i]%max
-		temp := buff[rx]
-		buff[max] = temp
-		max--
+	for i := byte(0); i < n; i++ {
+		j := i + shuffler[i]%(n-i)
+		buff[i], buff[j] = buff[j], buff[i]
 	}
 	return buff
 }
\ No newline at end of file
-- 
2.43.0


From 2167cce5183deee05e6ff40ab1271f1bcbbd382f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:51 +0000
Subject: [PATCH 10/17] fix: shamir: give regenerated shares unique, non-zero
 tags

The replacement for a duplicate tag was stored in the loop variable only, so
new shares could repeat a given share or each other; tag 0 (the secret
itself) was allowed; and asking for more shares than there are tags never
returned (a negative number panicked).
---
 shamir/shamir.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/shamir/shamir.go b/shamir/shamir.go
index 8b3a99c..6da6e0f 100644
--- a/shamir/shamir.go
+++ b/shamir/shamir.go
@@ -438,6 +438,10 @@ func Regenerate(parts [][]byte, numNewShares int) ([][]byte, error) {
 		}
 	}
 
+	if numNewShares < 0 || numNewShares > 255-len(parts) {
+		return nil, fmt.Errorf("the number of new shares must be between 0 and %d", 255-len(parts))
+	}
+
 	// TODO: make a more efficient version of this by allocating less memory
 	// Create buffer to store the new shares
 	newShares := make([][]byte, numNewShares)
@@ -460,14 +464,16 @@ func Regenerate(parts [][]byte, numNewShares int) ([][]byte, error) {
 	if _, err := rand.Read(newXs); err != nil {
 		return nil, fmt.Errorf("failed to generate new random x: %v", err)
 	}
-	// ensure no duplicate x generated
-	for _, nx := range newXs {
+	// ensure no duplicate x generated, x=0 is the secret itself
+	checkMap[0] = true
+	for i, nx := range newXs {
 		exists := checkMap[nx]
 		for exists {
 			nx = byte(rand.Uint32())
 			exists = checkMap[nx]
 		}
 		checkMap[nx] = true
+		newXs[i] = nx
 	}
 
 	for i, share := range parts {
-- 
2.43.0


From 6fc7c44d814803f6a02f5777ff358d47135ac41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:51 +0000
Subject: [PATCH 11/17] fix: krawczyk: do not panic when the ciphertext fills
 its buffer

reedsolomon.Split clears up to threshold bytes after the data if the slice's
capacity has room for all shards, without checking that they exist: splitting
a 64 byte secret 2-of-2 (and many others, mostly with parts = threshold)
panicked.
---
 krawczyk/krawczyk.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/krawczyk/krawczyk.go b/krawczyk/krawczyk.go
index b1d9d5b..c59f262 100644
--- a/krawczyk/krawczyk.go
+++ b/krawczyk/krawczyk.go
@@ -53,7 +53,7 @@ func Split(secret []byte, parts, threshold int) ([][]byte, error) {
 	if err != nil {
 		return nil, fmt.Errorf("failed to initialize reed-solomon encoder: %v", err)
 	}
-	encodedSecret, err := encoder.Split(encryptedSecret)
+	encodedSecret, err := encoder.Split(withSpareCapacity(encryptedSecret, threshold))
 	if err != nil {
 		return nil, fmt.Errorf("failed to encode the secret: %v", err)
 	}
@@ -124,7 +124,7 @@ func SplitWithRandomizer(secret []byte, parts, threshold int, randomizer *csprng
 	if err != nil {
 		return nil, fmt.Errorf("failed to initialize reed-solomon encoder: %v", err)
 	}
-	encodedSecret, err := encoder.Split(encryptedSecret)
+	encodedSecret, err := encoder.Split(withSpareCapacity(encryptedSecret, threshold))
 	if err != nil {
 		return nil, fmt.Errorf("failed to encode the secret: %v", err)
 	}
@@ -160,6 +160,15 @@ func SplitWithRandomizer(secret []byte, parts, threshold int, randomizer *csprng
 	return results, nil
 }
 
+// withSpareCapacity returns a copy of data followed by spare zeroed bytes of
+// capacity: the reed-solomon encoder clears that many bytes after the data when
+// the capacity holds all the shards, and panics if they are not there.
+func withSpareCapacity(data []byte, spare int) []byte {
+	result := make([]byte, len(data), len(data)+spare)
+	copy(result, data)
+	return result
+}
+
 func newByteMatrix(r, c int) [][]byte {
 	a := make([]uint8, r*c)
 	m := make([][]uint8, r)
-- 
2.43.0


From 39ddae5a7b40c341dfac29a56118b3673a5a5530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:51 +0000
Subject: [PATCH 12/17] fix: krawczyk: return an error for malformed shares in
 Combine

An empty list, shares shorter than their metadata, a part-id equal to the
number of parts and negative parameters made Combine panic.
---
 krawczyk/krawczyk.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/krawczyk/krawczyk.go b/krawczyk/krawczyk.go
index c59f262..1c9658e 100644
--- a/krawczyk/krawczyk.go
+++ b/krawczyk/krawczyk.go
@@ -181,12 +181,15 @@ func newByteMatrix(r, c int) [][]byte {
 }
 
 func Combine(ssData [][]byte, parts, threshold int) ([]byte, error) {
+	if len(ssData) == 0 {
+		return nil, errors.New("no secret-shared data is given")
+	}
 	if len(ssData[0]) > math.MaxUint32 {
 		return nil, fmt.Errorf(
 			"the provided secret is too large, we can only combine up to %d bytes data", math.MaxUint32)
 	}
-	if threshold == 0 || parts == 0 {
-		return nil, errors.New("#parts and #threshold can not be zero")
+	if threshold <= 0 || parts <= 0 {
+		return nil, errors.New("#parts and #threshold should be positive")
 	}
 	if threshold > parts {
 		return nil, fmt.Errorf(
@@ -222,11 +225,14 @@ func Combine(ssData [][]byte, parts, threshold int) ([]byte, error) {
 	encodedData := make([][]byte, parts)
 	ssMetadata := make([][]byte, len(ssData))
 	for i := 0; i < len(ssData); i++ {
+		if len(ssData[i]) <= secretStartIdx {
+			return nil, errors.New("the given secret-shared data is wrong, it is too short")
+		}
 		ssMetadata[i] = ssData[i][:secretStartIdx]
 
 		// check the part-id of the reed-solomon encoded data
 		partID := ssData[i][len(ssData[i])-1]
-		if partID > byte(parts) {
+		if int(partID) >= parts {
 			return nil, errors.New("the given secret-shared data is wrong, part-id should be less than the number of parts")
 		}
 		encodedData[ssData[i][len(ssData[i])-1]] = ssData[i][secretStartIdx : len(ssData[i])-1]
-- 
2.43.0


From 66e3f5a7b33e84fd003a64f4a063f629f17f890b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:51 +0000
Subject: [PATCH 13/17] fix: shamir: limit each share's capacity to its own
 bytes

The shares are slices of one allocation, so appending to a share overwrote
the beginning of the next one.
---
 shamir/shamir.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/shamir/shamir.go b/shamir/shamir.go
index 6da6e0f..d7574c7 100644
--- a/shamir/shamir.go
+++ b/shamir/shamir.go
@@ -60,7 +60,7 @@ func Split(secret []byte, parts, threshold int) ([][]byte, error) {
 	for idx := range out {
 		s := (len(secret)+1)*idx
 		e := s + len(secret)+1
-		out[idx] = buff[s:e]
+		out[idx] = buff[s:e:e]
 		out[idx][len(secret)] = uint8(xCoordinates[idx]) + 1
 	}
 
@@ -137,7 +137,7 @@ func SplitWithRandomizerOld(secret []byte, parts, threshold int, randomizer *csp
 	for idx := range out {
 		s := (len(secret)+1)*idx
 		e := s + len(secret)+1
-		out[idx] = buff[s:e]
+		out[idx] = buff[s:e:e]
 		out[idx][len(secret)] = uint8(xCoordinates[idx]) + 1
 	}
 
@@ -192,7 +192,7 @@ func SplitWithRandomizer(secret []byte, parts, threshold int, randomizer *csprng
 	for idx := range out {
 		s := (len(secret)+1)*idx
 		e := s + len(secret)+1
-		out[idx] = buff[s:e]
+		out[idx] = buff[s:e:e]
 		out[idx][len(secret)] = uint8(xCoordinates[idx]) + 1
 	}
 
-- 
2.43.0


From fc3b7758fa100b029917ae1f32dbdd7aae48a725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:51 +0000
Subject: [PATCH 14/17] verif: hooks on buffer pool hand-out and hand-back
 (build tag verif)

---
 utils/bufferpool.go |  3 +++
 utils/hooks_off.go  | 10 ++++++++++
 utils/hooks_on.go   | 34 ++++++++++++++++++++++++++++++++++
 3 files changed, 47 insertions(+)
 create mode 100644 utils/hooks_off.go
 create mode 100644 utils/hooks_on.go

diff --git a/utils/bufferpool.go b/utils/bufferpool.go
index c384f9c..5bbb600 100644
--- a/utils/bufferpool.go
+++ b/utils/bufferpool.go
@@ -19,8 +19,10 @@ func NewBytesBufferPool(size int)  *BytesBufferPool {
 }
 
 func (b *BytesBufferPool) Get() *bytes.Buffer {
+	verifEnter(b)
 	select {
 	case bb := <- b.ch:
+		verifGot(b, bb)
 		return bb
 	default:
 		return &bytes.Buffer{}
@@ -28,6 +30,7 @@ func (b *BytesBufferPool) Get() *bytes.Buffer {
 }
 
 func (b *BytesBufferPool) Put(bb *bytes.Buffer)  {
+	verifPut(b, bb)
 	select {
 	case b.ch <- bb:
 		return
diff --git a/utils/hooks_off.go b/utils/hooks_off.go
new file mode 100644
index 0000000..525dc31
--- /dev/null
+++ b/utils/hooks_off.go
@@ -0,0 +1,10 @@
+//go:build !verif
+// +build !verif
+
+package utils
+
+import "bytes"
+
+func verifEnter(*BytesBufferPool)              {}
+func verifGot(*BytesBufferPool, *bytes.Buffer) {}
+func verifPut(*BytesBufferPool, *bytes.Buffer) {}
diff --git a/utils/hooks_on.go b/utils/hooks_on.go
new file mode 100644
index 0000000..f8db95e
--- /dev/null
+++ b/utils/hooks_on.go
@@ -0,0 +1,34 @@
+//go:build verif
+// +build verif
+
+package utils
+
+import "bytes"
+
+// VerifEnter, VerifGot and VerifPut observe the buffer pools in builds with the
+// verif tag. VerifEnter runs before a buffer is taken, VerifGot after a retained
+// buffer was taken and VerifPut before a buffer is handed back. They are set
+// before any pool is used concurrently.
+var (
+	VerifEnter func(pool *BytesBufferPool)
+	VerifGot   func(pool *BytesBufferPool, bb *bytes.Buffer)
+	VerifPut   func(pool *BytesBufferPool, bb *bytes.Buffer)
+)
+
+func verifEnter(pool *BytesBufferPool) {
+	if VerifEnter != nil {
+		VerifEnter(pool)
+	}
+}
+
+func verifGot(pool *BytesBufferPool, bb *bytes.Buffer) {
+	if VerifGot != nil {
+		VerifGot(pool, bb)
+	}
+}
+
+func verifPut(pool *BytesBufferPool, bb *bytes.Buffer) {
+	if VerifPut != nil {
+		VerifPut(pool, bb)
+	}
+}
-- 
2.43.0


From debc6f2e735da63f0e4e0b03e9cb79fc49a2f803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:39 +0000
Subject: [PATCH 15/17] fix: randomizer: do not reuse keystream in concurrent
 reads

---
 randomizer/randomizer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/randomizer/randomizer.go b/randomizer/randomizer.go
index abfdabf..4c7494f 100644
--- a/randomizer/randomizer.go
+++ b/randomizer/randomizer.go
@@ -4,10 +4,12 @@ import (
 	"crypto/aes"
 	"crypto/cipher"
 	"crypto/rand"
+	"sync"
 )
 
 type Randomizer struct {
-	c cipher.Stream
+	mu sync.Mutex // guards c
+	c  cipher.Stream
 }
 
 func NewRandomizer() *Randomizer {
@@ -24,6 +26,8 @@ func NewRandomizer() *Randomizer {
 }
 
 func (r *Randomizer) Read(buff []byte) (int, error) {
+	r.mu.Lock()
+	defer r.mu.Unlock()
 	r.c.XORKeyStream(buff, buff)
 	return len(buff), nil
 }
-- 
2.43.0


From 63bfad4544f599dcd77c2edea21156312b717afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:59 +0000
Subject: [PATCH 16/17] fix: krawczyk: refuse thresholds below 2 in Combine

---
 krawczyk/krawczyk.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/krawczyk/krawczyk.go b/krawczyk/krawczyk.go
index 1c9658e..093eaef 100644
--- a/krawczyk/krawczyk.go
+++ b/krawczyk/krawczyk.go
@@ -188,8 +188,8 @@ func Combine(ssData [][]byte, parts, threshold int) ([]byte, error) {
 		return nil, fmt.Errorf(
 			"the provided secret is too large, we can only combine up to %d bytes data", math.MaxUint32)
 	}
-	if threshold <= 0 || parts <= 0 {
-		return nil, errors.New("#parts and #threshold should be positive")
+	if threshold < 2 {
+		return nil, errors.New("#threshold should be at least 2")
 	}
 	if threshold > parts {
 		return nil, fmt.Errorf(
-- 
2.43.0


From 9dead16fd03b41180e2f53ab704c30479d9d4c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:35 +0000
Subject: [PATCH 17/17] fix: krawczyk: refuse shares of unequal length in
 Combine

---
 krawczyk/krawczyk.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/krawczyk/krawczyk.go b/krawczyk/krawczyk.go
index 093eaef..9370bb8 100644
--- a/krawczyk/krawczyk.go
+++ b/krawczyk/krawczyk.go
@@ -228,6 +228,9 @@ func Combine(ssData [][]byte, parts, threshold int) ([]byte, error) {
 		if len(ssData[i]) <= secretStartIdx {
 			return nil, errors.New("the given secret-shared data is wrong, it is too short")
 		}
+		if len(ssData[i]) != len(ssData[0]) {
+			return nil, errors.New("the given secret-shared data is wrong, all shares should be the same length")
+		}
 		ssMetadata[i] = ssData[i][:secretStartIdx]
 
 		// check the part-id of the reed-solomon encoded data
-- 
2.43.0

