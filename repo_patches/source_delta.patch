From 05c3e6ecd0e199636baa9cbbe2df9f7a00e09027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:39 +0000
Subject: [PATCH 01/37] fix: hash lists of rows unambiguously

Rows were merged without delimiters, so entities whose fields are split
differently (amount 1 + nonce 05, amount 10 + nonce 5) had the same hash, and a
list of one element had the hash of that element.
---
 domain/hash/adapter.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/domain/hash/adapter.go b/domain/hash/adapter.go
index e6c0cc1..a80b81c 100644
--- a/domain/hash/adapter.go
+++ b/domain/hash/adapter.go
@@ -2,6 +2,7 @@ package hash
 
 import (
 	"crypto/sha512"
+	"encoding/binary"
 	"encoding/hex"
 )
 
@@ -35,12 +36,17 @@ func (app *adapter) FromBytes(input []byte) (*Hash, error) {
 
 // FromMultiBytes converts multiple []byte to an Hash
 func (app *adapter) FromMultiBytes(input [][]byte) (*Hash, error) {
+	// every row is prefixed by its length, so that two different lists of rows never merge to the same bytes:
 	merged := []byte{}
 	for _, oneRow := range input {
+		length := make([]byte, 8)
+		binary.BigEndian.PutUint64(length, uint64(len(oneRow)))
+		merged = append(merged, length...)
 		merged = append(merged, oneRow...)
 	}
 
-	return app.FromBytes(merged)
+	digest := sha512.Sum512(merged)
+	return app.FromBytes(digest[:])
 }
 
 // FromString converts a string to an Hash
-- 
2.43.0


From e6ea7d74594fbc9470c3a742e890ce48ebd62071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:40 +0000
Subject: [PATCH 02/37] fix: hash the content of receipts and private
 transactions

Every receipt had the same hash, and so had every private transaction.
---
 domain/receipts/builder.go                      | 6 +++++-
 domain/transactions/privates/private_builder.go | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/domain/receipts/builder.go b/domain/receipts/builder.go
index 75ce327..2128fcc 100644
--- a/domain/receipts/builder.go
+++ b/domain/receipts/builder.go
@@ -53,7 +53,11 @@ func (app *builder) Now() (Receipt, error) {
 		return nil, errors.New("the signature is mandatory in order to build a Receipt instance")
 	}
 
-	hash, err := app.hashAdapter.FromMultiBytes([][]byte{})
+	hash, err := app.hashAdapter.FromMultiBytes([][]byte{
+		app.secret.Hash().Bytes(),
+		[]byte(app.sig.String()),
+	})
+
 	if err != nil {
 		return nil, err
 	}
diff --git a/domain/transactions/privates/private_builder.go b/domain/transactions/privates/private_builder.go
index 910ce8b..75000fa 100644
--- a/domain/transactions/privates/private_builder.go
+++ b/domain/transactions/privates/private_builder.go
@@ -53,7 +53,11 @@ func (app *privateBuilder) Now() (Private, error) {
 		return nil, errors.New("the receipt is mandatory in order to build a Private instance")
 	}
 
-	hash, err := app.hashAdapter.FromMultiBytes([][]byte{})
+	hash, err := app.hashAdapter.FromMultiBytes([][]byte{
+		[]byte(app.pk.String()),
+		app.receipt.Hash().Bytes(),
+	})
+
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 54b2df20c09b22f5b08406e0c36d96d1f68b9353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:19 +0000
Subject: [PATCH 03/37] fix: make the genesis units constructible

The units builder had no constructor, so no Units, and therefore no Genesis,
could be built outside of the package.
---
 domain/genesis/sdk.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/domain/genesis/sdk.go b/domain/genesis/sdk.go
index aec270e..3a878fd 100644
--- a/domain/genesis/sdk.go
+++ b/domain/genesis/sdk.go
@@ -13,6 +13,12 @@ func NewBuilder() Builder {
 	return createBuilder(hashAdapter)
 }
 
+// NewUnitsBuilder creates a new units builder
+func NewUnitsBuilder() UnitsBuilder {
+	hashAdapter := hash.NewAdapter()
+	return createUnitsBuilder(hashAdapter)
+}
+
 // NewUnitBuilder creates a new unit builder
 func NewUnitBuilder() UnitBuilder {
 	hashAdapter := hash.NewAdapter()
-- 
2.43.0


From 1320978d4ddc7953d25f6af5b70414081a4d6fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:20 +0000
Subject: [PATCH 04/37] fix: use fresh random scalars in ring signatures

The nonce and the responses were derived from the message only: two ring
signatures of a message on different rings, or a ring signature and a plain
signature of the same message, shared a nonce, which reveals the private key
of the signer to anyone who holds both.
---
 domain/cryptography/keys/signature/privatekey.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/domain/cryptography/keys/signature/privatekey.go b/domain/cryptography/keys/signature/privatekey.go
index 1546d25..bf3b7bf 100644
--- a/domain/cryptography/keys/signature/privatekey.go
+++ b/domain/cryptography/keys/signature/privatekey.go
@@ -2,7 +2,6 @@ package signature
 
 import (
 	"errors"
-	"fmt"
 
 	kyber "go.dedis.ch/kyber/v3"
 )
@@ -45,8 +44,8 @@ func (app *privateKey) RingSign(msg string, ringPubKeys []PublicKey) (RingSignat
 		return nil, errors.New("the signer PublicKey is not in the ring")
 	}
 
-	// generate k:
-	k := genK(app.x, msg)
+	// generate a fresh k, reusing one reveals the private key:
+	k := curve.Scalar().Pick(curve.RandomStream())
 
 	// random base:
 	g := curve.Point().Base()
@@ -65,7 +64,7 @@ func (app *privateKey) RingSign(msg string, ringPubKeys []PublicKey) (RingSignat
 	// loop:
 	for i := beginIndex; i != signerIndex; i = (i + 1) % r {
 		// si = random value
-		ss[i] = genK(app.x, fmt.Sprintf("%s%d", msg, i))
+		ss[i] = curve.Scalar().Pick(curve.RandomStream())
 
 		//eiPlus1ModR = H(m || si * G + ei * Pi)
 		sig := curve.Point().Mul(ss[i], g)
-- 
2.43.0


From 79a653ad063ed88da396df847dc96058ff66747f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:21 +0000
Subject: [PATCH 05/37] fix: reject ring signatures without keys or with
 missing scalars

An empty ring verified against any message, and a decoded signature with less
scalars than keys made the verification panic.
---
 domain/cryptography/keys/signature/ringsignature.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/domain/cryptography/keys/signature/ringsignature.go b/domain/cryptography/keys/signature/ringsignature.go
index 1ca0874..01c498b 100644
--- a/domain/cryptography/keys/signature/ringsignature.go
+++ b/domain/cryptography/keys/signature/ringsignature.go
@@ -30,6 +30,12 @@ func (app *ringSignature) Ring() []PublicKey {
 
 // Verify verifies if the message has been signed by at least 1 shared signature
 func (app *ringSignature) Verify(msg string) bool {
+	// the ring must contain public keys, and a scalar for each one:
+	amount := len(app.ring)
+	if amount <= 0 || len(app.s) != amount {
+		return false
+	}
+
 	// random base:
 	g := curve.Point().Base()
 
@@ -37,7 +43,6 @@ func (app *ringSignature) Verify(msg string) bool {
 	e := app.e
 
 	//e = H(m || s[i] * G + e * P[i]);
-	amount := len(app.ring)
 	for i := 0; i < amount; i++ {
 		sg := curve.Point().Mul(app.s[i], g)
 		ep := curve.Point().Mul(e, app.ring[i].Point())
-- 
2.43.0


From 88c189420aca5d4f1be899cfc3b54112a61b5038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:41 +0000
Subject: [PATCH 06/37] fix: build hash trees without writing in the caller's
 blocks

The filling of a single block was appended to the slice of the caller, which
overwrote the next element of its array, and an empty list of blocks panicked.
---
 domain/hashtree/block.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/domain/hashtree/block.go b/domain/hashtree/block.go
index 0d7bde0..af26e08 100644
--- a/domain/hashtree/block.go
+++ b/domain/hashtree/block.go
@@ -13,10 +13,6 @@ type block struct {
 
 func createBlockFromData(data [][]byte) (Block, error) {
 
-	if len(data) <= 1 {
-		data = append(data, []byte(""))
-	}
-
 	hashes := []hash.Hash{}
 	for _, oneData := range data {
 		oneHash, err := hash.NewAdapter().FromBytes(oneData)
@@ -27,6 +23,16 @@ func createBlockFromData(data [][]byte) (Block, error) {
 		hashes = append(hashes, *oneHash)
 	}
 
+	// there must be at least 2 elements:
+	for len(hashes) < 2 {
+		filling, err := hash.NewAdapter().FromBytes(nil)
+		if err != nil {
+			return nil, err
+		}
+
+		hashes = append(hashes, *filling)
+	}
+
 	blk := block{
 		list: hashes,
 	}
-- 
2.43.0


From ffb4aa0c0cb1243796cbd389e9927090d1561bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:41 +0000
Subject: [PATCH 07/37] fix: order the blocks of a hash tree with their
 multiplicity

Repeated blocks were replaced by one another, and empty blocks were counted
once per filling leaf.
---
 domain/hashtree/hashtree.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/domain/hashtree/hashtree.go b/domain/hashtree/hashtree.go
index e47aede..eab99b3 100644
--- a/domain/hashtree/hashtree.go
+++ b/domain/hashtree/hashtree.go
@@ -62,7 +62,7 @@ func (obj *hashtree) Compact() Compact {
 // Order orders data that matches the leafs of the HashTree
 func (obj *hashtree) Order(data [][]byte) ([][]byte, error) {
 	hashAdapter := hash.NewAdapter()
-	hashed := map[string][]byte{}
+	hashed := map[string][][]byte{}
 	for _, oneData := range data {
 		hsh, err := hashAdapter.FromBytes(oneData)
 		if err != nil {
@@ -70,15 +70,16 @@ func (obj *hashtree) Order(data [][]byte) ([][]byte, error) {
 		}
 
 		hashAsString := hsh.String()
-		hashed[hashAsString] = oneData
+		hashed[hashAsString] = append(hashed[hashAsString], oneData)
 	}
 
 	out := [][]byte{}
 	leaves := obj.parentLeaf.BlockLeaves().Leaves()
 	for _, oneLeaf := range leaves {
 		leafHashAsString := oneLeaf.Head().String()
-		if oneData, ok := hashed[leafHashAsString]; ok {
-			out = append(out, oneData)
+		if list := hashed[leafHashAsString]; len(list) > 0 {
+			out = append(out, list[0])
+			hashed[leafHashAsString] = list[1:]
 			continue
 		}
 
-- 
2.43.0


From 943808df5e11c78469514b4ecd5c474ddc69449b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:50 +0000
Subject: [PATCH 08/37] fix: refuse negative ports in peer strings

A negative port was converted to a huge unsigned one.
---
 domain/peers/peer_builder.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/domain/peers/peer_builder.go b/domain/peers/peer_builder.go
index 78b1c4c..cd97fba 100644
--- a/domain/peers/peer_builder.go
+++ b/domain/peers/peer_builder.go
@@ -61,12 +61,12 @@ func (app *peerBuilder) Now() (Peer, error) {
 			return nil, errors.New(str)
 		}
 
-		portInt, err := strconv.Atoi(sections[1])
+		portNumber, err := strconv.ParseUint(sections[1], 10, strconv.IntSize)
 		if err != nil {
 			return nil, err
 		}
 
-		port := uint(portInt)
+		port := uint(portNumber)
 		app.port = &port
 		app.host = sections[0]
 	}
-- 
2.43.0


From 47c919da2b788d95e3f7c9d60991b66edc8e4e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:04 +0000
Subject: [PATCH 09/37] fix: refuse cardinalities that no amount can satisfy

Negative bounds were converted to huge unsigned ones, and a maximum below the
minimum was accepted.
---
 domain/languages/lexers/cardinality/range_builder.go   | 10 ++++++++++
 .../languages/lexers/cardinality/specific_adapter.go   |  6 +++---
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/domain/languages/lexers/cardinality/range_builder.go b/domain/languages/lexers/cardinality/range_builder.go
index 2d7beaf..4e3b9c8 100644
--- a/domain/languages/lexers/cardinality/range_builder.go
+++ b/domain/languages/lexers/cardinality/range_builder.go
@@ -1,5 +1,10 @@
 package cardinality
 
+import (
+	"errors"
+	"fmt"
+)
+
 type rangeBuilder struct {
 	min uint
 	max *uint
@@ -34,6 +39,11 @@ func (app *rangeBuilder) WithMaximum(max uint) RangeBuilder {
 // Now builds a new Range instance
 func (app *rangeBuilder) Now() (Range, error) {
 	if app.max != nil {
+		if *app.max < app.min {
+			str := fmt.Sprintf("the maximum (%d) cannot be smaller than the minimum (%d) in order to build a Range instance", *app.max, app.min)
+			return nil, errors.New(str)
+		}
+
 		return createRangeWithMaximum(app.min, app.max), nil
 	}
 
diff --git a/domain/languages/lexers/cardinality/specific_adapter.go b/domain/languages/lexers/cardinality/specific_adapter.go
index 05e6421..1c96bdd 100644
--- a/domain/languages/lexers/cardinality/specific_adapter.go
+++ b/domain/languages/lexers/cardinality/specific_adapter.go
@@ -49,7 +49,7 @@ func (app *specificAdapter) ToSpecific(content string) (Specific, error) {
 	builder := app.specificBuilder.Create()
 	sections := strings.Split(trimmedContent, app.rangeSeparator)
 	if len(sections) == 1 {
-		amount, err := strconv.Atoi(sections[0])
+		amount, err := strconv.ParseUint(sections[0], 10, strconv.IntSize)
 		if err != nil {
 			return nil, err
 		}
@@ -58,7 +58,7 @@ func (app *specificAdapter) ToSpecific(content string) (Specific, error) {
 	}
 
 	if len(sections) == 2 {
-		min, err := strconv.Atoi(sections[0])
+		min, err := strconv.ParseUint(sections[0], 10, strconv.IntSize)
 		if err != nil {
 			return nil, err
 		}
@@ -66,7 +66,7 @@ func (app *specificAdapter) ToSpecific(content string) (Specific, error) {
 		rangeBuilder := app.rangeBuilder.Create().WithMinimum(uint(min))
 		trimmedSection := strings.TrimSpace(sections[1])
 		if trimmedSection != "" {
-			max, err := strconv.Atoi(trimmedSection)
+			max, err := strconv.ParseUint(trimmedSection, 10, strconv.IntSize)
 			if err != nil {
 				return nil, err
 			}
-- 
2.43.0


From 1c25b9bd5ddf6e33c855259c95e2d612a9979e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:54 +0000
Subject: [PATCH 10/37] fix: write mandatory cardinalities without panicking

---
 domain/languages/lexers/cardinality/adapter.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/domain/languages/lexers/cardinality/adapter.go b/domain/languages/lexers/cardinality/adapter.go
index 896bfe5..e720bf6 100644
--- a/domain/languages/lexers/cardinality/adapter.go
+++ b/domain/languages/lexers/cardinality/adapter.go
@@ -56,6 +56,11 @@ func (app *adapter) ToCardinality(content string) (Cardinality, error) {
 
 // ToPatternString converts a cardinality to pattern string
 func (app *adapter) ToPatternString(cardinality Cardinality) (string, error) {
+	// mandatory is the default, it is written without cardinality:
+	if cardinality.IsMandatory() {
+		return "", nil
+	}
+
 	if cardinality.IsOptional() {
 		return app.optionalCharacter, nil
 	}
-- 
2.43.0


From 0be90510e01720127240a99ab461c87e33223e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:55 +0000
Subject: [PATCH 11/37] fix: locate pattern results in the whole input

The remaining text of a group found after a prefix was cut at the length of the
match instead of its end, and the input of a pattern found after a prefix did
not contain the prefix its index refers to.
---
 domain/languages/lexers/containers/patterns/adapter.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/domain/languages/lexers/containers/patterns/adapter.go b/domain/languages/lexers/containers/patterns/adapter.go
index 4058980..eadb81c 100644
--- a/domain/languages/lexers/containers/patterns/adapter.go
+++ b/domain/languages/lexers/containers/patterns/adapter.go
@@ -131,8 +131,9 @@ func (app *adapter) FromGroupToResult(group Group, content string) (Result, erro
 		}
 
 		builder := app.resultBuilder.Create().WithDiscoveries(discoveries).WithInput(content)
-		if matchedAmount < uint(len(content)) {
-			builder.WithRemaining(content[matchedAmount:])
+		endIndex := uint(i) + matchedAmount
+		if endIndex < uint(len(content)) {
+			builder.WithRemaining(content[endIndex:])
 		}
 
 		ins, err := builder.Now()
@@ -151,8 +152,7 @@ func (app *adapter) FromGroupToResult(group Group, content string) (Result, erro
 func (app *adapter) FromPatternToResult(pattern Pattern, content string) (Result, error) {
 	amount := len(content)
 	for i := 0; i < amount; i++ {
-		subContent := content[i:]
-		res, err := app.matchPattern(pattern, subContent, uint(i))
+		res, err := app.matchPattern(pattern, content, uint(i))
 		if err != nil {
 			return nil, err
 		}
@@ -195,7 +195,7 @@ func (app *adapter) FromPatternsToResult(patterns Patterns, content string) (Res
 
 func (app *adapter) matchPattern(pattern Pattern, content string, nextIndex uint) (Result, error) {
 	var next Next
-	remaining := content
+	remaining := content[nextIndex:]
 	discoveriesList := []Discovery{}
 	choices := pattern.Content().List()
 	for idx, oneChoice := range choices {
-- 
2.43.0


From 842fffac80134edaddde924ed42d5ccb4549176b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:37 +0000
Subject: [PATCH 12/37] fix: keep the text of partially matched patterns and
 find the end of reversed series

---
 .../lexers/containers/patterns/adapter.go     | 59 +++++++++----------
 1 file changed, 28 insertions(+), 31 deletions(-)

diff --git a/domain/languages/lexers/containers/patterns/adapter.go b/domain/languages/lexers/containers/patterns/adapter.go
index eadb81c..875753d 100644
--- a/domain/languages/lexers/containers/patterns/adapter.go
+++ b/domain/languages/lexers/containers/patterns/adapter.go
@@ -104,7 +104,7 @@ func (app *adapter) FromGroupToResult(group Group, content string) (Result, erro
 	amount := len(content)
 	for i := 0; i < amount; i++ {
 		subContent := content[i:]
-		matchedAmount, err := app.matchesGroup(group, subContent, false)
+		matchedAmount, err := app.matchesGroup(group, subContent)
 		if err != nil {
 			return nil, err
 		}
@@ -198,9 +198,9 @@ func (app *adapter) matchPattern(pattern Pattern, content string, nextIndex uint
 	remaining := content[nextIndex:]
 	discoveriesList := []Discovery{}
 	choices := pattern.Content().List()
-	for idx, oneChoice := range choices {
+	for _, oneChoice := range choices {
 		currentIndex := uint(0)
-		if idx <= 0 {
+		if len(discoveriesList) <= 0 {
 			currentIndex = nextIndex
 		}
 
@@ -273,16 +273,16 @@ func (app *adapter) matchSerie(serie Serie, content string, index uint) (bool, [
 	groups := serie.Content().List()
 	for _, oneGroup := range groups {
 		if remaining == "" {
-			return false, matchedDiscoveriesList, oneGroup, "", nil
+			return false, matchedDiscoveriesList, oneGroup, content, nil
 		}
 
-		amount, err := app.matchesGroup(oneGroup, remaining, false)
+		amount, err := app.matchesGroup(oneGroup, remaining)
 		if err != nil {
 			return false, nil, nil, "", err
 		}
 
 		if amount <= 0 {
-			return false, matchedDiscoveriesList, oneGroup, remaining, nil
+			return false, matchedDiscoveriesList, oneGroup, content, nil
 		}
 
 		container, err := app.containerBuilder.Create().WithGroup(oneGroup).Now()
@@ -305,13 +305,10 @@ func (app *adapter) matchSerie(serie Serie, content string, index uint) (bool, [
 
 func (app *adapter) matchReversedSerie(serie Serie, content string, index uint) (bool, []Discovery, Group, string, error) {
 	groups := serie.Content().List()
-	amount, err := app.matchesGroup(groups[0], content, true)
-	if err != nil {
-		return false, nil, nil, "", err
-	}
-
+	amount := app.lengthBeforeSerie(groups, content)
 	if amount <= 0 {
-		return false, nil, nil, "", nil
+		// there is nothing before the serie:
+		return true, nil, nil, content, nil
 	}
 
 	container, err := app.containerBuilder.Create().WithReverse(serie).Now()
@@ -330,32 +327,32 @@ func (app *adapter) matchReversedSerie(serie Serie, content string, index uint)
 	}, groups[0], content[amount:], nil
 }
 
-func (app *adapter) matchesGroup(group Group, content string, isReverse bool) (uint, error) {
-	if !isReverse {
-		prefixLength := group.Content().Contains(content)
-		return prefixLength, nil
+func (app *adapter) lengthBeforeSerie(groups []Group, content string) uint {
+	amount := 0
+	for amount < len(content) && !app.startsWithSerie(groups, content[amount:]) {
+		amount++
 	}
 
-	// we are in reverse:
-	amount := uint(0)
-	remaining := content
-	for {
-		if len(remaining) <= 0 {
-			break
-		}
+	return uint(amount)
+}
 
-		prefixLength := group.Content().Contains(remaining)
-		isBreak := prefixLength <= 0
-		if isBreak {
-			amount++
-			remaining = remaining[1:]
-			continue
+func (app *adapter) startsWithSerie(groups []Group, content string) bool {
+	remaining := content
+	for _, oneGroup := range groups {
+		prefixLength := oneGroup.Content().Contains(remaining)
+		if prefixLength <= 0 {
+			return false
 		}
 
-		break
+		remaining = remaining[prefixLength:]
 	}
 
-	return amount, nil
+	return true
+}
+
+func (app *adapter) matchesGroup(group Group, content string) (uint, error) {
+	prefixLength := group.Content().Contains(content)
+	return prefixLength, nil
 }
 
 func (app *adapter) findPatterns(series map[string]Serie, content string) (Patterns, error) {
-- 
2.43.0


From a980d329abc62ec4fdae8031747d016f5a076f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:07 +0000
Subject: [PATCH 13/37] fix: require the mandatory lines of tokens that contain
 a not block

---
 domain/languages/lexers/asts/tokens/tokencontent.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/domain/languages/lexers/asts/tokens/tokencontent.go b/domain/languages/lexers/asts/tokens/tokencontent.go
index 509136e..025dd92 100644
--- a/domain/languages/lexers/asts/tokens/tokencontent.go
+++ b/domain/languages/lexers/asts/tokens/tokencontent.go
@@ -32,8 +32,8 @@ func createTokenContentInternally(
 
 // IsValid returns true if the token is valid, false otherwise
 func (obj *tokenContent) IsValid() bool {
-	if obj.HasNot() {
-		return !obj.Not().Matches().IsValid()
+	if obj.HasNot() && obj.Not().Matches().IsValid() {
+		return false
 	}
 
 	return obj.must.Matches().IsValid()
-- 
2.43.0


From c7bdb750bb1079574e3d8805ac5456757f14a09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:14 +0000
Subject: [PATCH 14/37] fix: enforce the minimum amount of matches of pattern
 rules

---
 domain/languages/lexers/asts/results/adapter.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/domain/languages/lexers/asts/results/adapter.go b/domain/languages/lexers/asts/results/adapter.go
index bbcf8b7..325131b 100644
--- a/domain/languages/lexers/asts/results/adapter.go
+++ b/domain/languages/lexers/asts/results/adapter.go
@@ -71,7 +71,7 @@ func (app *adapter) ToResult(input rules.Rule, script string) (Result, error) {
 				break
 			}
 
-			if len(list) >= 0 && result.Discoveries().Index() > 0 {
+			if result.Discoveries().Index() > 0 {
 				break
 			}
 
@@ -80,7 +80,7 @@ func (app *adapter) ToResult(input rules.Rule, script string) (Result, error) {
 			remaining = remaining[amount:]
 		}
 
-		if len(list) > 0 {
+		if len(list) > 0 && cardinality.IsValid(uint(len(list))) {
 			builder.WithMatches(list)
 		}
 
-- 
2.43.0


From d4be7c2b1fe13d2107e69ec475e6d504066c179e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:21 +0000
Subject: [PATCH 15/37] fix: return an error on rules with malformed patterns

---
 domain/languages/lexers/containers/rules/adapter.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/domain/languages/lexers/containers/rules/adapter.go b/domain/languages/lexers/containers/rules/adapter.go
index a270047..7b991d5 100644
--- a/domain/languages/lexers/containers/rules/adapter.go
+++ b/domain/languages/lexers/containers/rules/adapter.go
@@ -182,6 +182,11 @@ func (app *adapter) pattern(ruleName string, content string, ptrns patterns.Patt
 
 	pattern := regexp.MustCompile(patternStr)
 	matches := pattern.FindStringSubmatch(content)
+	if matches == nil {
+		str := fmt.Sprintf("the rule (name: %s) contains an invalid pattern: %s", ruleName, content)
+		return nil, errors.New(str)
+	}
+
 	cardinalityContent := strings.Replace(content, matches[0], "", 1)
 	cardinality, err := app.cardinalityAdapter.ToCardinality(cardinalityContent)
 	if err != nil {
-- 
2.43.0


From 9f8cc56d2382593cffce304f661d2d03c93a8da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:21 +0000
Subject: [PATCH 16/37] fix: only repeat rules on adjacent text

---
 .../languages/lexers/asts/tokens/adapter.go   | 25 ++++++++-----------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/domain/languages/lexers/asts/tokens/adapter.go b/domain/languages/lexers/asts/tokens/adapter.go
index 0def7c4..9bf7b5e 100644
--- a/domain/languages/lexers/asts/tokens/adapter.go
+++ b/domain/languages/lexers/asts/tokens/adapter.go
@@ -733,7 +733,6 @@ func (app *adapter) tokenPathToTokenResultMatches(
 func (app *adapter) ruleToRuleMatch(rulePath paths.Rule, script string, chansAreActivated bool) (RuleMatch, error) {
 	remaining := script
 	rule := rulePath.Base()
-	scriptLength := len(script)
 	list := []results.Result{}
 	canContainPrefix := app.canContainPrefix && chansAreActivated
 	_, pMax := rulePath.Cardinality().Delimiter()
@@ -747,27 +746,25 @@ func (app *adapter) ruleToRuleMatch(rulePath paths.Rule, script string, chansAre
 			break
 		}
 
-		list = append(list, res)
-		content := res.Content()
-
-		if res.HasMatches() {
-			matches := res.Matches().List()
-			index := matches[0].Discoveries().Index()
-			if index > 0 {
-				app.canContainPrefix = false
-			}
+		// only the first result can contain a prefix, the next ones must directly follow:
+		index := res.Matches().List()[0].Discoveries().Index()
+		if index > 0 && len(list) > 0 {
+			break
+		}
 
-			if index > 0 && !canContainPrefix {
+		list = append(list, res)
+		if index > 0 {
+			app.canContainPrefix = false
+			if !canContainPrefix {
 				break
 			}
 		}
 
-		contentLength := len(content)
-		if scriptLength <= contentLength {
+		remaining = remaining[index+uint(len(res.Content())):]
+		if remaining == "" {
 			break
 		}
 
-		remaining = remaining[contentLength:]
 		if pMax != nil && uint(len(list)) >= *pMax {
 			break
 		}
-- 
2.43.0


From 5a4cac7618ec6935f972dfda27c913780f50f4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:22 +0000
Subject: [PATCH 17/37] fix: restore the prefix permission between scripts

---
 domain/languages/lexers/asts/tokens/adapter.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/domain/languages/lexers/asts/tokens/adapter.go b/domain/languages/lexers/asts/tokens/adapter.go
index 9bf7b5e..1e4c5be 100644
--- a/domain/languages/lexers/asts/tokens/adapter.go
+++ b/domain/languages/lexers/asts/tokens/adapter.go
@@ -198,6 +198,12 @@ func createAdapterInternally(
 
 // ToToken converts a script to a Token instance
 func (app *adapter) ToToken(script string) (Token, error) {
+	// a prefix can only be consumed once per script, so restore the permission for the next script:
+	canContainPrefix := app.canContainPrefix
+	defer func() {
+		app.canContainPrefix = canContainPrefix
+	}()
+
 	app.recursiveTokens = map[string]string{}
 	return app.elementToToken(app.rootPath.Element(), app.rootPath.Dependencies(), script, true)
 }
-- 
2.43.0


From 1245d894a71dc17880cedac9fc58471bdb0cd28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:07 +0000
Subject: [PATCH 18/37] fix: verify every element of a line and only guard the
 recursions under evaluation

---
 .../languages/lexers/asts/tokens/adapter.go   | 24 ++++++++++++++-----
 .../scripts/resources/base/tokens.alex        |  1 +
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/domain/languages/lexers/asts/tokens/adapter.go b/domain/languages/lexers/asts/tokens/adapter.go
index 1e4c5be..79939a4 100644
--- a/domain/languages/lexers/asts/tokens/adapter.go
+++ b/domain/languages/lexers/asts/tokens/adapter.go
@@ -338,7 +338,13 @@ func (app *adapter) lineToMatches(line paths.Line, dependencies paths.Dependenci
 		}
 
 		if match == nil {
-			break
+			// the container is optional, so verify the next instructions:
+			if !currentContainer.IsLines() && currentContainer.Cardinality().IsValid(0) {
+				continue
+			}
+
+			// the container cannot match, so the line doesn't match:
+			return nil, nil
 		}
 
 		// if the match is invalid:
@@ -578,14 +584,20 @@ func (app *adapter) containerToMatch(container paths.Container, dependencies pat
 	if container.IsRecursive() {
 		recursiveToken := container.Recursive()
 		name := recursiveToken.Name()
-		if previousScript, ok := app.recursiveTokens[name]; ok {
-			if previousScript == script {
-				delete(app.recursiveTokens, name)
-				return nil, nil
-			}
+		previousScript, isRecursive := app.recursiveTokens[name]
+		if isRecursive && previousScript == script {
+			return nil, nil
 		}
 
+		// flag the script while the token is evaluated, then restore the previous one:
 		app.recursiveTokens[name] = script
+		defer func() {
+			delete(app.recursiveTokens, name)
+			if isRecursive {
+				app.recursiveTokens[name] = previousScript
+			}
+		}()
+
 		element, err := dependencies.Fetch(name)
 		if err != nil {
 			str := fmt.Sprintf("the recursive token (name: %s) could not be found: %s", name, err.Error())
diff --git a/domain/languages/scripts/resources/base/tokens.alex b/domain/languages/scripts/resources/base/tokens.alex
index 733c4d5..1f420b1 100644
--- a/domain/languages/scripts/resources/base/tokens.alex
+++ b/domain/languages/scripts/resources/base/tokens.alex
@@ -606,6 +606,7 @@ singleAssignable
 
 listFetchElement
     : totalListValue listElementFetcher
+    | OPEN_PARENTHESIS totalListValue CLOSE_PARENTHESIS listElementFetcher
     +++
     :
         myList[4]
-- 
2.43.0


From 8770f0848ef7bae056434573b96eef81881fe957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:13 +0000
Subject: [PATCH 19/37] fix: evaluate the channels in a stable order

---
 domain/languages/lexers/asts/tokens/adapter.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/domain/languages/lexers/asts/tokens/adapter.go b/domain/languages/lexers/asts/tokens/adapter.go
index 79939a4..a7c5423 100644
--- a/domain/languages/lexers/asts/tokens/adapter.go
+++ b/domain/languages/lexers/asts/tokens/adapter.go
@@ -3,6 +3,7 @@ package tokens
 import (
 	"errors"
 	"fmt"
+	"sort"
 	"strings"
 
 	"github.com/steve-care-software/steve/domain/languages/lexers/asts/paths"
@@ -302,7 +303,15 @@ func (app *adapter) bestLineToMatches(lines []paths.Line, dependencies paths.Dep
 }
 
 func (app *adapter) findMatchesInChannels(script string) (LineMatch, error) {
-	for _, oneChannel := range app.channels {
+	names := []string{}
+	for oneName := range app.channels {
+		names = append(names, oneName)
+	}
+
+	// evaluate the channels in order, in order to always select the same one:
+	sort.Strings(names)
+	for _, oneName := range names {
+		oneChannel := app.channels[oneName]
 		token, err := app.elementToToken(oneChannel.Element(), oneChannel.Dependencies(), script, false)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 3f2f707ee2c2816845ab7d57fa8618eca3c679f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:13 +0000
Subject: [PATCH 20/37] fix: activate the channels again after the second
 channel switch

---
 domain/languages/lexers/asts/tokens/adapter.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/domain/languages/lexers/asts/tokens/adapter.go b/domain/languages/lexers/asts/tokens/adapter.go
index a7c5423..ac10141 100644
--- a/domain/languages/lexers/asts/tokens/adapter.go
+++ b/domain/languages/lexers/asts/tokens/adapter.go
@@ -337,6 +337,10 @@ func (app *adapter) lineToMatches(line paths.Line, dependencies paths.Dependenci
 	for _, oneInstruction := range instructions {
 		if oneInstruction.IsChannelSwitch() {
 			nextChansAreActivated = !nextChansAreActivated
+			if nextChansAreActivated {
+				chansAreActivated = true
+			}
+
 			continue
 		}
 
-- 
2.43.0


From 9c56898fd5c3c829ef7dc8150f11353f40563ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:14 +0000
Subject: [PATCH 21/37] fix: skip every channel match before a channel switch

---
 domain/languages/lexers/asts/tokens/adapter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/domain/languages/lexers/asts/tokens/adapter.go b/domain/languages/lexers/asts/tokens/adapter.go
index ac10141..27d3f78 100644
--- a/domain/languages/lexers/asts/tokens/adapter.go
+++ b/domain/languages/lexers/asts/tokens/adapter.go
@@ -520,7 +520,7 @@ func (app *adapter) findChannelBlockMatch(container paths.Container, dependencie
 	}
 
 	remainingScript := strings.Replace(script, matchesScript, "", 1)
-	blockMatch, err := app.containerToBlockMatch(container, dependencies, remainingScript, nextChansAreActivated, nextChansAreActivated)
+	blockMatch, err := app.containerToBlockMatch(container, dependencies, remainingScript, true, nextChansAreActivated)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From c82e4c655ceae185888fb1672a28c9f5e0dcd927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:25 +0000
Subject: [PATCH 22/37] fix: give every token of a root tree its own content

---
 domain/languages/lexers/roots/adapter.go | 36 ++----------------------
 1 file changed, 2 insertions(+), 34 deletions(-)

diff --git a/domain/languages/lexers/roots/adapter.go b/domain/languages/lexers/roots/adapter.go
index 8482f37..b355957 100644
--- a/domain/languages/lexers/roots/adapter.go
+++ b/domain/languages/lexers/roots/adapter.go
@@ -10,7 +10,6 @@ type adapter struct {
 	nodeBuilder       NodeBuilder
 	containersBuilder ContainersBuilder
 	containerBuilder  ContainerBuilder
-	tokenRoots        map[string]Root
 }
 
 func createAdapter(
@@ -26,19 +25,13 @@ func createAdapter(
 		nodeBuilder:       nodeBuilder,
 		containersBuilder: containersBuilder,
 		containerBuilder:  containerBuilder,
-		tokenRoots:        nil,
 	}
 
 	return &out
 }
 
-func (app *adapter) init() {
-	app.tokenRoots = map[string]Root{}
-}
-
 // ToRoot converts a root token to an instance
 func (app *adapter) ToRoot(token asts.Token) (Root, error) {
-	app.init()
 	return app.toRoot(token)
 }
 
@@ -48,23 +41,8 @@ func (app *adapter) toRoot(token asts.Token) (Root, error) {
 		return nil, nil
 	}
 
-	// enter the sub tokens:
-	matches := lineMatch.Matches()
-	for _, oneMatch := range matches {
-		if !oneMatch.IsToken() {
-			continue
-		}
-
-		tokens := oneMatch.Token().Matches()
-		for _, oneToken := range tokens {
-			_, err := app.toRoot(oneToken)
-			if err != nil {
-				return nil, err
-			}
-		}
-	}
-
 	// create the containers map:
+	matches := lineMatch.Matches()
 	containersMap := map[string][]Container{}
 	for _, oneMatch := range matches {
 		if oneMatch.IsToken() {
@@ -72,7 +50,7 @@ func (app *adapter) toRoot(token asts.Token) (Root, error) {
 			tokenName := tokenMatch.Token()
 			matchTokens := tokenMatch.Matches()
 			for _, oneMatchToken := range matchTokens {
-				root, err := app.toRootWithCache(oneMatchToken)
+				root, err := app.toRoot(oneMatchToken)
 				if err != nil {
 					return nil, err
 				}
@@ -127,15 +105,5 @@ func (app *adapter) toRoot(token asts.Token) (Root, error) {
 		return nil, err
 	}
 
-	app.tokenRoots[content] = ins
 	return ins, nil
 }
-
-func (app *adapter) toRootWithCache(token asts.Token) (Root, error) {
-	content := token.Discovery()
-	if ref, ok := app.tokenRoots[content]; ok {
-		return ref, nil
-	}
-
-	return app.toRoot(token)
-}
-- 
2.43.0


From 5b2570be719e72df4a0b8b1be21f0655c537498c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:25 +0000
Subject: [PATCH 23/37] fix: scan the nodes in a stable order

---
 domain/languages/lexers/roots/nodes.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/domain/languages/lexers/roots/nodes.go b/domain/languages/lexers/roots/nodes.go
index 3c89ec2..34cf94f 100644
--- a/domain/languages/lexers/roots/nodes.go
+++ b/domain/languages/lexers/roots/nodes.go
@@ -3,6 +3,7 @@ package roots
 import (
 	"errors"
 	"fmt"
+	"sort"
 )
 
 type nodes struct {
@@ -41,7 +42,20 @@ func (obj *nodes) Fetch(name string) (Node, error) {
 
 // Scan scans the node
 func (obj *nodes) Scan(name string) (Root, Node, Container, string, error) {
-	for _, node := range obj.list {
+	// the nodes of this level are selected first:
+	if node, ok := obj.list[name]; ok {
+		return nil, node, nil, "", nil
+	}
+
+	names := []string{}
+	for oneName := range obj.list {
+		names = append(names, oneName)
+	}
+
+	// scan the sub nodes in order, in order to always select the same one:
+	sort.Strings(names)
+	for _, oneName := range names {
+		node := obj.list[oneName]
 		root, subNode, container, content, err := node.Scan(name)
 		if err != nil {
 			continue
-- 
2.43.0


From 91f553daaba7c40b90ea1b1843570ca04c36e1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:25 +0000
Subject: [PATCH 24/37] fix: keep the replacements of a script out of the other
 scripts

---
 applications/languages/lexers/application.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/applications/languages/lexers/application.go b/applications/languages/lexers/application.go
index 76a54b8..c3ae905 100644
--- a/applications/languages/lexers/application.go
+++ b/applications/languages/lexers/application.go
@@ -369,6 +369,12 @@ func (app *application) fetchReplacementPaths(
 		return replacementPaths, nil
 	}
 
+	// copy the paths, so that the replacements only apply to the given references:
+	output := map[string]asts_paths.Path{}
+	for name, onePath := range replacementPaths {
+		output[name] = onePath
+	}
+
 	repList := references.Replacements().All()
 	for _, oneReplacement := range repList {
 		localTokenName := oneReplacement.LocalToken()
@@ -377,16 +383,16 @@ func (app *application) fetchReplacementPaths(
 			return nil, err
 		}
 
-		refPath, err := app.path(resPath, replacementPaths, true)
+		refPath, err := app.path(resPath, output, true)
 		if err != nil {
 			return nil, err
 		}
 
 		refTokenName := oneReplacement.ReferenceToken()
-		replacementPaths[refTokenName] = refPath
+		output[refTokenName] = refPath
 	}
 
-	return replacementPaths, nil
+	return output, nil
 }
 
 func (app *application) fetchNotFoundPaths(
-- 
2.43.0


From 71a4e634945a1ca4fd816d5377bbcf64bd83393a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:52 +0000
Subject: [PATCH 25/37] fix: only accept scripts whose text matches after their
 prefix

---
 domain/languages/lexers/asts/adapter.go | 41 +++++++++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/domain/languages/lexers/asts/adapter.go b/domain/languages/lexers/asts/adapter.go
index 4e86616..9d493ed 100644
--- a/domain/languages/lexers/asts/adapter.go
+++ b/domain/languages/lexers/asts/adapter.go
@@ -3,6 +3,7 @@ package asts
 import (
 	"errors"
 	"fmt"
+	"strings"
 
 	"github.com/steve-care-software/steve/domain/languages/lexers/asts/mistakes"
 	ast_results "github.com/steve-care-software/steve/domain/languages/lexers/asts/results"
@@ -66,6 +67,14 @@ func (app *adapter) ToAST(script string) (AST, error) {
 		return nil, err
 	}
 
+	if mistake == nil && !astToken.IsValid() {
+		// the token is only valid if it matches the script that follows its prefix:
+		astToken, mistake, err = app.skipPrefix(astToken, script)
+		if err != nil {
+			return nil, err
+		}
+	}
+
 	builder := app.builder.Create()
 	if mistake != nil {
 		return builder.WithMistake(mistake).Now()
@@ -79,6 +88,38 @@ func (app *adapter) ToAST(script string) (AST, error) {
 	return builder.WithSuccess(token).Now()
 }
 
+func (app *adapter) skipPrefix(astToken ast_tokens.Token, script string) (ast_tokens.Token, mistakes.Mistake, error) {
+	mistake, err := app.mistakeAdapter.ToMistake(astToken, false)
+	if err != nil {
+		return nil, nil, err
+	}
+
+	if mistake == nil {
+		str := fmt.Sprintf("the token (name: %s) is invalid", astToken.Name())
+		return nil, nil, errors.New(str)
+	}
+
+	if !mistake.Content().IsContainsPrefix() {
+		return astToken, mistake, nil
+	}
+
+	prefix := mistake.Content().ContainsPrefix().Prefix()
+	if !strings.HasPrefix(script, prefix) {
+		return astToken, mistake, nil
+	}
+
+	withoutPrefix, err := app.astTokenAdapter.ToToken(script[len(prefix):])
+	if err != nil {
+		return nil, nil, err
+	}
+
+	if !withoutPrefix.IsValid() {
+		return astToken, mistake, nil
+	}
+
+	return withoutPrefix, nil, nil
+}
+
 func (app *adapter) toToken(token ast_tokens.Token) (Token, error) {
 	name := token.Name()
 	must := token.Content().Must()
-- 
2.43.0


From 47c0288f11f6736814804be069973e2dc3caf9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:12 +0000
Subject: [PATCH 26/37] fix: return an error on includes with a single path

---
 domain/languages/lexers/references/adapter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/domain/languages/lexers/references/adapter.go b/domain/languages/lexers/references/adapter.go
index b7c9417..18f03c1 100644
--- a/domain/languages/lexers/references/adapter.go
+++ b/domain/languages/lexers/references/adapter.go
@@ -108,7 +108,7 @@ func (app *adapter) includes(content string) (map[string]links.Include, error) {
 		pathStrings := strings.Split(oneMatch[2], app.pathSeparator)
 		amount := len(pathStrings)
 		name := oneMatch[1]
-		if amount > 3 {
+		if amount < 2 || amount > 3 {
 			str := fmt.Sprintf("the include (name: %s) must contain {2,3} (rules, tokens, channels (optional)) paths, %d paths provided", name, amount)
 			return nil, errors.New(str)
 		}
-- 
2.43.0


From 82792bf9970e3f89328c2ca67b58a21f597d318f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:43 +0000
Subject: [PATCH 27/37] fix: only reject the not blocks that match

---
 domain/languages/lexers/asts/mistakes/adapter.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/domain/languages/lexers/asts/mistakes/adapter.go b/domain/languages/lexers/asts/mistakes/adapter.go
index b537823..419209a 100644
--- a/domain/languages/lexers/asts/mistakes/adapter.go
+++ b/domain/languages/lexers/asts/mistakes/adapter.go
@@ -69,12 +69,13 @@ func (app *adapter) token(parentTokenNames []string, result tokens.Token, canCon
 	dependencies := result.Path().Dependencies()
 	if content.HasNot() {
 		not := content.Not()
-		notMistake, err := app.lineMatchAndResetCurrentScript(parentTokenNames, name, not, dependencies, canContainPrefix)
+		_, err := app.lineMatchAndResetCurrentScript(parentTokenNames, name, not, dependencies, canContainPrefix)
 		if err != nil {
 			return nil, err
 		}
 
-		if notMistake == nil {
+		// a not line that only matches after a prefix is not a match:
+		if not.Matches().IsValid() {
 			index := not.Index()
 			containsValidNotMatch, err := app.containsValidNotMatchBuilder.Create().WithLine(index).Now()
 			if err != nil {
-- 
2.43.0


From 496f654aa009a77c69066197d074d52c01d4fa22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:55 +0000
Subject: [PATCH 28/37] fix: keep the channel switches that directly follow an
 element

---
 .../lexers/containers/tokens/adapter.go        | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/domain/languages/lexers/containers/tokens/adapter.go b/domain/languages/lexers/containers/tokens/adapter.go
index 88da9ad..07f6f3f 100644
--- a/domain/languages/lexers/containers/tokens/adapter.go
+++ b/domain/languages/lexers/containers/tokens/adapter.go
@@ -413,15 +413,6 @@ func (app *adapter) instructions(content string) ([]Instruction, error) {
 		ruleMatches := oneMatch[index:]
 
 		instructionBuilder := app.instructionBuilder.Create()
-		if oneMatch[0] == app.switchChannelCharacter {
-			ins, err := instructionBuilder.IsChannelSwitch().Now()
-			if err != nil {
-				return nil, err
-			}
-
-			out = append(out, ins)
-		}
-
 		if tokenMatches[0] != "" {
 			tokenElement, err := app.tokenElement(tokenMatches)
 			if err != nil {
@@ -450,6 +441,15 @@ func (app *adapter) instructions(content string) ([]Instruction, error) {
 			out = append(out, ins)
 		}
 
+		// the switch can directly follow an element:
+		if strings.HasSuffix(oneMatch[0], app.switchChannelCharacter) {
+			ins, err := app.instructionBuilder.Create().IsChannelSwitch().Now()
+			if err != nil {
+				return nil, err
+			}
+
+			out = append(out, ins)
+		}
 	}
 
 	return out, nil
-- 
2.43.0


From 0714c59fc1c6a44d922fbbc8295817b12c3059fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:53 +0000
Subject: [PATCH 29/37] fix: find the next element of left recursive tokens

---
 .../languages/lexers/asts/tokens/adapter.go   | 67 +++++++++++++------
 1 file changed, 48 insertions(+), 19 deletions(-)

diff --git a/domain/languages/lexers/asts/tokens/adapter.go b/domain/languages/lexers/asts/tokens/adapter.go
index 27d3f78..900e79c 100644
--- a/domain/languages/lexers/asts/tokens/adapter.go
+++ b/domain/languages/lexers/asts/tokens/adapter.go
@@ -444,44 +444,73 @@ func (app *adapter) buildNextElement(container paths.Container, dep paths.Depend
 }
 
 func (app *adapter) buildNextElementFromTokenName(name string, dep paths.Dependencies) (NextElement, error) {
-	rule, err := app.fetchFirstRuleFromTokenName(name, dep)
+	rule, err := app.fetchFirstRuleFromTokenName(name, dep, map[string]bool{})
 	if err != nil {
 		return nil, err
 	}
 
+	if rule == nil {
+		str := fmt.Sprintf("the token (name: %s) does not contain any rule", name)
+		return nil, errors.New(str)
+	}
+
 	return app.buildNextElementFromRule(rule)
 }
 
-func (app *adapter) fetchFirstRuleFromTokenName(name string, dep paths.Dependencies) (rules.Rule, error) {
-	tokenPath, err := dep.Fetch(name)
-	if err != nil {
-		return nil, err
+// fetchFirstRuleFromTokenName returns the first rule of the token, without visiting a token twice, or nil if there is none
+func (app *adapter) fetchFirstRuleFromTokenName(name string, dep paths.Dependencies, visited map[string]bool) (rules.Rule, error) {
+	if visited[name] {
+		return nil, nil
 	}
 
-	mustLines := tokenPath.Must()
-	firstContainer, err := app.fetchFirstContainerFromLine(mustLines[0])
+	visited[name] = true
+	tokenPath, err := dep.Fetch(name)
 	if err != nil {
 		return nil, err
 	}
 
-	if firstContainer.IsToken() {
-		nextToken := firstContainer.Token().Path().Element().Name()
-		return app.fetchFirstRuleFromTokenName(nextToken, dep)
-	}
+	for _, oneLine := range tokenPath.Must() {
+		rule, err := app.fetchFirstRuleFromLine(oneLine, dep, visited)
+		if err != nil {
+			return nil, err
+		}
 
-	if firstContainer.IsRule() {
-		return firstContainer.Rule().Base(), nil
+		if rule != nil {
+			return rule, nil
+		}
 	}
 
-	recursiveToken := firstContainer.Recursive().Name()
-	return app.fetchFirstRuleFromTokenName(recursiveToken, dep)
-
+	return nil, nil
 }
-func (app *adapter) fetchFirstContainerFromLine(line paths.Line) (paths.Container, error) {
+
+func (app *adapter) fetchFirstRuleFromLine(line paths.Line, dep paths.Dependencies, visited map[string]bool) (rules.Rule, error) {
 	instructions := line.Instructions()
 	for _, oneInstruction := range instructions {
-		if oneInstruction.IsContainer() {
-			return oneInstruction.Container(), nil
+		if !oneInstruction.IsContainer() {
+			continue
+		}
+
+		container := oneInstruction.Container()
+		if container.IsRule() {
+			return container.Rule().Base(), nil
+		}
+
+		name := ""
+		if container.IsToken() {
+			name = container.Token().Path().Element().Name()
+		}
+
+		if container.IsRecursive() {
+			name = container.Recursive().Name()
+		}
+
+		rule, err := app.fetchFirstRuleFromTokenName(name, dep, visited)
+		if err != nil {
+			return nil, err
+		}
+
+		if rule != nil {
+			return rule, nil
 		}
 	}
 
-- 
2.43.0


From c0099e2410fa982e40f81f1250d0ec594ce767cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:09 +0000
Subject: [PATCH 30/37] fix: read the included grammars with the patterns of
 the grammar that includes them

---
 applications/languages/lexers/application.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/applications/languages/lexers/application.go b/applications/languages/lexers/application.go
index c3ae905..7760dfb 100644
--- a/applications/languages/lexers/application.go
+++ b/applications/languages/lexers/application.go
@@ -407,7 +407,7 @@ func (app *application) fetchNotFoundPaths(
 
 	refList := references.References().All()
 	for _, oneReference := range refList {
-		path, err := app.linkToPathFromFile(oneReference, replacementPaths)
+		path, err := app.linkToPathFromFile(oneReference, resContainer, replacementPaths)
 		if err != nil {
 			return nil, err
 		}
@@ -421,6 +421,7 @@ func (app *application) fetchNotFoundPaths(
 
 func (app *application) linkToPathFromFile(
 	reference links.Link,
+	parentContainer resources_containers.Container,
 	replacements map[string]asts_paths.Path,
 ) (asts_paths.Path, error) {
 	applicationBuilder := app.builder.Create()
@@ -446,7 +447,8 @@ func (app *application) linkToPathFromFile(
 		return nil, err
 	}
 
-	resContainer, err := app.resourcesContainerBuilder.Create().WithRules(string(rulesContent)).WithTokens(string(tokenContent)).Now()
+	// the includes do not contain patterns, so their rules use the patterns of the grammar that includes them:
+	resContainer, err := app.resourcesContainerBuilder.Create().WithPatterns(parentContainer.Patterns()).WithRules(string(rulesContent)).WithTokens(string(tokenContent)).Now()
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From bebfdd424e2aa9d8b8d7c12421b4bd4608aac5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:27 +0000
Subject: [PATCH 31/37] fix: refuse the includes that include themselves

---
 applications/languages/lexers/application.go | 24 ++++++++++++--------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/applications/languages/lexers/application.go b/applications/languages/lexers/application.go
index 7760dfb..64b29a0 100644
--- a/applications/languages/lexers/application.go
+++ b/applications/languages/lexers/application.go
@@ -1,6 +1,8 @@
 package lexers
 
 import (
+	"errors"
+	"fmt"
 	"io/ioutil"
 	"path/filepath"
 
@@ -38,6 +40,7 @@ type application struct {
 	builder                   Builder
 	basePath                  paths.Paths
 	replacementPaths          map[string]asts_paths.Path
+	tokenPaths                []string
 }
 
 func createApplication(
@@ -424,16 +427,6 @@ func (app *application) linkToPathFromFile(
 	parentContainer resources_containers.Container,
 	replacements map[string]asts_paths.Path,
 ) (asts_paths.Path, error) {
-	applicationBuilder := app.builder.Create()
-	if len(replacements) > 0 {
-		applicationBuilder.WithReplacementPaths(replacements)
-	}
-
-	application, err := applicationBuilder.WithBasePaths(app.basePath).Now()
-	if err != nil {
-		return nil, err
-	}
-
 	includePaths := reference.Include().Paths()
 	rulesPath := filepath.Join(app.basePath.Rules(), includePaths.Rules())
 	rulesContent, err := ioutil.ReadFile(rulesPath)
@@ -441,7 +434,15 @@ func (app *application) linkToPathFromFile(
 		return nil, err
 	}
 
+	// an include that is reached while it is being read would never end:
 	tokenPath := filepath.Join(app.basePath.Tokens(), includePaths.Tokens())
+	for _, oneTokenPath := range app.tokenPaths {
+		if oneTokenPath == tokenPath {
+			str := fmt.Sprintf("the include (name: %s) is cyclic: its tokens (path: %s) include themselves", reference.Include().Name(), tokenPath)
+			return nil, errors.New(str)
+		}
+	}
+
 	tokenContent, err := ioutil.ReadFile(tokenPath)
 	if err != nil {
 		return nil, err
@@ -459,6 +460,9 @@ func (app *application) linkToPathFromFile(
 		return nil, err
 	}
 
+	application := *app
+	application.replacementPaths = replacements
+	application.tokenPaths = append(append([]string{}, app.tokenPaths...), tokenPath)
 	refPath, err := application.Path(resPath)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 2f49295d16a4ad2af8e1f1595cc7d60d1c17b876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:06 +0000
Subject: [PATCH 32/37] fix: unescape the quotes inside of the options of
 groups

---
 domain/languages/lexers/containers/patterns/adapter.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/domain/languages/lexers/containers/patterns/adapter.go b/domain/languages/lexers/containers/patterns/adapter.go
index 875753d..473f652 100644
--- a/domain/languages/lexers/containers/patterns/adapter.go
+++ b/domain/languages/lexers/containers/patterns/adapter.go
@@ -490,12 +490,8 @@ func (app *adapter) findGroups(content string) (Groups, error) {
 		characters := []string{}
 		options := strings.Split(oneMatch[2], app.delimiter)
 		for _, oneOption := range options {
-
-			if oneOption == app.escapeReplacementCode {
-				oneOption = app.stringDelimiter
-			}
-
-			characters = append(characters, oneOption)
+			option := strings.Replace(oneOption, app.escapeReplacementCode, app.stringDelimiter, -1)
+			characters = append(characters, option)
 		}
 
 		group, err := app.groupBuilder.Create().WithName(oneMatch[1]).WithList(characters).Now()
-- 
2.43.0


From d48c8fcb693a6f8360c54f9dc124c50d7290a360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:50 +0000
Subject: [PATCH 33/37] fix: keep the constants that contain three hashes

---
 domain/languages/lexers/containers/patterns/sdk.go | 2 +-
 domain/languages/lexers/containers/rules/sdk.go    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/domain/languages/lexers/containers/patterns/sdk.go b/domain/languages/lexers/containers/patterns/sdk.go
index 0972d4e..1e25847 100644
--- a/domain/languages/lexers/containers/patterns/sdk.go
+++ b/domain/languages/lexers/containers/patterns/sdk.go
@@ -23,7 +23,7 @@ func NewAdapter() Adapter {
 	stringDelimiter := "\""
 	whiteSpacePattern := "[ \t\r\n]*"
 	anythingExcept := "[^%s]*"
-	escapeReplacementCode := "###"
+	escapeReplacementCode := "\x00"
 	return createAdapter(
 		builder,
 		patternBuilder,
diff --git a/domain/languages/lexers/containers/rules/sdk.go b/domain/languages/lexers/containers/rules/sdk.go
index edd76e7..db1d9a7 100644
--- a/domain/languages/lexers/containers/rules/sdk.go
+++ b/domain/languages/lexers/containers/rules/sdk.go
@@ -28,7 +28,7 @@ func NewAdapter() Adapter {
 	contentDelimiter := "\""
 	openRegexPatternDelimiter := "\\["
 	closeRegexPatternDelimiter := "\\]"
-	escapeReplacementCode := "###"
+	escapeReplacementCode := "\x00"
 	return createAdapter(
 		builder,
 		ruleBuilder,
-- 
2.43.0


From 0bb2ad69951c54e8e10fd8924a8c498ebda11e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:30 +0000
Subject: [PATCH 34/37] fix: skip a channel that is already being evaluated on
 the same script, as a channel that contains a channel switch overflowed the
 stack

---
 .../languages/lexers/asts/tokens/adapter.go   | 29 ++++++++++++++++---
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/domain/languages/lexers/asts/tokens/adapter.go b/domain/languages/lexers/asts/tokens/adapter.go
index 900e79c..1f59b22 100644
--- a/domain/languages/lexers/asts/tokens/adapter.go
+++ b/domain/languages/lexers/asts/tokens/adapter.go
@@ -37,6 +37,7 @@ type adapter struct {
 	canContainPrefix          bool
 	canContainSuffix          bool
 	recursiveTokens           map[string]string
+	evaluatedChannels         map[string]string
 }
 
 func createAdapterWithChannels(
@@ -192,6 +193,7 @@ func createAdapterInternally(
 		canContainPrefix:          canContainPrefix,
 		canContainSuffix:          canContainSuffix,
 		recursiveTokens:           map[string]string{},
+		evaluatedChannels:         map[string]string{},
 	}
 
 	return &out
@@ -206,6 +208,7 @@ func (app *adapter) ToToken(script string) (Token, error) {
 	}()
 
 	app.recursiveTokens = map[string]string{}
+	app.evaluatedChannels = map[string]string{}
 	return app.elementToToken(app.rootPath.Element(), app.rootPath.Dependencies(), script, true)
 }
 
@@ -311,14 +314,13 @@ func (app *adapter) findMatchesInChannels(script string) (LineMatch, error) {
 	// evaluate the channels in order, in order to always select the same one:
 	sort.Strings(names)
 	for _, oneName := range names {
-		oneChannel := app.channels[oneName]
-		token, err := app.elementToToken(oneChannel.Element(), oneChannel.Dependencies(), script, false)
+		token, err := app.channelToToken(oneName, script)
 		if err != nil {
 			return nil, err
 		}
 
-		// if the token is invalid:
-		if !token.IsValid() {
+		// if the channel is already being evaluated on this script, or its token is invalid:
+		if token == nil || !token.IsValid() {
 			continue
 		}
 
@@ -329,6 +331,25 @@ func (app *adapter) findMatchesInChannels(script string) (LineMatch, error) {
 	return nil, nil
 }
 
+func (app *adapter) channelToToken(name string, script string) (Token, error) {
+	previousScript, isEvaluated := app.evaluatedChannels[name]
+	if isEvaluated && previousScript == script {
+		return nil, nil
+	}
+
+	// flag the script while the channel is evaluated, then restore the previous one:
+	app.evaluatedChannels[name] = script
+	defer func() {
+		delete(app.evaluatedChannels, name)
+		if isEvaluated {
+			app.evaluatedChannels[name] = previousScript
+		}
+	}()
+
+	channel := app.channels[name]
+	return app.elementToToken(channel.Element(), channel.Dependencies(), script, false)
+}
+
 func (app *adapter) lineToMatches(line paths.Line, dependencies paths.Dependencies, script string, chansAreActivated bool) (Matches, error) {
 	matches := []BlockMatch{}
 	instructions := line.Instructions()
-- 
2.43.0


From 850381780cfac45d8c119daa030b40e20ca83f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:12 +0000
Subject: [PATCH 35/37] fix: a new variable whose name begins with a type was
 read as a declaration

---
 domain/languages/scripts/resources/base/tokens.alex | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/domain/languages/scripts/resources/base/tokens.alex b/domain/languages/scripts/resources/base/tokens.alex
index 1f420b1..52d69cd 100644
--- a/domain/languages/scripts/resources/base/tokens.alex
+++ b/domain/languages/scripts/resources/base/tokens.alex
@@ -471,8 +471,8 @@ commaAssigneeFirst
     ;
 
 assigneeNameFirst
-    : variableDeclaration
-    | assigneeName
+    : assigneeName
+    | variableDeclaration
     +++
     :
         string myVariable
-- 
2.43.0


From be3d078300a4553107b075a00b42566a76a84da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:52 +0000
Subject: [PATCH 36/37] fix: keep the constants of rules that contain a
 semicolon

---
 domain/languages/lexers/containers/rules/adapter.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/domain/languages/lexers/containers/rules/adapter.go b/domain/languages/lexers/containers/rules/adapter.go
index 7b991d5..b38d393 100644
--- a/domain/languages/lexers/containers/rules/adapter.go
+++ b/domain/languages/lexers/containers/rules/adapter.go
@@ -92,12 +92,14 @@ func (app *adapter) Rules(content string, patterns patterns.Patterns) (Rules, er
 }
 
 func (app *adapter) rulesList(content string, patterns patterns.Patterns) ([]Rule, error) {
-	// find the rules:
+	// find the rules, a constant may contain the end character:
 	anythingExceptionEnd := fmt.Sprintf(app.anythingExcept, app.end)
 	patternStr := fmt.Sprintf(
-		"(%s)%s(%s)%s",
+		"(%[1]s)%[2]s(%[3]s%[4]s(?s:\\\\%[4]s|.)*?%[4]s%[3]s|%[5]s)%[6]s",
 		app.rulePattern,
 		app.begin,
+		app.whiteSpacePattern,
+		app.contentDelimiter,
 		anythingExceptionEnd,
 		app.end,
 	)
-- 
2.43.0


From c8a7e5760b7d1050257367291532925cff7052a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:00 +0000
Subject: [PATCH 37/37] fix: keep the options of groups that contain a
 semicolon

---
 domain/languages/lexers/containers/patterns/adapter.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/domain/languages/lexers/containers/patterns/adapter.go b/domain/languages/lexers/containers/patterns/adapter.go
index 473f652..5bb230f 100644
--- a/domain/languages/lexers/containers/patterns/adapter.go
+++ b/domain/languages/lexers/containers/patterns/adapter.go
@@ -466,15 +466,14 @@ func (app *adapter) findSeries(groups Groups, content string) (map[string]Serie,
 }
 
 func (app *adapter) findGroups(content string) (Groups, error) {
-	anythingExceptEnd := fmt.Sprintf(app.anythingExcept, app.suffix)
+	// the options may contain the suffix:
 	patternStr := fmt.Sprintf(
-		"(%s)%s?%s%s?%s(%s)%s%s?%s",
+		"(%s)%s?%s%s?%s((?s:.*?))%s%s?%s",
 		app.groupNamePattern,
 		app.whiteSpacePattern,
 		app.prefix,
 		app.whiteSpacePattern,
 		app.stringDelimiter,
-		anythingExceptEnd,
 		app.stringDelimiter,
 		app.whiteSpacePattern,
 		app.suffix,
-- 
2.43.0

