From a587edc5fc7886f0d45455512cad077d07c15c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:48 +0000
Subject: [PATCH 01/45] fix: an unwalkable value in one line no longer loses
 all later rows

---
 flatjsonl/reader.go | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/flatjsonl/reader.go b/flatjsonl/reader.go
index 08cccda..48921af 100644
--- a/flatjsonl/reader.go
+++ b/flatjsonl/reader.go
@@ -350,11 +350,11 @@ func (rd *Reader) doLine(w *syncWorker, seq, n int64, sess *readSession) error {
 			atomic.AddInt64(&rd.Processor.errors, 1)
 			rd.OnError(fmt.Errorf("malformed JSON at line %d: %w: %s", seq, err, string(line)))
 		}
-	} else {
-		if rd.singleKeyPath != nil {
-			w.walker.GetKey(seq, rd.singleKeyFlat, rd.singleKeyPath, pv)
-		} else {
-			w.walker.WalkFastJSON(seq, flatPath, 0, path, pv)
+	} else if err := rd.walkLine(w, seq, flatPath, path, pv); err != nil {
+		atomic.AddInt64(&rd.Processor.errors, 1)
+
+		if rd.OnError != nil {
+			rd.OnError(fmt.Errorf("malformed JSON at line %d: %w: %s", seq, err, string(line)))
 		}
 	}
 
@@ -367,6 +367,23 @@ func (rd *Reader) doLine(w *syncWorker, seq, n int64, sess *readSession) error {
 	return nil
 }
 
+// walkLine passes decoded line to walker callbacks, a value that can not be walked is an error of this line only.
+func (rd *Reader) walkLine(w *syncWorker, seq int64, flatPath []byte, path []string, pv *fastjson.Value) (err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("%v", r) //nolint:err113
+		}
+	}()
+
+	if rd.singleKeyPath != nil {
+		w.walker.GetKey(seq, rd.singleKeyFlat, rd.singleKeyPath, pv)
+	} else {
+		w.walker.WalkFastJSON(seq, flatPath, 0, path, pv)
+	}
+
+	return nil
+}
+
 func (rd *Reader) prefixedLine(seq int64, line []byte, walkFn func(seq int64, flatPath []byte, pl int, path []string, value []byte) extractor) []byte {
 	pos := bytes.Index(line, []byte("{"))
 
-- 
2.43.0


From 5a66a9bc53dc916f75b94aa275b05c4d483a2751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:56 +0000
Subject: [PATCH 02/45] fix: type join is total and order independent

---
 flatjsonl/type.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/flatjsonl/type.go b/flatjsonl/type.go
index c0a3638..7749a40 100644
--- a/flatjsonl/type.go
+++ b/flatjsonl/type.go
@@ -23,12 +23,17 @@ func (t Type) Update(u Type) Type {
 		return u
 	}
 
+	// Same type is not updated, null and absent do not change type.
+	if t == u || u == TypeNull || u == TypeAbsent {
+		return t
+	}
+
+	// Scalar takes over container, regardless of the order.
 	if t == TypeObject || t == TypeArray {
 		return u
 	}
 
-	// Same type is not updated.
-	if t == u {
+	if u == TypeObject || u == TypeArray {
 		return t
 	}
 
@@ -37,8 +42,9 @@ func (t Type) Update(u Type) Type {
 		return TypeString
 	}
 
-	if u == TypeNull {
-		return t
+	// JSON literal and scalar make unconstrained type: string.
+	if u == TypeJSON || t == TypeJSON {
+		return TypeString
 	}
 
 	// Bool and non-bool make unconstrained type: string.
-- 
2.43.0


From 4f078b4a7ecc2120ea2a7208c9277d7bc7668924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:58 +0000
Subject: [PATCH 03/45] fix: high cardinality key does not delete siblings that
 share its name prefix

---
 flatjsonl/keys.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index b381051..b1a84a2 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -440,7 +440,7 @@ func (p *Processor) prepareScannedKeys() {
 				}
 			}
 
-			if len(k.original) > len(hc) && strings.HasPrefix(k.original, hc) {
+			if len(k.original) > len(hc) && strings.HasPrefix(k.original, hc) && k.original[len(hc)] == '.' {
 				p.flKeys.Delete(key)
 
 				deleted[k.original] = true
-- 
2.43.0


From d42b318150a772c762247698cd895587694af105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:23 +0000
Subject: [PATCH 04/45] fix: zero flag starts from the first observed value, so
 that zero columns can be skipped

---
 flatjsonl/keys.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index b1a84a2..31f7f81 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -84,7 +84,7 @@ func (p *Processor) initKey(pk, parent uint64, path []string, t Type, isZero boo
 	key := KeyFromPath(path)
 
 	k.UpdateType(t)
-	k.isZero = k.isZero && isZero
+	k.isZero = isZero
 	k.path = pp
 	k.original = key
 	k.canonical = p.ck(key)
-- 
2.43.0


From 74f32cd0ed094111067fc7a886250f3cf9314e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:24 +0000
Subject: [PATCH 05/45] fix: every observed type of a key is recorded once and
 without a race

---
 flatjsonl/keys.go | 31 +++++++++++++------------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index 31f7f81..ff03e2f 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -29,19 +29,22 @@ type flKey struct {
 }
 
 func (k *flKey) UpdateType(u Type) {
-	if len(k.tt) == 0 {
-		k.tt = append(k.tt, u)
-	} else {
-		for _, t := range k.tt {
-			if t != u {
-				k.tt = append(k.tt, u)
+	if !k.hasType(u) {
+		// Capacity is capped to avoid sharing underlying array between copies of the key.
+		k.tt = append(k.tt[:len(k.tt):len(k.tt)], u)
+	}
 
-				break
-			}
+	k.t = k.t.Update(u)
+}
+
+func (k *flKey) hasType(u Type) bool {
+	for _, t := range k.tt {
+		if t == u {
+			return true
 		}
 	}
 
-	k.t = k.t.Update(u)
+	return false
 }
 
 type intOrString struct {
@@ -140,15 +143,7 @@ func (p *Processor) scanKey(pk, parent uint64, path []string, t Type, isZero boo
 		k = p.initKey(pk, parent, path, t, isZero)
 	}
 
-	updType := false
-
-	if k.t != t {
-		k.UpdateType(t)
-
-		updType = true
-	}
-
-	if updType || (k.isZero && !isZero) {
+	if !k.hasType(t) || (k.isZero && !isZero) {
 		p.mu.Lock()
 		defer p.mu.Unlock()
 
-- 
2.43.0


From ed06b676d8569d75f180a18cc1b00b47cab2c4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:57 +0000
Subject: [PATCH 06/45] fix: column of case variants is kept if any variant has
 values, its name is deterministic

---
 flatjsonl/keys.go | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index ff03e2f..abd273d 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -401,8 +401,8 @@ func (p *Processor) prepareScannedKeys() {
 	}
 
 	var (
-		deleted = map[string]bool{}
-		hcOrig  []string
+		alive  = map[string]bool{}
+		hcOrig []string
 	)
 
 	p.parentHighCardinality.Range(func(key uint64, value bool) bool {
@@ -418,13 +418,16 @@ func (p *Processor) prepareScannedKeys() {
 
 		p.flKeys.Store(key, k)
 
+		// Type that was observed initially is not relevant for JSON literal.
+		if ck, ok := p.canonicalKeys[k.canonical]; ok && ck.original == k.original {
+			p.canonicalKeys[k.canonical] = k
+		}
+
 		return true
 	})
 
 	p.flKeys.Range(func(key uint64, k flKey) bool {
 		if k.t == TypeObject || k.t == TypeArray {
-			deleted[k.original] = true
-
 			return true
 		}
 
@@ -438,12 +441,12 @@ func (p *Processor) prepareScannedKeys() {
 			if len(k.original) > len(hc) && strings.HasPrefix(k.original, hc) && k.original[len(hc)] == '.' {
 				p.flKeys.Delete(key)
 
-				deleted[k.original] = true
-
 				return true
 			}
 		}
 
+		alive[k.canonical] = true
+
 		if p.f.ShowKeysHier {
 			p.keyHierarchy.Add(k.path)
 		}
@@ -458,7 +461,7 @@ func (p *Processor) prepareScannedKeys() {
 	var newFlKeys []string
 
 	for _, key := range p.flKeysList {
-		if !deleted[key] {
+		if alive[p.ck(key)] {
 			newFlKeys = append(newFlKeys, key)
 		}
 	}
@@ -505,9 +508,12 @@ func (p *Processor) flKeysInit() {
 			return true
 		}
 
-		v := p.canonicalKeys[value.canonical]
-		value.isZero = value.isZero && v.isZero
-		value.t = v.t.Update(value.t)
+		// The key that was found first represents all its variants.
+		if v, ok := p.canonicalKeys[value.canonical]; ok {
+			v.isZero = value.isZero && v.isZero
+			v.t = v.t.Update(value.t)
+			value = v
+		}
 
 		p.canonicalKeys[value.canonical] = value
 
-- 
2.43.0


From 2ac2d881275a01a8b9372a2847df69c5db29eeb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:43 +0000
Subject: [PATCH 07/45] fix: single key selection returns the same values as
 selection of many keys

---
 flatjsonl/flattener.go | 23 ++++++++++++++++++-----
 flatjsonl/processor.go |  2 +-
 flatjsonl/reader.go    | 20 +++++---------------
 3 files changed, 24 insertions(+), 21 deletions(-)

diff --git a/flatjsonl/flattener.go b/flatjsonl/flattener.go
index cf74ed7..6531f36 100644
--- a/flatjsonl/flattener.go
+++ b/flatjsonl/flattener.go
@@ -49,12 +49,25 @@ func (fv *FastWalker) configure(p *Processor) {
 	}
 }
 
-// GetKey walks into a single key.
-func (fv *FastWalker) GetKey(seq int64, flatPath []byte, path []string, v *fastjson.Value) {
-	vv := v.Get(path...)
-	if vv != nil {
-		fv.WalkFastJSON(seq, flatPath, 0, path, vv)
+// GetKey walks into a single key, it returns false if there is no value at the path.
+func (fv *FastWalker) GetKey(seq int64, flatPath []byte, path []string, v *fastjson.Value) bool {
+	for _, s := range path {
+		if v.Type() == fastjson.TypeArray {
+			if len(s) < 3 || s[0] != '[' || s[len(s)-1] != ']' {
+				return false
+			}
+
+			s = s[1 : len(s)-1]
+		}
+
+		if v = v.Get(s); v == nil {
+			return false
+		}
 	}
+
+	fv.WalkFastJSON(seq, flatPath, 0, path, v)
+
+	return true
 }
 
 // WalkFastJSON iterates fastjson.Value JSON structure.
diff --git a/flatjsonl/processor.go b/flatjsonl/processor.go
index 9e1f037..c46e04d 100644
--- a/flatjsonl/processor.go
+++ b/flatjsonl/processor.go
@@ -545,7 +545,7 @@ func newWriteIterator(p *Processor, pkIndex map[uint64]int, pkDst map[uint64]str
 	wi.pending = xsync.NewMapOf[int64, *lineBuf]()
 	wi.finished = &sync.Map{}
 
-	if len(p.includeKeys) == 1 {
+	if len(p.includeKeys) == 1 && p.flKeys.Size() == 1 {
 		for _, i := range p.includeKeys {
 			kk := p.keys[i]
 			wi.singleKeyHash = newHasher().hashBytes([]byte("." + strings.Join(kk.path, ".")))
diff --git a/flatjsonl/reader.go b/flatjsonl/reader.go
index 48921af..03c2fc0 100644
--- a/flatjsonl/reader.go
+++ b/flatjsonl/reader.go
@@ -211,20 +211,11 @@ func (rd *Reader) Read(sess *readSession) error {
 		doLineErr error
 	)
 
-	if len(rd.Processor.includeKeys) == 1 && !rd.Processor.f.ExtractStrings {
+	// Direct lookup is only possible if the key was not scanned, otherwise it may have case variants or be extracted.
+	if len(rd.Processor.includeKeys) == 1 && rd.Processor.flKeys.Size() == 1 && !rd.Processor.f.ExtractStrings {
 		for _, i := range rd.Processor.includeKeys {
 			kk := rd.Processor.keys[i]
-			path := make([]string, 0, len(kk.path))
-
-			for _, s := range kk.path {
-				if s[0] == '[' && s[len(s)-1] == ']' {
-					s = s[1 : len(s)-1]
-				}
-
-				path = append(path, s)
-			}
-
-			rd.singleKeyPath = path
+			rd.singleKeyPath = kk.path
 			rd.singleKeyFlat = []byte("." + strings.Join(kk.path, "."))
 		}
 	}
@@ -375,9 +366,8 @@ func (rd *Reader) walkLine(w *syncWorker, seq int64, flatPath []byte, path []str
 		}
 	}()
 
-	if rd.singleKeyPath != nil {
-		w.walker.GetKey(seq, rd.singleKeyFlat, rd.singleKeyPath, pv)
-	} else {
+	// If direct lookup fails, the key may still be spelled with dots in property names.
+	if rd.singleKeyPath == nil || !w.walker.GetKey(seq, rd.singleKeyFlat, rd.singleKeyPath, pv) {
 		w.walker.WalkFastJSON(seq, flatPath, 0, path, pv)
 	}
 
-- 
2.43.0


From c9fe9e8c71f928fab4e6e72ab2eef827b8deb650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:00 +0000
Subject: [PATCH 08/45] fix: listed keys that are transposed or extracted are
 scanned first

---
 flatjsonl/processor.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flatjsonl/processor.go b/flatjsonl/processor.go
index c46e04d..d1527c1 100644
--- a/flatjsonl/processor.go
+++ b/flatjsonl/processor.go
@@ -257,7 +257,9 @@ func (p *Processor) Process() error {
 
 // PrepareKeys runs first pass of reading if necessary to scan the keys.
 func (p *Processor) PrepareKeys() error {
-	if len(p.includeRegex) == 0 && len(p.cfg.IncludeKeys) > 0 {
+	// Transposed and extracted keys are only known after a scan.
+	if len(p.includeRegex) == 0 && len(p.cfg.IncludeKeys) > 0 &&
+		len(p.extractRegex) == 0 && len(p.cfg.Transpose) == 0 {
 		p.iterateIncludeKeys()
 	} else {
 		p.pr.Reset()
-- 
2.43.0


From 7a61ffc259f1b5f6d7a6b7f70275e8cd1090eb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:00 +0000
Subject: [PATCH 09/45] fix: line offset is applied when keys are not scanned

---
 flatjsonl/processor.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/flatjsonl/processor.go b/flatjsonl/processor.go
index d1527c1..d221555 100644
--- a/flatjsonl/processor.go
+++ b/flatjsonl/processor.go
@@ -467,6 +467,7 @@ func (p *Processor) iterateForWriters() error {
 	})
 
 	p.rd.MaxLines = 0
+	p.rd.OffsetLines = int64(p.f.OffsetLines)
 	atomic.StoreInt64(&p.rd.Sequence, 0)
 	atomic.StoreInt64(&p.errors, 0)
 
-- 
2.43.0


From fb708600dffead128d0404821c0128c467888f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:20 +0000
Subject: [PATCH 10/45] fix: automatic names of keys without latin letters and
 of constants do not panic

---
 flatjsonl/keys.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index abd273d..99d2bb6 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -765,11 +765,8 @@ func (p *Processor) prepareKey(origKey string) (kk string) {
 	snk := strings.Trim(ski, "[]")
 
 	for {
-		if len(snk) == 0 {
-			panic("BUG: empty snk for '" + origKey + "'")
-		}
-
-		if stored, ok := p.replaceByKey[snk]; (!ok || origKey == stored) && (snk[0] == '_' || unicode.IsLetter(rune(snk[0]))) {
+		stored, ok := p.replaceByKey[snk]
+		if snk != "" && (!ok || origKey == stored) && (snk[0] == '_' || unicode.IsLetter(rune(snk[0]))) {
 			p.replaceByKey[snk] = origKey
 			origKey = snk
 
@@ -778,7 +775,7 @@ func (p *Processor) prepareKey(origKey string) (kk string) {
 
 		i--
 
-		if i == 0 {
+		if i <= 0 {
 			break
 		}
 
-- 
2.43.0


From 2b6f4b36a7ef277d16d4ced1a6ddf52e6c83e9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:46 +0000
Subject: [PATCH 11/45] fix: names truncated by key limit stay unique

---
 flatjsonl/keys.go      | 32 +++++++++++++++++++++++++++-----
 flatjsonl/processor.go |  1 +
 2 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index 99d2bb6..306f614 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -9,6 +9,7 @@ import (
 	"strings"
 	"sync/atomic"
 	"unicode"
+	"unicode/utf8"
 
 	"github.com/cespare/xxhash/v2"
 )
@@ -632,12 +633,14 @@ func (p *Processor) prepareKeys() {
 
 	p.replaceKeys = make(map[string]string)
 	p.replaceByKey = make(map[string]string)
+	p.usedNames = make(map[string]bool)
 
 	for k, r := range p.cfg.ReplaceKeys {
 		mk := p.ck(k)
 
 		p.replaceByKey[r] = mk
 		p.replaceKeys[mk] = r
+		p.usedNames[r] = true
 	}
 
 	type ik struct {
@@ -721,13 +724,12 @@ func (p *Processor) prepareKey(origKey string) (kk string) {
 
 	defer func() {
 		if p.f.KeyLimit > 0 && len(kk) > p.f.KeyLimit {
-			i := p.includeKeys[kk]
-			is := strconv.Itoa(i)
-
-			kk = kk[0:(p.f.KeyLimit-len(is))] + is
-
+			kk = p.limitKey(kk)
 			p.replaceKeys[ck] = kk
+			p.replaceByKey[kk] = ck
 		}
+
+		p.usedNames[kk] = true
 	}()
 
 	for reg, rep := range p.replaceRegex {
@@ -786,6 +788,26 @@ func (p *Processor) prepareKey(origKey string) (kk string) {
 	return origKey
 }
 
+// limitKey truncates key name and adds a number to have a name that is not used by another key.
+func (p *Processor) limitKey(kk string) string {
+	for i := 0; ; i++ {
+		is := strconv.Itoa(i)
+		l := p.f.KeyLimit - len(is)
+
+		if l < 0 {
+			return kk // Out of short names.
+		}
+
+		for l > 0 && !utf8.RuneStart(kk[l]) {
+			l--
+		}
+
+		if name := kk[:l] + is; !p.usedNames[name] {
+			return name
+		}
+	}
+}
+
 var (
 	matchFirstCap        = regexp.MustCompile("(.)([A-Z][a-z]+)")
 	matchAllCap          = regexp.MustCompile("([a-z0-9])([A-Z])")
diff --git a/flatjsonl/processor.go b/flatjsonl/processor.go
index d221555..3fcd32a 100644
--- a/flatjsonl/processor.go
+++ b/flatjsonl/processor.go
@@ -45,6 +45,7 @@ type Processor struct {
 
 	replaceKeys  map[string]string
 	replaceByKey map[string]string
+	usedNames    map[string]bool
 
 	// keys are ordered by replaced column names, indexes match values of includeKeys.
 	keys []flKey
-- 
2.43.0


From aa10f9fb91d5c2a23d2690637a76f93d302d07f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:17 +0000
Subject: [PATCH 12/45] fix: automatic names do not collide with names made by
 expressions

---
 flatjsonl/keys.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index 306f614..ca797cb 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -662,6 +662,11 @@ func (p *Processor) prepareKeys() {
 		return len(sorted[i].orig) < len(sorted[j].orig)
 	})
 
+	// Keys that match replace expressions take their names before automatic names are made.
+	sort.SliceStable(sorted, func(i, j int) bool {
+		return p.matchReplaceRegex(sorted[i].orig) && !p.matchReplaceRegex(sorted[j].orig)
+	})
+
 	for _, v := range sorted {
 		origKey := v.orig
 
@@ -715,6 +720,16 @@ func (p *Processor) prepareKeys() {
 	p.keys = keys
 }
 
+func (p *Processor) matchReplaceRegex(key string) bool {
+	for reg := range p.replaceRegex {
+		if reg.MatchString(key) {
+			return true
+		}
+	}
+
+	return false
+}
+
 func (p *Processor) prepareKey(origKey string) (kk string) {
 	ck := p.ck(origKey)
 
@@ -753,6 +768,8 @@ func (p *Processor) prepareKey(origKey string) (kk string) {
 				kr = toSnakeCase(strings.TrimSuffix(kr, "|to_snake_case"))
 			}
 
+			p.replaceByKey[kr] = origKey
+
 			return kr
 		}
 	}
-- 
2.43.0


From c663ea0f7817e009f96a6086c1302d0b8a25040e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:26 +0000
Subject: [PATCH 13/45] fix: PostgreSQL dump of rows that fill all part tables
 completely

---
 flatjsonl/pg_dump_writer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatjsonl/pg_dump_writer.go b/flatjsonl/pg_dump_writer.go
index bd5108e..02de49c 100644
--- a/flatjsonl/pg_dump_writer.go
+++ b/flatjsonl/pg_dump_writer.go
@@ -196,7 +196,7 @@ func (c *PGDumpWriter) insert(seq int64, tn string, values []string) error {
 	tw := c.csvCopiers[tableName]
 
 	for {
-		if len(values) < c.maxCols {
+		if len(values) <= c.maxCols {
 			row := make([]string, 0, len(values)+1)
 			row = append(row, strconv.Itoa(int(seq)))
 			row = append(row, values...)
-- 
2.43.0


From 738e9514bca3d7dbd0db239bbd0f55b39b324211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:28 +0000
Subject: [PATCH 14/45] fix: null does not take part in coalesce and
 concatenation

---
 flatjsonl/processor.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/flatjsonl/processor.go b/flatjsonl/processor.go
index 3fcd32a..8654c84 100644
--- a/flatjsonl/processor.go
+++ b/flatjsonl/processor.go
@@ -747,12 +747,16 @@ func (wi *writeIterator) setValue(v Value, pk uint64, l *lineBuf) {
 	ev := l.values[i]
 	t := ev.Type
 
-	if t == TypeAbsent {
+	if t == TypeAbsent || t == TypeNull {
 		l.values[i] = v
 
 		return
 	}
 
+	if v.Type == TypeNull {
+		return
+	}
+
 	if wi.p.cfg.ConcatDelimiter != nil && v.Type != TypeAbsent {
 		cv := Value{
 			Type:   TypeString,
-- 
2.43.0


From e8d210c8a0760857e3ad4a32839633af54f00c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:07 +0000
Subject: [PATCH 15/45] fix: errors of final flush, commit and close of outputs
 are reported

---
 flatjsonl/csv_writer.go    | 11 +++++------
 flatjsonl/raw_writer.go    | 15 ++++-----------
 flatjsonl/sqlite_writer.go |  3 ++-
 3 files changed, 11 insertions(+), 18 deletions(-)

diff --git a/flatjsonl/csv_writer.go b/flatjsonl/csv_writer.go
index e65f6be..430e6fa 100644
--- a/flatjsonl/csv_writer.go
+++ b/flatjsonl/csv_writer.go
@@ -2,6 +2,7 @@ package flatjsonl
 
 import (
 	"encoding/csv"
+	"errors"
 	"fmt"
 )
 
@@ -127,13 +128,11 @@ func (c *CSVWriter) ReceiveRow(seq int64, values []Value) error {
 func (c *CSVWriter) Close() error {
 	c.w.Flush()
 
-	for _, tw := range c.transposed {
-		tw.w.Flush()
+	err := c.w.Error()
 
-		if err := tw.f.Close(); err != nil {
-			println("failed to close transpose CSV file: " + err.Error())
-		}
+	for _, tw := range c.transposed {
+		err = errors.Join(err, tw.Close())
 	}
 
-	return c.f.Close()
+	return errors.Join(err, c.f.Close())
 }
diff --git a/flatjsonl/raw_writer.go b/flatjsonl/raw_writer.go
index 0f7916d..b27e7ab 100644
--- a/flatjsonl/raw_writer.go
+++ b/flatjsonl/raw_writer.go
@@ -2,6 +2,7 @@ package flatjsonl
 
 import (
 	"bufio"
+	"errors"
 	"fmt"
 )
 
@@ -115,19 +116,11 @@ func (c *RawWriter) writeRow(row []string) error {
 
 // Close flushes rows and closes file.
 func (c *RawWriter) Close() error {
-	if err := c.w.Flush(); err != nil {
-		return fmt.Errorf("failed to flush RAW file: %w", err)
-	}
+	err := c.w.Flush()
 
 	for _, tw := range c.transposed {
-		if err := tw.w.Flush(); err != nil {
-			return fmt.Errorf("failed to flush transposed RAW file: %w", err)
-		}
-
-		if err := tw.f.Close(); err != nil {
-			println("failed to close transposed RAW file: " + err.Error())
-		}
+		err = errors.Join(err, tw.Close())
 	}
 
-	return c.f.Close()
+	return errors.Join(err, c.f.Close())
 }
diff --git a/flatjsonl/sqlite_writer.go b/flatjsonl/sqlite_writer.go
index 7d27ffc..f8299ab 100644
--- a/flatjsonl/sqlite_writer.go
+++ b/flatjsonl/sqlite_writer.go
@@ -2,6 +2,7 @@ package flatjsonl
 
 import (
 	"database/sql"
+	"errors"
 	"fmt"
 	"strconv"
 	"strings"
@@ -260,7 +261,7 @@ func (c *SQLiteWriter) Close() error {
 	if c.tx != nil {
 		err := c.tx.Commit()
 		if err != nil {
-			println(err.Error())
+			return errors.Join(fmt.Errorf("failed to commit SQLite transaction: %w", err), c.db.Close())
 		}
 	}
 
-- 
2.43.0


From e663951c84f7be88e22f172216351cc4cc899bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:09 +0000
Subject: [PATCH 16/45] fix: reader does not hang if memory limit can not be
 met

---
 flatjsonl/reader.go | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/flatjsonl/reader.go b/flatjsonl/reader.go
index 03c2fc0..3a1ac07 100644
--- a/flatjsonl/reader.go
+++ b/flatjsonl/reader.go
@@ -223,14 +223,11 @@ func (rd *Reader) Read(sess *readSession) error {
 	var n int64
 
 	for sess.scanner.Scan() {
-		for {
-			if atomic.LoadInt64(&rd.Processor.throttle) != 0 {
-				atomic.StoreInt64(&rd.Processor.throttle, 0)
-				runtime.GC()
-				time.Sleep(110 * time.Millisecond)
-			} else {
-				break
-			}
+		// Reading slows down under memory pressure, but it continues even if the limit can not be met.
+		if atomic.LoadInt64(&rd.Processor.throttle) != 0 {
+			atomic.StoreInt64(&rd.Processor.throttle, 0)
+			runtime.GC()
+			time.Sleep(110 * time.Millisecond)
 		}
 
 		if err := sess.scanner.Err(); err != nil {
-- 
2.43.0


From 0ac483bbd7d0ee9fc1c3114b41b572461f8d1f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:11 +0000
Subject: [PATCH 17/45] fix: key of URL extracted from string is not a parent
 of itself

---
 flatjsonl/flattener.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatjsonl/flattener.go b/flatjsonl/flattener.go
index 6531f36..42cc255 100644
--- a/flatjsonl/flattener.go
+++ b/flatjsonl/flattener.go
@@ -239,8 +239,8 @@ func (fv *FastWalker) walkFastJSONString(seq int64, flatPath []byte, pl int, pat
 
 			v, err := p.ParseBytes(us)
 			if err == nil {
-				flatPath = append(flatPath, []byte(".URL")...)
 				pl := len(flatPath)
+				flatPath = append(flatPath, []byte(".URL")...)
 
 				if fv.WantPath {
 					fv.WalkFastJSON(seq, flatPath, pl, append(path, "URL"), v)
-- 
2.43.0


From 81d3ef3c066dbae2a0feb46f5e7105be3d419cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:13 +0000
Subject: [PATCH 18/45] fix: key hierarchy of data without keys does not panic

---
 flatjsonl/processor.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/flatjsonl/processor.go b/flatjsonl/processor.go
index 8654c84..142cffd 100644
--- a/flatjsonl/processor.go
+++ b/flatjsonl/processor.go
@@ -337,9 +337,13 @@ func (p *Processor) maybeShowKeys() error {
 	}
 
 	if p.f.ShowKeysHier {
-		b, err := assertjson.MarshalIndentCompact(
-			p.keyHierarchy.Hierarchy().(map[string]interface{})["."], //nolint:errcheck
-			"", " ", 120)
+		hier := interface{}([]interface{}{})
+
+		if h, ok := p.keyHierarchy.Hierarchy().(map[string]interface{}); ok {
+			hier = h["."]
+		}
+
+		b, err := assertjson.MarshalIndentCompact(hier, "", " ", 120)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From abb0906c42cc72d8d9ebd01c03a212b426445d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:48 +0000
Subject: [PATCH 19/45] fix: JSON schema of keys that have both scalars and
 containers

---
 flatjsonl/flattener.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/flatjsonl/flattener.go b/flatjsonl/flattener.go
index 42cc255..821fa93 100644
--- a/flatjsonl/flattener.go
+++ b/flatjsonl/flattener.go
@@ -342,8 +342,14 @@ func (j *jsonSchema) AddKey(k flKey, keys *xsync.MapOf[uint64, flKey]) {
 		pk := parents[i]
 		name := pk.path[len(pk.path)-1]
 
-		if i != 0 && pk.t == TypeString {
-			pk.t = TypeObject
+		if i != 0 { // The key may have own scalar values in other lines.
+			child := parents[i-1].path
+
+			if pk.hasType(TypeArray) && strings.HasPrefix(child[len(child)-1], "[") {
+				pk.t = TypeArray
+			} else {
+				pk.t = TypeObject
+			}
 		}
 
 		if parentType == TypeObject {
-- 
2.43.0


From 4fe5d9d771935733b1076423cf125febd21abd91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:51 +0000
Subject: [PATCH 20/45] fix: quotes in SQLite table and column names are
 escaped

---
 flatjsonl/sqlite_writer.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/flatjsonl/sqlite_writer.go b/flatjsonl/sqlite_writer.go
index f8299ab..c36d495 100644
--- a/flatjsonl/sqlite_writer.go
+++ b/flatjsonl/sqlite_writer.go
@@ -7,6 +7,7 @@ import (
 	"strconv"
 	"strings"
 
+	"github.com/bool64/sqluct"
 	_ "modernc.org/sqlite" // Database driver.
 )
 
@@ -132,7 +133,7 @@ func (c *SQLiteWriter) insert(seq int64, tn string, values []Value) error {
 	c.rowsTx++
 
 	tableName := tn
-	res := `INSERT INTO "` + tableName + `" VALUES (` + strconv.Itoa(int(seq)) + `,`
+	res := `INSERT INTO ` + sqluct.QuoteANSI(tableName) + ` VALUES (` + strconv.Itoa(int(seq)) + `,`
 	part := 1
 
 	for i, v := range values {
@@ -147,7 +148,7 @@ func (c *SQLiteWriter) insert(seq int64, tn string, values []Value) error {
 
 			part++
 			tableName = tn + partSuffix + strconv.Itoa(part)
-			res = `INSERT INTO "` + tableName + `" VALUES (` + strconv.Itoa(int(seq)) + `,`
+			res = `INSERT INTO ` + sqluct.QuoteANSI(tableName) + ` VALUES (` + strconv.Itoa(int(seq)) + `,`
 		}
 
 		if v.Type != TypeNull && v.Type != TypeAbsent {
@@ -194,7 +195,7 @@ func (c *SQLiteWriter) execTx(res string) error {
 
 func (c *SQLiteWriter) createTable(tn string, keys []flKey, isTransposed bool) error {
 	tableName := tn
-	createTable := `CREATE TABLE "` + tableName + `" (
+	createTable := `CREATE TABLE ` + sqluct.QuoteANSI(tableName) + ` (
 `
 
 	if !isTransposed {
@@ -220,7 +221,7 @@ _seq_id integer,
 
 			part++
 			tableName = tn + partSuffix + strconv.Itoa(part)
-			createTable = `CREATE TABLE "` + tableName + `" (
+			createTable = `CREATE TABLE ` + sqluct.QuoteANSI(tableName) + ` (
 `
 
 			if !isTransposed {
@@ -243,7 +244,7 @@ _seq_id integer,
 			tp = " REAL"
 		}
 
-		createTable += `"` + k.replaced + `"` + tp + `,` + "\n"
+		createTable += sqluct.QuoteANSI(k.replaced) + tp + `,` + "\n"
 	}
 
 	createTable = createTable[:len(createTable)-2] + "\n)"
-- 
2.43.0


From 9f1f155c34bd6bd644a8069d2afdf4b80dca1b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:37 +0000
Subject: [PATCH 21/45] fix: SQLite rows with zero bytes in values

---
 flatjsonl/sqlite_writer.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/flatjsonl/sqlite_writer.go b/flatjsonl/sqlite_writer.go
index c36d495..9ce50e5 100644
--- a/flatjsonl/sqlite_writer.go
+++ b/flatjsonl/sqlite_writer.go
@@ -5,7 +5,6 @@ import (
 	"errors"
 	"fmt"
 	"strconv"
-	"strings"
 
 	"github.com/bool64/sqluct"
 	_ "modernc.org/sqlite" // Database driver.
@@ -18,7 +17,6 @@ type SQLiteWriter struct {
 	tx        *sql.Tx
 	rowsTx    int
 	sizeTx    int
-	replacer  *strings.Replacer
 	p         *Processor
 	maxCols   int
 
@@ -47,7 +45,6 @@ func NewSQLiteWriter(fn string, tableName string, p *Processor) (*SQLiteWriter,
 	c := &SQLiteWriter{
 		db:        db,
 		tableName: tableName,
-		replacer:  strings.NewReplacer(`"`, `""`),
 		p:         p,
 		maxCols:   p.f.SQLMaxCols - 1, // -1 for _seq_id.
 	}
@@ -135,6 +132,7 @@ func (c *SQLiteWriter) insert(seq int64, tn string, values []Value) error {
 	tableName := tn
 	res := `INSERT INTO ` + sqluct.QuoteANSI(tableName) + ` VALUES (` + strconv.Itoa(int(seq)) + `,`
 	part := 1
+	args := make([]any, 0, len(values))
 
 	for i, v := range values {
 		if i > 0 && i%c.maxCols == 0 {
@@ -142,17 +140,21 @@ func (c *SQLiteWriter) insert(seq int64, tn string, values []Value) error {
 
 			res = res[:len(res)-1] + ")"
 
-			if err := c.execTx(res); err != nil {
+			if err := c.execTx(res, args...); err != nil {
 				return err
 			}
 
+			args = args[:0]
+
 			part++
 			tableName = tn + partSuffix + strconv.Itoa(part)
 			res = `INSERT INTO ` + sqluct.QuoteANSI(tableName) + ` VALUES (` + strconv.Itoa(int(seq)) + `,`
 		}
 
 		if v.Type != TypeNull && v.Type != TypeAbsent {
-			res += `"` + c.replacer.Replace(v.Format()) + `",`
+			res += `?,`
+
+			args = append(args, v.Format())
 		} else {
 			res += `NULL,`
 		}
@@ -160,7 +162,7 @@ func (c *SQLiteWriter) insert(seq int64, tn string, values []Value) error {
 
 	res = res[:len(res)-1] + ")"
 
-	return c.execTx(res)
+	return c.execTx(res, args...)
 }
 
 func (c *SQLiteWriter) commitTx() error {
@@ -174,7 +176,7 @@ func (c *SQLiteWriter) commitTx() error {
 	return nil
 }
 
-func (c *SQLiteWriter) execTx(res string) error {
+func (c *SQLiteWriter) execTx(res string, args ...any) error {
 	if c.tx == nil {
 		tx, err := c.db.Begin()
 		if err != nil {
@@ -185,7 +187,7 @@ func (c *SQLiteWriter) execTx(res string) error {
 		c.rowsTx = 0
 	}
 
-	_, err := c.tx.Exec(res)
+	_, err := c.tx.Exec(res, args...)
 	if err != nil {
 		return fmt.Errorf("failed to insert SQLite row: %w", err)
 	}
-- 
2.43.0


From 332dff89de4c6dde5979e0076f10888c959164e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:39 +0000
Subject: [PATCH 22/45] fix: output time zone is applied to time values that
 have their own offset

---
 flatjsonl/processor.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/flatjsonl/processor.go b/flatjsonl/processor.go
index 142cffd..5ac5c46 100644
--- a/flatjsonl/processor.go
+++ b/flatjsonl/processor.go
@@ -741,6 +741,10 @@ func (wi *writeIterator) setValue(v Value, pk uint64, l *lineBuf) {
 			if err != nil {
 				v.String = fmt.Sprintf("failed to parse time %s: %s", v.String, err)
 			} else {
+				if wi.outputTZ != nil {
+					t = t.In(wi.outputTZ)
+				}
+
 				v.String = t.Format(wi.outTimeFmt)
 			}
 		}
-- 
2.43.0


From 94aef3cf9d243aa65bada48b9660ca84741f24d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:41 +0000
Subject: [PATCH 23/45] fix: sequence numbers and indexes are written in full

---
 flatjsonl/reader.go | 2 +-
 flatjsonl/writer.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/flatjsonl/reader.go b/flatjsonl/reader.go
index 3a1ac07..a465db9 100644
--- a/flatjsonl/reader.go
+++ b/flatjsonl/reader.go
@@ -307,7 +307,7 @@ func (rd *Reader) doLine(w *syncWorker, seq, n int64, sess *readSession) error {
 
 	if rd.AddSequence {
 		seqf := float64(seq)
-		w.walker.FnNumber(seq, []byte("._sequence"), 0, []string{"_sequence"}, seqf, []byte(Format(seqf)))
+		w.walker.FnNumber(seq, []byte("._sequence"), 0, []string{"_sequence"}, seqf, strconv.AppendInt(nil, seq, 10))
 	}
 
 	line := w.line
diff --git a/flatjsonl/writer.go b/flatjsonl/writer.go
index 7caafba..49f09f2 100644
--- a/flatjsonl/writer.go
+++ b/flatjsonl/writer.go
@@ -50,7 +50,7 @@ func (v Value) Format() string {
 			return v.RawNumber
 		}
 
-		return strconv.FormatFloat(v.Number, 'g', 5, 64)
+		return strconv.FormatFloat(v.Number, 'f', -1, 64)
 	case TypeBool:
 		return strconv.FormatBool(v.Bool)
 	case TypeNull:
-- 
2.43.0


From 250740f4d62ea301d9f71ceb08530aec9af654b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:43 +0000
Subject: [PATCH 24/45] fix: every column of PostgreSQL dump has a type

---
 flatjsonl/pg_dump_writer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatjsonl/pg_dump_writer.go b/flatjsonl/pg_dump_writer.go
index 02de49c..1d28b3e 100644
--- a/flatjsonl/pg_dump_writer.go
+++ b/flatjsonl/pg_dump_writer.go
@@ -290,7 +290,7 @@ func (c *PGDumpWriter) createTable(tn string, keys []flKey, isTransposed bool) e
 			if _, ok := c.p.cfg.ParseTime[k.original]; ok {
 				tp = " TIMESTAMP"
 			}
-		case TypeAbsent, TypeNull:
+		default:
 			tp = " VARCHAR"
 		}
 
-- 
2.43.0


From 598dc9d595f61534901f4385de652fa788847a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:44 +0000
Subject: [PATCH 25/45] fix: column of number literals that are not integers is
 not declared as integer

---
 flatjsonl/keys.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index ca797cb..f8a3aa7 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -354,11 +354,10 @@ func (p *Processor) scanAvailableKeys() error {
 
 					return x
 				}
-				w.FnNumber = func(_ int64, flatPath []byte, pl int, path []string, value float64, _ []byte) {
+				w.FnNumber = func(_ int64, flatPath []byte, pl int, path []string, value float64, raw []byte) {
 					pk, parent := h.hashParentBytes(flatPath, pl)
-					isInt := float64(int(value)) == value
 
-					if isInt {
+					if _, err := strconv.ParseInt(string(raw), 10, 64); err == nil {
 						p.scanKey(pk, parent, path, TypeInt, value == 0)
 					} else {
 						p.scanKey(pk, parent, path, TypeFloat, value == 0)
-- 
2.43.0


From c59a66ac8503139ba4526a9311ee076a0e78b0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:50 +0000
Subject: [PATCH 26/45] fix: type of merged column admits values of all merged
 keys

---
 flatjsonl/keys.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index f8a3aa7..30cf64e 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -512,6 +512,11 @@ func (p *Processor) flKeysInit() {
 		if v, ok := p.canonicalKeys[value.canonical]; ok {
 			v.isZero = value.isZero && v.isZero
 			v.t = v.t.Update(value.t)
+
+			if p.cfg.ConcatDelimiter != nil && v.original != value.original {
+				v.t = v.t.Update(TypeString)
+			}
+
 			value = v
 		}
 
@@ -690,8 +695,12 @@ func (p *Processor) prepareKeys() {
 	for i, pk := range p.keys {
 		if pk.transposeDst == "" {
 			if j, ok := keyExists[pk.replaced]; ok {
-				pk.UpdateType(p.keys[i].t)
-				p.keys[i] = pk
+				keys[j].UpdateType(pk.t)
+
+				if p.cfg.ConcatDelimiter != nil {
+					keys[j].UpdateType(TypeString)
+				}
+
 				keyMap[i] = j
 
 				continue
-- 
2.43.0


From fc97294317a0ec10070ca98a179ddbba7d15e118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:52 +0000
Subject: [PATCH 27/45] fix: index column of child table admits both array
 indexes and properties

---
 flatjsonl/writer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatjsonl/writer.go b/flatjsonl/writer.go
index 49f09f2..f2ba6b2 100644
--- a/flatjsonl/writer.go
+++ b/flatjsonl/writer.go
@@ -164,7 +164,7 @@ func (b *baseWriter) setupKeys(keys []flKey) {
 		tw := b.transposedWriter(key.transposeDst, keys)
 
 		tw.keyIndexes = append(tw.keyIndexes, i)
-		tw.indexType = key.transposeKey.t
+		tw.indexType = tw.indexType.Update(key.transposeKey.t)
 
 		ik, ok := tw.trimmedKeys[key.transposeTrimmed]
 		if !ok {
-- 
2.43.0


From 28032588a3c2046f8c29d590aa144f08754818fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:54 +0000
Subject: [PATCH 28/45] fix: overlapping transpose prefixes are resolved
 deterministically

---
 flatjsonl/keys.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index 30cf64e..55edfce 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -94,14 +94,19 @@ func (p *Processor) initKey(pk, parent uint64, path []string, t Type, isZero boo
 	k.canonical = p.ck(key)
 	k.parent = parent
 
-	for tk, dst := range p.cfg.Transpose {
-		if len(k.original) > len(tk) && strings.HasPrefix(k.original, tk) {
-			scanTransposedKey(dst, tk, &k)
+	transposePrefix, transposed := "", false
 
-			break
+	for tk := range p.cfg.Transpose {
+		// The most specific prefix is used.
+		if len(k.original) > len(tk) && len(tk) >= len(transposePrefix) && strings.HasPrefix(k.original, tk) {
+			transposePrefix, transposed = tk, true
 		}
 	}
 
+	if transposed {
+		scanTransposedKey(p.cfg.Transpose[transposePrefix], transposePrefix, &k)
+	}
+
 	for r, x := range p.extractRegex {
 		if r.MatchString(key) {
 			k.extractor = x
-- 
2.43.0


From 848a75ae2789ac0745a1d9ce10163c306fc8ff67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:56 +0000
Subject: [PATCH 29/45] fix: transposed property names that look like an array
 index do not panic

---
 flatjsonl/keys.go | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index 55edfce..a5116fd 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -207,16 +207,15 @@ func scanTransposedKey(dst string, tk string, k *flKey) {
 		trimmed = trimmed[1:]
 	}
 
-	// Array.
-	if trimmed[0] == '[' {
-		pos := strings.Index(trimmed, "]")
-		idx := trimmed[1:pos]
+	pos := strings.Index(trimmed, "]")
+	i, err := 0, strconv.ErrSyntax
 
-		i, err := strconv.Atoi(idx)
-		if err != nil {
-			panic("BUG: failed to parse idx " + idx + ": " + err.Error())
-		}
+	if pos > 0 && trimmed[0] == '[' {
+		i, err = strconv.Atoi(trimmed[1:pos])
+	}
 
+	// Array.
+	if err == nil {
 		trimmed = trimmed[pos+1:]
 		k.transposeKey = intOrString{t: TypeInt, i: i}
 	} else {
-- 
2.43.0


From c256e546df8c41be293c2be58ca3188a5c87eba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:58 +0000
Subject: [PATCH 30/45] fix: field limit does not split a multibyte character

---
 flatjsonl/processor.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/flatjsonl/processor.go b/flatjsonl/processor.go
index 5ac5c46..ef067ee 100644
--- a/flatjsonl/processor.go
+++ b/flatjsonl/processor.go
@@ -15,6 +15,7 @@ import (
 	"sync/atomic"
 	"time"
 	_ "time/tzdata" // Loading timezones.
+	"unicode/utf8"
 
 	"github.com/bool64/progress"
 	xsync "github.com/puzpuzpuz/xsync/v3"
@@ -670,7 +671,14 @@ func (wi *writeIterator) setupWalker(w *FastWalker) {
 	w.FnArrayStop = nil
 	w.FnString = func(seq int64, flatPath []byte, pl int, _ []string, value []byte) extractor {
 		if wi.fieldLimit != 0 && len(value) > wi.fieldLimit {
-			value = value[0:wi.fieldLimit]
+			limit := wi.fieldLimit
+
+			// Multibyte character is not split.
+			for limit > 0 && !utf8.RuneStart(value[limit]) {
+				limit--
+			}
+
+			value = value[0:limit]
 		}
 
 		l, _ := wi.pending.Load(seq)
-- 
2.43.0


From 7aa2010b32a24dd9a677cf42e53f02c4b4b4ebd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:00 +0000
Subject: [PATCH 31/45] fix: groups of line prefix are not limited as children
 of the root

---
 flatjsonl/keys.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index a5116fd..c3816f4 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -123,7 +123,7 @@ func (p *Processor) initKey(pk, parent uint64, path []string, t Type, isZero boo
 		return existing
 	}
 
-	if p.f.ChildrenLimit > 0 && len(k.path) > 1 {
+	if p.f.ChildrenLimit > 0 && len(k.path) > 1 && k.parent != 0 {
 		p.collectKeyCardinality(k)
 	}
 
-- 
2.43.0


From 38f7000317ef36d73236954931bb393afa474ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:40 +0000
Subject: [PATCH 32/45] fix: child rows of different prefixes with the same
 destination do not overwrite each other

---
 flatjsonl/keys.go   | 2 ++
 flatjsonl/writer.go | 9 ++++-----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index c3816f4..2ee5f4a 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -24,6 +24,7 @@ type flKey struct {
 	replaced         string
 	transposeDst     string
 	transposeKey     intOrString
+	transposeRow     string // Identifies child row, unlike transposeKey it is unique if several prefixes share a destination.
 	transposeTrimmed string
 	extractor        extractor
 	parent           uint64
@@ -233,6 +234,7 @@ func scanTransposedKey(dst string, tk string, k *flKey) {
 	}
 
 	k.transposeDst = dst
+	k.transposeRow = tk + "\x00" + k.transposeKey.String()
 	k.transposeTrimmed = trimmed
 }
 
diff --git a/flatjsonl/writer.go b/flatjsonl/writer.go
index f2ba6b2..4db318d 100644
--- a/flatjsonl/writer.go
+++ b/flatjsonl/writer.go
@@ -275,13 +275,13 @@ func (b *baseWriter) receiveRow(seq int64, values []Value) (transposedRows [][]s
 			k := b.keys[i]
 
 			transposeKey := k.transposeKey.String()
-			row := transposedRowsIdx[transposeKey]
+			row := transposedRowsIdx[k.transposeRow]
 
 			if row == nil {
 				row = make([]string, len(b.trimmedKeys))
 				row[0] = strconv.Itoa(int(seq)) // Add sequence.
 				row[1] = transposeKey           // Add array idx/object property.
-				transposedRowsIdx[transposeKey] = row
+				transposedRowsIdx[k.transposeRow] = row
 				transposedRows = append(transposedRows, row)
 			}
 
@@ -314,8 +314,7 @@ func (b *baseWriter) receiveTransposedRowValues(seq int64, values []Value) (tran
 
 		k := b.keys[i]
 
-		transposeKey := k.transposeKey.String()
-		row := transposedRowsIdx[transposeKey]
+		row := transposedRowsIdx[k.transposeRow]
 
 		if row == nil {
 			row = make([]Value, len(b.trimmedKeys))
@@ -324,7 +323,7 @@ func (b *baseWriter) receiveTransposedRowValues(seq int64, values []Value) (tran
 				Number: float64(seq),
 			} // Add sequence.
 			row[1] = k.transposeKey.Value() // Add array idx/object property.
-			transposedRowsIdx[transposeKey] = row
+			transposedRowsIdx[k.transposeRow] = row
 			transposedRows = append(transposedRows, row)
 		}
 
-- 
2.43.0


From 050c67b5261b38955d5f799b6fdb877e659a71fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:42 +0000
Subject: [PATCH 33/45] fix: index of a child row for empty property name

---
 flatjsonl/keys.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index 2ee5f4a..2f92f9b 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -70,7 +70,7 @@ func (is intOrString) Value() Value {
 }
 
 func (is intOrString) String() string {
-	if is.s != "" {
+	if is.t == TypeString {
 		return is.s
 	}
 
-- 
2.43.0


From fe6febd773a70996150b2174f8158597b0469268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:21 +0000
Subject: [PATCH 34/45] fix: csvequals compares columns of files without rows

---
 cmd/csvequals/main.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/cmd/csvequals/main.go b/cmd/csvequals/main.go
index eb96685..6af1ac1 100644
--- a/cmd/csvequals/main.go
+++ b/cmd/csvequals/main.go
@@ -119,6 +119,18 @@ func main() {
 			keys1 = append(keys1, r1...)
 			keys2 = append(keys2, r2...)
 
+			for _, k := range keys1 {
+				m1[k] = ""
+			}
+
+			for _, k := range keys2 {
+				m2[k] = ""
+			}
+
+			if diff := mapDiff(m1, m2); len(diff) > 0 {
+				log.Fatalln("found diff in columns:\n" + strings.Join(diff, "\n"))
+			}
+
 			continue
 		}
 
-- 
2.43.0


From 7cfbacd62ce45af40623b923866152e4655c492c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:39 +0000
Subject: [PATCH 35/45] fix: config files in JSON and JSON5 are not decoded as
 YAML

---
 flatjsonl/processor.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/flatjsonl/processor.go b/flatjsonl/processor.go
index ef067ee..c4beed1 100644
--- a/flatjsonl/processor.go
+++ b/flatjsonl/processor.go
@@ -94,12 +94,17 @@ func loadConfig(value string, cfg *Config) error {
 		return fmt.Errorf("read config file: %w", err)
 	}
 
-	yerr := yaml.Unmarshal(b, cfg)
-	if yerr != nil {
+	// JSON goes before YAML, which does not have all escapes of JSON and takes comments as a part of the keys.
+	if json.Valid(b) {
+		err = json.Unmarshal(b, cfg)
+	} else if json5.Valid(b) {
 		err = json5.Unmarshal(b, cfg)
-		if err != nil {
-			return fmt.Errorf("decode config file: json5: %w, yaml: %s", err, yerr) //nolint
-		}
+	} else {
+		err = yaml.Unmarshal(b, cfg)
+	}
+
+	if err != nil {
+		return fmt.Errorf("decode config file: %w", err)
 	}
 
 	return nil
-- 
2.43.0


From 69c1c2a9f01ca3ab02a2bc48f1cc0b7f01d130e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:20 +0000
Subject: [PATCH 36/45] fix: truncated gzip input is reported instead of ending
 the data early

---
 flatjsonl/reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatjsonl/reader.go b/flatjsonl/reader.go
index a465db9..67736ef 100644
--- a/flatjsonl/reader.go
+++ b/flatjsonl/reader.go
@@ -18,8 +18,8 @@ import (
 
 	"github.com/bool64/ctxd"
 	"github.com/bool64/progress"
+	"github.com/klauspost/compress/gzip"
 	"github.com/klauspost/compress/zstd"
-	gzip "github.com/klauspost/pgzip"
 	"github.com/vearutop/fastjson"
 )
 
-- 
2.43.0


From e392f2c15db5352341a2fad81c6f4899d1659d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:43 +0000
Subject: [PATCH 37/45] fix: empty zstd output is a complete zstd file

---
 flatjsonl/writer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatjsonl/writer.go b/flatjsonl/writer.go
index 4db318d..33c6b21 100644
--- a/flatjsonl/writer.go
+++ b/flatjsonl/writer.go
@@ -386,7 +386,7 @@ func newFileWriter(fn string) (*fileWriter, error) {
 		case strings.HasSuffix(fn, ".zst"):
 			c.compressed = progress.NewCountingWriter(c.f)
 
-			c.f, err = zstd.NewWriter(c.compressed, zstd.WithEncoderLevel(zstd.SpeedFastest), zstd.WithLowerEncoderMem(true))
+			c.f, err = zstd.NewWriter(c.compressed, zstd.WithEncoderLevel(zstd.SpeedFastest), zstd.WithLowerEncoderMem(true), zstd.WithZeroFrames(true))
 			if err != nil {
 				return nil, err
 			}
-- 
2.43.0


From 773f79a5094b286bbc3f252152d31e989db17a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:59 +0000
Subject: [PATCH 38/45] fix: JSON schema admits containers among scalar array
 items

---
 flatjsonl/flattener.go | 24 ++++++++++++++++++++++++
 flatjsonl/keys.go      | 10 ++++++++++
 2 files changed, 34 insertions(+)

diff --git a/flatjsonl/flattener.go b/flatjsonl/flattener.go
index 821fa93..24cde07 100644
--- a/flatjsonl/flattener.go
+++ b/flatjsonl/flattener.go
@@ -381,6 +381,30 @@ func (j *jsonSchema) AddKey(k flKey, keys *xsync.MapOf[uint64, flKey]) {
 	}
 }
 
+// AddContainer adds types of a container to its node, if the node already has types, e.g. if array items are mixed.
+func (j *jsonSchema) AddContainer(k flKey) {
+	node := j
+
+	for _, s := range k.path {
+		next := node.Properties[s]
+		if next == nil && strings.HasPrefix(s, "[") {
+			next = node.Items
+		}
+
+		if next == nil {
+			return
+		}
+
+		node = next
+	}
+
+	if len(node.Types) > 0 {
+		for _, t := range k.tt {
+			node.AddType(t)
+		}
+	}
+}
+
 // KeyHierarchy collects structural relations.
 type KeyHierarchy struct {
 	Name string
diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index 2f92f9b..8af91de 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -464,6 +464,16 @@ func (p *Processor) prepareScannedKeys() {
 		return true
 	})
 
+	if p.f.ShowJSONSchema {
+		p.flKeys.Range(func(_ uint64, k flKey) bool {
+			if k.t == TypeObject || k.t == TypeArray {
+				p.jsonSchema.AddContainer(k)
+			}
+
+			return true
+		})
+	}
+
 	var newFlKeys []string
 
 	for _, key := range p.flKeysList {
-- 
2.43.0


From 03a3555affaec4c00eed1c95610a4c6385fb3e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:56 +0000
Subject: [PATCH 39/45] fix: single key lookup follows index spelling and
 repeated properties

---
 flatjsonl/flattener.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/flatjsonl/flattener.go b/flatjsonl/flattener.go
index 24cde07..e7979b1 100644
--- a/flatjsonl/flattener.go
+++ b/flatjsonl/flattener.go
@@ -58,6 +58,10 @@ func (fv *FastWalker) GetKey(seq int64, flatPath []byte, path []string, v *fastj
 			}
 
 			s = s[1 : len(s)-1]
+
+			if i, err := strconv.Atoi(s); err != nil || strconv.Itoa(i) != s {
+				return false
+			}
 		}
 
 		if v = v.Get(s); v == nil {
@@ -65,6 +69,12 @@ func (fv *FastWalker) GetKey(seq int64, flatPath []byte, path []string, v *fastj
 		}
 	}
 
+	// Only the first of same named properties is found, but scalar value may be in the other.
+	switch v.Type() { //nolint: exhaustive
+	case fastjson.TypeNull, fastjson.TypeObject, fastjson.TypeArray:
+		return false
+	}
+
 	fv.WalkFastJSON(seq, flatPath, 0, path, v)
 
 	return true
-- 
2.43.0


From d24ebfc7b352fdb3f0d75fc48337f69cebeae37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:42 +0000
Subject: [PATCH 40/45] fix: big line limit with an offset does not overflow

---
 flatjsonl/reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatjsonl/reader.go b/flatjsonl/reader.go
index 67736ef..2dcbfa8 100644
--- a/flatjsonl/reader.go
+++ b/flatjsonl/reader.go
@@ -273,7 +273,7 @@ func (rd *Reader) Read(sess *readSession) error {
 			break
 		}
 
-		if rd.MaxLines > 0 && rd.MaxLines+rd.OffsetLines <= n {
+		if rd.MaxLines > 0 && rd.MaxLines <= n-rd.OffsetLines {
 			break
 		}
 	}
-- 
2.43.0


From f1f0371042b96d804f76923b8e6ddd0aa51d9167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:53 +0000
Subject: [PATCH 41/45] fix: repeated input of -dbg-loop-input-size is used

---
 flatjsonl/app.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/flatjsonl/app.go b/flatjsonl/app.go
index f433546..a778b6a 100644
--- a/flatjsonl/app.go
+++ b/flatjsonl/app.go
@@ -66,7 +66,13 @@ func Main() {
 		inputs[0].FileName = ""
 	}
 
-	proc, err := New(f)
+	var cfg Config
+
+	if err := loadConfig(f.Config, &cfg); err != nil {
+		log.Fatal(err)
+	}
+
+	proc, err := NewProcessor(f, cfg, inputs...)
 	if err != nil {
 		log.Fatal(err)
 	}
-- 
2.43.0


From 2fdace76e3ce1cf65316d26496be07d089da6975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:12 +0000
Subject: [PATCH 42/45] fix: repeated input starts from the beginning in every
 pass

---
 flatjsonl/reader.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flatjsonl/reader.go b/flatjsonl/reader.go
index 2dcbfa8..a7001f6 100644
--- a/flatjsonl/reader.go
+++ b/flatjsonl/reader.go
@@ -443,9 +443,10 @@ func (l *LoopReader) Size() int64 {
 	return int64(l.BytesLimit)
 }
 
-// Reset resets the counter.
+// Reset resets the counter and starts from the beginning of the buffer.
 func (l *LoopReader) Reset() {
 	l.bytesRead = 0
+	_, _ = l.src.Seek(0, io.SeekStart) // Never fails for zero offset.
 }
 
 // Read implements io.Reader.
-- 
2.43.0


From 74eab0f81b7184da5aeb1f22fb5dda9c274d674a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:14 +0000
Subject: [PATCH 43/45] fix: repeating an empty input ends

---
 flatjsonl/reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatjsonl/reader.go b/flatjsonl/reader.go
index a7001f6..8c8fd22 100644
--- a/flatjsonl/reader.go
+++ b/flatjsonl/reader.go
@@ -451,7 +451,7 @@ func (l *LoopReader) Reset() {
 
 // Read implements io.Reader.
 func (l *LoopReader) Read(p []byte) (n int, err error) {
-	if l.bytesRead >= l.BytesLimit {
+	if l.bytesRead >= l.BytesLimit || l.src.Size() == 0 {
 		return 0, io.EOF
 	}
 
-- 
2.43.0


From 60b07df025d7e5db87681208e82088ae824e5025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:34 +0000
Subject: [PATCH 44/45] fix: do not describe content of JSON literals with
 properties of other array items in JSON schema

---
 flatjsonl/flattener.go | 7 ++++++-
 flatjsonl/keys.go      | 6 ++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/flatjsonl/flattener.go b/flatjsonl/flattener.go
index e7979b1..8374ee5 100644
--- a/flatjsonl/flattener.go
+++ b/flatjsonl/flattener.go
@@ -392,7 +392,7 @@ func (j *jsonSchema) AddKey(k flKey, keys *xsync.MapOf[uint64, flKey]) {
 }
 
 // AddContainer adds types of a container to its node, if the node already has types, e.g. if array items are mixed.
-func (j *jsonSchema) AddContainer(k flKey) {
+func (j *jsonSchema) AddContainer(k flKey, isJSON bool) {
 	node := j
 
 	for _, s := range k.path {
@@ -408,6 +408,11 @@ func (j *jsonSchema) AddContainer(k flKey) {
 		node = next
 	}
 
+	if isJSON { // Content of JSON literal is not described, even if other items of the array are.
+		node.Properties = nil
+		node.Items = nil
+	}
+
 	if len(node.Types) > 0 {
 		for _, t := range k.tt {
 			node.AddType(t)
diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index 8af91de..5c77ec4 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -466,8 +466,10 @@ func (p *Processor) prepareScannedKeys() {
 
 	if p.f.ShowJSONSchema {
 		p.flKeys.Range(func(_ uint64, k flKey) bool {
-			if k.t == TypeObject || k.t == TypeArray {
-				p.jsonSchema.AddContainer(k)
+			isJSON := k.t == TypeJSON || jsonKeys[k.original]
+
+			if k.t == TypeObject || k.t == TypeArray || isJSON {
+				p.jsonSchema.AddContainer(k, isJSON)
 			}
 
 			return true
-- 
2.43.0


From d69c78e6598fecb77d719d59aeb2f50bba07282c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:36 +0000
Subject: [PATCH 45/45] fix: use default column limit for PostgreSQL dump if it
 is 0, as for SQLite

---
 flatjsonl/pg_dump_writer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/flatjsonl/pg_dump_writer.go b/flatjsonl/pg_dump_writer.go
index 1d28b3e..ccb56ee 100644
--- a/flatjsonl/pg_dump_writer.go
+++ b/flatjsonl/pg_dump_writer.go
@@ -48,6 +48,10 @@ type csvCopier struct {
 func NewPGDumpWriter(fn string, tableName string, p *Processor) (*PGDumpWriter, error) {
 	var err error
 
+	if p.f.SQLMaxCols == 0 {
+		p.f.SQLMaxCols = 500
+	}
+
 	c := &PGDumpWriter{
 		fn:         fn,
 		tableName:  tableName,
-- 
2.43.0

