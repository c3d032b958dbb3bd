From f911726ec6bcb6c821551408ec53a4ff59b1c224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:03 +0000
Subject: [PATCH 01/57] fix: merging of types panicked on a key that is both a
 scalar and a container

A key holding a scalar in one line and an object/array in another panicked
in the key scan, silently dropping all remaining keys of that line. With
null the resulting type depended on the order of lines.
---
 flatjsonl/type.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/flatjsonl/type.go b/flatjsonl/type.go
index c0a3638..ba7a853 100644
--- a/flatjsonl/type.go
+++ b/flatjsonl/type.go
@@ -24,9 +24,18 @@ func (t Type) Update(u Type) Type {
 	}
 
 	if t == TypeObject || t == TypeArray {
+		if u == TypeNull || u == TypeAbsent {
+			return t
+		}
+
 		return u
 	}
 
+	// Containers do not contribute to a scalar type.
+	if u == TypeObject || u == TypeArray || u == TypeAbsent {
+		return t
+	}
+
 	// Same type is not updated.
 	if t == u {
 		return t
@@ -41,6 +50,11 @@ func (t Type) Update(u Type) Type {
 		return t
 	}
 
+	// Raw JSON and other scalars make unconstrained type: string.
+	if t == TypeJSON || u == TypeJSON {
+		return TypeString
+	}
+
 	// Bool and non-bool make unconstrained type: string.
 	if (t == TypeBool && u != TypeBool) || (t != TypeBool && u == TypeBool) {
 		return TypeString
-- 
2.43.0


From 865fae8ab07f888376c7c0b4509719e0df43c148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:17 +0000
Subject: [PATCH 02/57] fix: malformed number literal stalled the output and
 lost the remaining rows

---
 flatjsonl/flattener.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/flatjsonl/flattener.go b/flatjsonl/flattener.go
index cf74ed7..0416a0a 100644
--- a/flatjsonl/flattener.go
+++ b/flatjsonl/flattener.go
@@ -67,13 +67,16 @@ func (fv *FastWalker) WalkFastJSON(seq int64, flatPath []byte, pl int, path []st
 	case fastjson.TypeString:
 		fv.walkFastJSONString(seq, flatPath, pl, path, v)
 	case fastjson.TypeNumber:
+		fv.buf = fv.buf[:0]
+		fv.buf = v.MarshalTo(fv.buf)
+
 		n, err := v.Float64()
 		if err != nil {
-			panic(fmt.Sprintf("BUG: failed to use JSON number %q at %d:%s: %v", v.String(), seq, string(flatPath), err))
-		}
+			// Parser is tolerant to malformed numeric literals (e.g. `1-2`), using value as a string.
+			fv.FnString(seq, flatPath, pl, path, fv.buf)
 
-		fv.buf = fv.buf[:0]
-		fv.buf = v.MarshalTo(fv.buf)
+			return
+		}
 
 		fv.FnNumber(seq, flatPath, pl, path, n, fv.buf)
 	case fastjson.TypeFalse, fastjson.TypeTrue:
-- 
2.43.0


From a9b82e30d32ce11a5213e73619cb1dd03cd998c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:27 +0000
Subject: [PATCH 03/57] fix: single key lookup differed from full walk of the
 line

Empty key segment crashed the process, keys with dots, numeric object keys,
case variants of the key and values extracted from strings were missed or
mismatched, shared path buffer could be modified by concurrent workers.
---
 flatjsonl/flattener.go | 40 +++++++++++++++++++++++++++++++++++-----
 flatjsonl/keys.go      | 25 +++++++++++++++++++++++++
 flatjsonl/processor.go | 13 -------------
 flatjsonl/reader.go    | 21 ++++-----------------
 4 files changed, 64 insertions(+), 35 deletions(-)

diff --git a/flatjsonl/flattener.go b/flatjsonl/flattener.go
index 0416a0a..7eb429d 100644
--- a/flatjsonl/flattener.go
+++ b/flatjsonl/flattener.go
@@ -49,11 +49,41 @@ func (fv *FastWalker) configure(p *Processor) {
 	}
 }
 
-// GetKey walks into a single key.
-func (fv *FastWalker) GetKey(seq int64, flatPath []byte, path []string, v *fastjson.Value) {
-	vv := v.Get(path...)
-	if vv != nil {
-		fv.WalkFastJSON(seq, flatPath, 0, path, vv)
+// GetKey walks into a single key, flatPath is a full path to the key.
+func (fv *FastWalker) GetKey(seq int64, flatPath []byte, v *fastjson.Value) {
+	fv.getKey(seq, flatPath, 0, v)
+}
+
+// getKey descends only to the elements that can hold the key, flatPath[:n] is a path to the current element.
+func (fv *FastWalker) getKey(seq int64, flatPath []byte, n int, v *fastjson.Value) {
+	rest := flatPath[n:]
+
+	switch {
+	case len(rest) == 0 || v.Type() == fastjson.TypeString:
+		// Capacity is limited to avoid modifying shared flatPath on append.
+		fv.WalkFastJSON(seq, flatPath[:n:n], 0, nil, v)
+	case len(fv.KeepJSON) > 0 && fv.KeepJSON[string(flatPath[:n])]:
+		return
+	case v.Type() == fastjson.TypeObject:
+		v.GetObject().Visit(func(key []byte, v *fastjson.Value) {
+			l := len(key) + 1
+
+			if len(rest) >= l && bytes.Equal(rest[1:l], key) && (len(rest) == l || rest[l] == '.') {
+				fv.getKey(seq, flatPath, n+l, v)
+			}
+		})
+	case v.Type() == fastjson.TypeArray:
+		l := bytes.IndexByte(rest, ']') + 1
+		if l < 4 || rest[1] != '[' || (len(rest) > l && rest[l] != '.') {
+			return
+		}
+
+		idx := string(rest[2 : l-1])
+		a := v.GetArray()
+
+		if i, err := strconv.Atoi(idx); err == nil && i >= 0 && i < len(a) && strconv.Itoa(i) == idx {
+			fv.getKey(seq, flatPath, n+l, a[i])
+		}
 	}
 }
 
diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index b381051..23d8997 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -471,6 +471,31 @@ func (p *Processor) prepareScannedKeys() {
 	p.flKeysList = newFlKeys
 }
 
+// singleKey returns flat path of a key to look up without a full walk of the line,
+// result is nil if key name is ambiguous.
+func (p *Processor) singleKey(k string) []byte {
+	var (
+		res []byte
+		cnt int
+		ck  = p.ck(k)
+	)
+
+	p.flKeys.Range(func(_ uint64, value flKey) bool {
+		if value.canonical == ck {
+			res = []byte(value.original)
+			cnt++
+		}
+
+		return true
+	})
+
+	if cnt != 1 {
+		return nil
+	}
+
+	return res
+}
+
 func (p *Processor) flKeysInit() {
 	if p.flKeys.Size() == 0 && len(p.includeKeys) > 0 {
 		h := newHasher()
diff --git a/flatjsonl/processor.go b/flatjsonl/processor.go
index 9e1f037..c33e49c 100644
--- a/flatjsonl/processor.go
+++ b/flatjsonl/processor.go
@@ -545,13 +545,6 @@ func newWriteIterator(p *Processor, pkIndex map[uint64]int, pkDst map[uint64]str
 	wi.pending = xsync.NewMapOf[int64, *lineBuf]()
 	wi.finished = &sync.Map{}
 
-	if len(p.includeKeys) == 1 {
-		for _, i := range p.includeKeys {
-			kk := p.keys[i]
-			wi.singleKeyHash = newHasher().hashBytes([]byte("." + strings.Join(kk.path, ".")))
-		}
-	}
-
 	wi.lineBufPool = sync.Pool{
 		New: func() interface{} {
 			return &lineBuf{
@@ -651,8 +644,6 @@ type writeIterator struct {
 	finished *sync.Map
 
 	inProgress int64
-
-	singleKeyHash uint64
 }
 
 func (wi *writeIterator) setupWalker(w *FastWalker) {
@@ -706,10 +697,6 @@ func (wi *writeIterator) setupWalker(w *FastWalker) {
 }
 
 func (wi *writeIterator) setValue(v Value, pk uint64, l *lineBuf) {
-	if wi.singleKeyHash != 0 && pk != wi.singleKeyHash {
-		return
-	}
-
 	i, ok := wi.pkIndex[pk]
 	if !ok {
 		return
diff --git a/flatjsonl/reader.go b/flatjsonl/reader.go
index 08cccda..ac80479 100644
--- a/flatjsonl/reader.go
+++ b/flatjsonl/reader.go
@@ -53,7 +53,6 @@ type Reader struct {
 	ExtractStrings bool
 
 	singleKeyFlat []byte
-	singleKeyPath []string
 
 	totalBytes int64
 }
@@ -212,20 +211,8 @@ func (rd *Reader) Read(sess *readSession) error {
 	)
 
 	if len(rd.Processor.includeKeys) == 1 && !rd.Processor.f.ExtractStrings {
-		for _, i := range rd.Processor.includeKeys {
-			kk := rd.Processor.keys[i]
-			path := make([]string, 0, len(kk.path))
-
-			for _, s := range kk.path {
-				if s[0] == '[' && s[len(s)-1] == ']' {
-					s = s[1 : len(s)-1]
-				}
-
-				path = append(path, s)
-			}
-
-			rd.singleKeyPath = path
-			rd.singleKeyFlat = []byte("." + strings.Join(kk.path, "."))
+		for k := range rd.Processor.includeKeys {
+			rd.singleKeyFlat = rd.Processor.singleKey(k)
 		}
 	}
 
@@ -351,8 +338,8 @@ func (rd *Reader) doLine(w *syncWorker, seq, n int64, sess *readSession) error {
 			rd.OnError(fmt.Errorf("malformed JSON at line %d: %w: %s", seq, err, string(line)))
 		}
 	} else {
-		if rd.singleKeyPath != nil {
-			w.walker.GetKey(seq, rd.singleKeyFlat, rd.singleKeyPath, pv)
+		if rd.singleKeyFlat != nil {
+			w.walker.GetKey(seq, rd.singleKeyFlat, pv)
 		} else {
 			w.walker.WalkFastJSON(seq, flatPath, 0, path, pv)
 		}
-- 
2.43.0


From 2620043996637761c32df9cb88af9138fc269ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:45 +0000
Subject: [PATCH 04/57] fix: values extracted from strings were empty when key
 scan was skipped

---
 flatjsonl/keys.go | 37 ++++++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index 23d8997..89abe86 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -98,13 +98,7 @@ func (p *Processor) initKey(pk, parent uint64, path []string, t Type, isZero boo
 		}
 	}
 
-	for r, x := range p.extractRegex {
-		if r.MatchString(key) {
-			k.extractor = x
-
-			break
-		}
-	}
+	k.extractor = p.keyExtractor(key)
 
 	p.mu.Lock()
 	defer p.mu.Unlock()
@@ -471,6 +465,16 @@ func (p *Processor) prepareScannedKeys() {
 	p.flKeysList = newFlKeys
 }
 
+func (p *Processor) keyExtractor(key string) extractor {
+	for r, x := range p.extractRegex {
+		if r.MatchString(key) {
+			return x
+		}
+	}
+
+	return nil
+}
+
 // singleKey returns flat path of a key to look up without a full walk of the line,
 // result is nil if key name is ambiguous.
 func (p *Processor) singleKey(k string) []byte {
@@ -517,15 +521,22 @@ func (p *Processor) flKeysInit() {
 				canonical: p.ck(key),
 			}
 
-			for r, x := range p.extractRegex {
-				if r.MatchString(key) {
-					k.extractor = x
+			k.extractor = p.keyExtractor(key)
+			p.flKeys.Store(pk, k)
 
-					break
+			// Parent keys may hold strings to extract this key from.
+			for pos := strings.LastIndexByte(key, '.'); pos > 0; pos = strings.LastIndexByte(key[:pos], '.') {
+				parent := key[:pos]
+
+				if x := p.keyExtractor(parent); x != nil {
+					p.flKeys.LoadOrStore(h.hashBytes([]byte(parent)), flKey{
+						t:         TypeString,
+						original:  parent,
+						canonical: p.ck(parent),
+						extractor: x,
+					})
 				}
 			}
-
-			p.flKeys.Store(pk, k)
 		}
 	}
 
-- 
2.43.0


From 2770d77660f073208148b54c5ccbad9ab655915e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:05 +0000
Subject: [PATCH 05/57] fix: -skip-zero-cols had no effect

---
 flatjsonl/keys.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index 89abe86..fa25816 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -84,7 +84,7 @@ func (p *Processor) initKey(pk, parent uint64, path []string, t Type, isZero boo
 	key := KeyFromPath(path)
 
 	k.UpdateType(t)
-	k.isZero = k.isZero && isZero
+	k.isZero = isZero
 	k.path = pp
 	k.original = key
 	k.canonical = p.ck(key)
-- 
2.43.0


From 02382c973f695ea411b348ae7ff68bf06f5f9421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:08 +0000
Subject: [PATCH 06/57] fix: high cardinality key removed columns of other keys
 sharing its name prefix

---
 flatjsonl/keys.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index fa25816..86f3ed8 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -434,7 +434,7 @@ func (p *Processor) prepareScannedKeys() {
 				}
 			}
 
-			if len(k.original) > len(hc) && strings.HasPrefix(k.original, hc) {
+			if strings.HasPrefix(k.original, hc+".") {
 				p.flKeys.Delete(key)
 
 				deleted[k.original] = true
-- 
2.43.0


From 5f95191909298333896b8ce443ff5af3d44498b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:12 +0000
Subject: [PATCH 07/57] fix: -offset-lines was ignored when key scan was
 skipped

---
 flatjsonl/processor.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/flatjsonl/processor.go b/flatjsonl/processor.go
index c33e49c..bc1968d 100644
--- a/flatjsonl/processor.go
+++ b/flatjsonl/processor.go
@@ -465,6 +465,7 @@ func (p *Processor) iterateForWriters() error {
 	})
 
 	p.rd.MaxLines = 0
+	p.rd.OffsetLines = int64(p.f.OffsetLines)
 	atomic.StoreInt64(&p.rd.Sequence, 0)
 	atomic.StoreInt64(&p.errors, 0)
 
-- 
2.43.0


From fe0c8d371b81ba1829ebbb3768397a730b381324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:15 +0000
Subject: [PATCH 08/57] fix: null value blocked coalesce and was rendered as
 NULL literal in concat

---
 flatjsonl/processor.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flatjsonl/processor.go b/flatjsonl/processor.go
index bc1968d..821b1c1 100644
--- a/flatjsonl/processor.go
+++ b/flatjsonl/processor.go
@@ -731,13 +731,13 @@ func (wi *writeIterator) setValue(v Value, pk uint64, l *lineBuf) {
 	ev := l.values[i]
 	t := ev.Type
 
-	if t == TypeAbsent {
+	if t == TypeAbsent || t == TypeNull {
 		l.values[i] = v
 
 		return
 	}
 
-	if wi.p.cfg.ConcatDelimiter != nil && v.Type != TypeAbsent {
+	if wi.p.cfg.ConcatDelimiter != nil && v.Type != TypeAbsent && v.Type != TypeNull {
 		cv := Value{
 			Type:   TypeString,
 			String: ev.Format() + *wi.p.cfg.ConcatDelimiter + v.Format(),
-- 
2.43.0


From 2330ae3eb968e7b0fbea045754fd40382946ad66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:19 +0000
Subject: [PATCH 09/57] fix: -show-keys-hier crashed when no keys were scanned

---
 flatjsonl/processor.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/flatjsonl/processor.go b/flatjsonl/processor.go
index 821b1c1..6b52aaa 100644
--- a/flatjsonl/processor.go
+++ b/flatjsonl/processor.go
@@ -334,9 +334,13 @@ func (p *Processor) maybeShowKeys() error {
 	}
 
 	if p.f.ShowKeysHier {
-		b, err := assertjson.MarshalIndentCompact(
-			p.keyHierarchy.Hierarchy().(map[string]interface{})["."], //nolint:errcheck
-			"", " ", 120)
+		var hier interface{} = []interface{}{}
+
+		if h, ok := p.keyHierarchy.Hierarchy().(map[string]interface{}); ok {
+			hier = h["."]
+		}
+
+		b, err := assertjson.MarshalIndentCompact(hier, "", " ", 120)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 798deecd1551c5567404e4bd138200a714a858e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:07 +0000
Subject: [PATCH 10/57] fix: keys that differ only in letter case lost values
 or the whole column

---
 flatjsonl/keys.go | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index 86f3ed8..108a537 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -401,6 +401,7 @@ func (p *Processor) prepareScannedKeys() {
 
 	var (
 		deleted = map[string]bool{}
+		scalars = map[string]bool{}
 		hcOrig  []string
 	)
 
@@ -443,6 +444,8 @@ func (p *Processor) prepareScannedKeys() {
 			}
 		}
 
+		scalars[k.canonical] = true
+
 		if p.f.ShowKeysHier {
 			p.keyHierarchy.Add(k.path)
 		}
@@ -457,7 +460,8 @@ func (p *Processor) prepareScannedKeys() {
 	var newFlKeys []string
 
 	for _, key := range p.flKeysList {
-		if !deleted[key] {
+		// Key name in a different case may hold scalar values for the same column.
+		if !deleted[key] || scalars[p.ck(key)] {
 			newFlKeys = append(newFlKeys, key)
 		}
 	}
@@ -546,11 +550,16 @@ func (p *Processor) flKeysInit() {
 			return true
 		}
 
-		v := p.canonicalKeys[value.canonical]
-		value.isZero = value.isZero && v.isZero
-		value.t = v.t.Update(value.t)
+		v, ok := p.canonicalKeys[value.canonical]
+		if !ok {
+			v = value
+		}
+
+		// Identity of the first seen key is kept, so that column does not depend on iteration order.
+		v.isZero = value.isZero && v.isZero
+		v.t = v.t.Update(value.t)
 
-		p.canonicalKeys[value.canonical] = value
+		p.canonicalKeys[value.canonical] = v
 
 		return true
 	})
@@ -572,6 +581,7 @@ func (p *Processor) iterateIncludeKeys() {
 		excludeKeys[p.ck(k)] = true
 	}
 
+	canonicalIncludes := make(map[string]bool)
 	i := 0
 
 	for _, k := range p.cfg.IncludeKeys {
@@ -593,13 +603,13 @@ func (p *Processor) iterateIncludeKeys() {
 			continue
 		}
 
+		canonicalIncludes[p.ck(k)] = true
+
 		p.addIncludeKey(k, &i)
 	}
 
 	p.flKeysInit()
 
-	canonicalIncludes := make(map[string]bool)
-
 	for _, k := range p.flKeysList {
 		if _, ok := p.includeKeys[k]; ok {
 			continue
@@ -632,7 +642,7 @@ func (p *Processor) iterateIncludeKeys() {
 		if len(p.includeRegex) > 0 {
 			for _, r := range p.includeRegex {
 				if r.MatchString(k) {
-					canonicalIncludes[k] = true
+					canonicalIncludes[ck] = true
 
 					p.addIncludeKey(k, &i)
 
@@ -641,11 +651,11 @@ func (p *Processor) iterateIncludeKeys() {
 			}
 		} else if len(p.cfg.IncludeKeys) == 0 {
 			if !p.f.SkipZeroCols {
-				canonicalIncludes[k] = true
+				canonicalIncludes[ck] = true
 
 				p.addIncludeKey(k, &i)
 			} else if !p.canonicalKeys[ck].isZero {
-				canonicalIncludes[k] = true
+				canonicalIncludes[ck] = true
 
 				p.addIncludeKey(k, &i)
 			}
-- 
2.43.0


From 50f1637ca13b5bda8048f3ee314a03df22c1e644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:29 +0000
Subject: [PATCH 11/57] fix: SQLite output failed on names with double quotes

---
 flatjsonl/sqlite_writer.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/flatjsonl/sqlite_writer.go b/flatjsonl/sqlite_writer.go
index 7d27ffc..f034233 100644
--- a/flatjsonl/sqlite_writer.go
+++ b/flatjsonl/sqlite_writer.go
@@ -131,7 +131,7 @@ func (c *SQLiteWriter) insert(seq int64, tn string, values []Value) error {
 	c.rowsTx++
 
 	tableName := tn
-	res := `INSERT INTO "` + tableName + `" VALUES (` + strconv.Itoa(int(seq)) + `,`
+	res := `INSERT INTO ` + c.quote(tableName) + ` VALUES (` + strconv.Itoa(int(seq)) + `,`
 	part := 1
 
 	for i, v := range values {
@@ -146,7 +146,7 @@ func (c *SQLiteWriter) insert(seq int64, tn string, values []Value) error {
 
 			part++
 			tableName = tn + partSuffix + strconv.Itoa(part)
-			res = `INSERT INTO "` + tableName + `" VALUES (` + strconv.Itoa(int(seq)) + `,`
+			res = `INSERT INTO ` + c.quote(tableName) + ` VALUES (` + strconv.Itoa(int(seq)) + `,`
 		}
 
 		if v.Type != TypeNull && v.Type != TypeAbsent {
@@ -191,9 +191,13 @@ func (c *SQLiteWriter) execTx(res string) error {
 	return nil
 }
 
+func (c *SQLiteWriter) quote(name string) string {
+	return `"` + c.replacer.Replace(name) + `"`
+}
+
 func (c *SQLiteWriter) createTable(tn string, keys []flKey, isTransposed bool) error {
 	tableName := tn
-	createTable := `CREATE TABLE "` + tableName + `" (
+	createTable := `CREATE TABLE ` + c.quote(tableName) + ` (
 `
 
 	if !isTransposed {
@@ -219,7 +223,7 @@ _seq_id integer,
 
 			part++
 			tableName = tn + partSuffix + strconv.Itoa(part)
-			createTable = `CREATE TABLE "` + tableName + `" (
+			createTable = `CREATE TABLE ` + c.quote(tableName) + ` (
 `
 
 			if !isTransposed {
@@ -242,7 +246,7 @@ _seq_id integer,
 			tp = " REAL"
 		}
 
-		createTable += `"` + k.replaced + `"` + tp + `,` + "\n"
+		createTable += c.quote(k.replaced) + tp + `,` + "\n"
 	}
 
 	createTable = createTable[:len(createTable)-2] + "\n)"
-- 
2.43.0


From 2fbee0bc5acdc7acb27022a8c616a05b1012f08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:48 +0000
Subject: [PATCH 12/57] fix: SQLite output failed on string values with NUL
 character

---
 flatjsonl/sqlite_writer.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/flatjsonl/sqlite_writer.go b/flatjsonl/sqlite_writer.go
index f034233..9b0c0e6 100644
--- a/flatjsonl/sqlite_writer.go
+++ b/flatjsonl/sqlite_writer.go
@@ -134,23 +134,30 @@ func (c *SQLiteWriter) insert(seq int64, tn string, values []Value) error {
 	res := `INSERT INTO ` + c.quote(tableName) + ` VALUES (` + strconv.Itoa(int(seq)) + `,`
 	part := 1
 
+	var args []any
+
 	for i, v := range values {
 		if i > 0 && i%c.maxCols == 0 {
 			c.rowsTx++
 
 			res = res[:len(res)-1] + ")"
 
-			if err := c.execTx(res); err != nil {
+			if err := c.execTx(res, args); err != nil {
 				return err
 			}
 
+			args = args[:0]
+
 			part++
 			tableName = tn + partSuffix + strconv.Itoa(part)
 			res = `INSERT INTO ` + c.quote(tableName) + ` VALUES (` + strconv.Itoa(int(seq)) + `,`
 		}
 
 		if v.Type != TypeNull && v.Type != TypeAbsent {
-			res += `"` + c.replacer.Replace(v.Format()) + `",`
+			// Binding value, because string literal can not contain NUL character.
+			res += `?,`
+
+			args = append(args, v.Format())
 		} else {
 			res += `NULL,`
 		}
@@ -158,7 +165,7 @@ func (c *SQLiteWriter) insert(seq int64, tn string, values []Value) error {
 
 	res = res[:len(res)-1] + ")"
 
-	return c.execTx(res)
+	return c.execTx(res, args)
 }
 
 func (c *SQLiteWriter) commitTx() error {
@@ -172,7 +179,7 @@ func (c *SQLiteWriter) commitTx() error {
 	return nil
 }
 
-func (c *SQLiteWriter) execTx(res string) error {
+func (c *SQLiteWriter) execTx(res string, args []any) error {
 	if c.tx == nil {
 		tx, err := c.db.Begin()
 		if err != nil {
@@ -183,7 +190,7 @@ func (c *SQLiteWriter) execTx(res string) error {
 		c.rowsTx = 0
 	}
 
-	_, err := c.tx.Exec(res)
+	_, err := c.tx.Exec(res, args...)
 	if err != nil {
 		return fmt.Errorf("failed to insert SQLite row: %w", err)
 	}
-- 
2.43.0


From e22424d76b1b4c97640a915002e78d211f23f85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:55 +0000
Subject: [PATCH 13/57] fix: -key-limit merged different replaced keys and
 crashed on small limits

---
 flatjsonl/keys.go      | 21 +++++++++++++++++----
 flatjsonl/processor.go |  1 +
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index 108a537..ad8b9ae 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -677,6 +677,7 @@ func (p *Processor) prepareKeys() {
 
 	p.replaceKeys = make(map[string]string)
 	p.replaceByKey = make(map[string]string)
+	p.limitedKeys = make(map[string]string)
 
 	for k, r := range p.cfg.ReplaceKeys {
 		mk := p.ck(k)
@@ -757,6 +758,21 @@ func (p *Processor) prepareKeys() {
 	p.keys = keys
 }
 
+// limitKey truncates key name, different keys have different truncated names.
+func (p *Processor) limitKey(key string) string {
+	for i := p.includeKeys[key]; ; i++ {
+		is := strconv.Itoa(i)
+		limited := key[0:max(0, p.f.KeyLimit-len(is))] + is
+		_, exists := p.includeKeys[limited]
+
+		if taken, ok := p.limitedKeys[limited]; !exists && (!ok || taken == key) {
+			p.limitedKeys[limited] = key
+
+			return limited
+		}
+	}
+}
+
 func (p *Processor) prepareKey(origKey string) (kk string) {
 	ck := p.ck(origKey)
 
@@ -766,10 +782,7 @@ func (p *Processor) prepareKey(origKey string) (kk string) {
 
 	defer func() {
 		if p.f.KeyLimit > 0 && len(kk) > p.f.KeyLimit {
-			i := p.includeKeys[kk]
-			is := strconv.Itoa(i)
-
-			kk = kk[0:(p.f.KeyLimit-len(is))] + is
+			kk = p.limitKey(kk)
 
 			p.replaceKeys[ck] = kk
 		}
diff --git a/flatjsonl/processor.go b/flatjsonl/processor.go
index 6b52aaa..8d606f8 100644
--- a/flatjsonl/processor.go
+++ b/flatjsonl/processor.go
@@ -45,6 +45,7 @@ type Processor struct {
 
 	replaceKeys  map[string]string
 	replaceByKey map[string]string
+	limitedKeys  map[string]string
 
 	// keys are ordered by replaced column names, indexes match values of includeKeys.
 	keys []flKey
-- 
2.43.0


From 27ab9e93eaf94e17b911d25a86a28235a3b92f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:22 +0000
Subject: [PATCH 14/57] fix: -replace-keys crashed on keys without alphanumeric
 characters

---
 flatjsonl/keys.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index ad8b9ae..428ffaf 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -823,11 +823,7 @@ func (p *Processor) prepareKey(origKey string) (kk string) {
 	snk := strings.Trim(ski, "[]")
 
 	for {
-		if len(snk) == 0 {
-			panic("BUG: empty snk for '" + origKey + "'")
-		}
-
-		if stored, ok := p.replaceByKey[snk]; (!ok || origKey == stored) && (snk[0] == '_' || unicode.IsLetter(rune(snk[0]))) {
+		if stored, ok := p.replaceByKey[snk]; len(snk) > 0 && (!ok || origKey == stored) && (snk[0] == '_' || unicode.IsLetter(rune(snk[0]))) {
 			p.replaceByKey[snk] = origKey
 			origKey = snk
 
@@ -836,12 +832,16 @@ func (p *Processor) prepareKey(origKey string) (kk string) {
 
 		i--
 
-		if i == 0 {
+		if i <= 0 {
 			break
 		}
 
 		ski := toSnakeCase(sk[i])
-		snk = strings.Trim(ski, "[]") + "_" + snk
+		if len(snk) > 0 {
+			snk = strings.Trim(ski, "[]") + "_" + snk
+		} else {
+			snk = strings.Trim(ski, "[]")
+		}
 	}
 
 	return origKey
-- 
2.43.0


From 8949d74f70ff09551362534dc2d2a3b015547728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:56 +0000
Subject: [PATCH 15/57] fix: PostgreSQL dump crashed when number of columns is
 a multiple of -sql-max-cols

---
 flatjsonl/pg_dump_writer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/flatjsonl/pg_dump_writer.go b/flatjsonl/pg_dump_writer.go
index bd5108e..a08049c 100644
--- a/flatjsonl/pg_dump_writer.go
+++ b/flatjsonl/pg_dump_writer.go
@@ -48,6 +48,10 @@ type csvCopier struct {
 func NewPGDumpWriter(fn string, tableName string, p *Processor) (*PGDumpWriter, error) {
 	var err error
 
+	if p.f.SQLMaxCols == 0 {
+		p.f.SQLMaxCols = 500
+	}
+
 	c := &PGDumpWriter{
 		fn:         fn,
 		tableName:  tableName,
@@ -196,7 +200,7 @@ func (c *PGDumpWriter) insert(seq int64, tn string, values []string) error {
 	tw := c.csvCopiers[tableName]
 
 	for {
-		if len(values) < c.maxCols {
+		if len(values) <= c.maxCols {
 			row := make([]string, 0, len(values)+1)
 			row = append(row, strconv.Itoa(int(seq)))
 			row = append(row, values...)
-- 
2.43.0


From 0fc04ebe9f32002dcde2f0561e7ecb334622fedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:25 +0000
Subject: [PATCH 16/57] fix: failures to write tail of the output were not
 reported

---
 flatjsonl/csv_writer.go    | 10 +++++-----
 flatjsonl/raw_writer.go    |  8 ++------
 flatjsonl/sqlite_writer.go | 10 ++++++----
 3 files changed, 13 insertions(+), 15 deletions(-)

diff --git a/flatjsonl/csv_writer.go b/flatjsonl/csv_writer.go
index e65f6be..6fb2378 100644
--- a/flatjsonl/csv_writer.go
+++ b/flatjsonl/csv_writer.go
@@ -2,6 +2,7 @@ package flatjsonl
 
 import (
 	"encoding/csv"
+	"errors"
 	"fmt"
 )
 
@@ -126,14 +127,13 @@ func (c *CSVWriter) ReceiveRow(seq int64, values []Value) error {
 // Close flushes rows and closes file.
 func (c *CSVWriter) Close() error {
 	c.w.Flush()
+	err := c.w.Error()
 
 	for _, tw := range c.transposed {
-		tw.w.Flush()
-
-		if err := tw.f.Close(); err != nil {
-			println("failed to close transpose CSV file: " + err.Error())
+		if twErr := tw.Close(); twErr != nil {
+			err = errors.Join(err, fmt.Errorf("failed to close transposed CSV file: %w", twErr))
 		}
 	}
 
-	return c.f.Close()
+	return errors.Join(err, c.f.Close())
 }
diff --git a/flatjsonl/raw_writer.go b/flatjsonl/raw_writer.go
index 0f7916d..a7a50d0 100644
--- a/flatjsonl/raw_writer.go
+++ b/flatjsonl/raw_writer.go
@@ -120,12 +120,8 @@ func (c *RawWriter) Close() error {
 	}
 
 	for _, tw := range c.transposed {
-		if err := tw.w.Flush(); err != nil {
-			return fmt.Errorf("failed to flush transposed RAW file: %w", err)
-		}
-
-		if err := tw.f.Close(); err != nil {
-			println("failed to close transposed RAW file: " + err.Error())
+		if err := tw.Close(); err != nil {
+			return fmt.Errorf("failed to close transposed RAW file: %w", err)
 		}
 	}
 
diff --git a/flatjsonl/sqlite_writer.go b/flatjsonl/sqlite_writer.go
index 9b0c0e6..0bc0a3b 100644
--- a/flatjsonl/sqlite_writer.go
+++ b/flatjsonl/sqlite_writer.go
@@ -2,6 +2,7 @@ package flatjsonl
 
 import (
 	"database/sql"
+	"errors"
 	"fmt"
 	"strconv"
 	"strings"
@@ -268,12 +269,13 @@ _seq_id integer,
 
 // Close commits outstanding transaction and closes database instance.
 func (c *SQLiteWriter) Close() error {
+	var err error
+
 	if c.tx != nil {
-		err := c.tx.Commit()
-		if err != nil {
-			println(err.Error())
+		if err = c.tx.Commit(); err != nil {
+			err = fmt.Errorf("failed to commit SQLite transaction: %w", err)
 		}
 	}
 
-	return c.db.Close()
+	return errors.Join(err, c.db.Close())
 }
-- 
2.43.0


From 599a03d49dde6d74eb72f243055f3f853795fa8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:29 +0000
Subject: [PATCH 17/57] fix: endless loop in JSON schema of a URL extracted
 from string

---
 flatjsonl/flattener.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flatjsonl/flattener.go b/flatjsonl/flattener.go
index 7eb429d..48ecfa4 100644
--- a/flatjsonl/flattener.go
+++ b/flatjsonl/flattener.go
@@ -259,9 +259,10 @@ func (fv *FastWalker) walkFastJSONString(seq int64, flatPath []byte, pl int, pat
 
 			v, err := p.ParseBytes(us)
 			if err == nil {
-				flatPath = append(flatPath, []byte(".URL")...)
 				pl := len(flatPath)
 
+				flatPath = append(flatPath, []byte(".URL")...)
+
 				if fv.WantPath {
 					fv.WalkFastJSON(seq, flatPath, pl, append(path, "URL"), v)
 				} else {
-- 
2.43.0


From 61c68d01b25db026dcc64c2e346bcee06a144be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:54 +0000
Subject: [PATCH 18/57] fix: sequence numbers and array indexes starting from
 100000 lost precision

---
 flatjsonl/keys.go   | 5 +++--
 flatjsonl/reader.go | 3 +--
 flatjsonl/writer.go | 5 +++--
 3 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index 428ffaf..bb7ce50 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -59,8 +59,9 @@ func (is intOrString) Value() Value {
 	}
 
 	return Value{
-		Type:   TypeFloat,
-		Number: float64(is.i),
+		Type:      TypeFloat,
+		Number:    float64(is.i),
+		RawNumber: strconv.Itoa(is.i),
 	}
 }
 
diff --git a/flatjsonl/reader.go b/flatjsonl/reader.go
index ac80479..fbc3e0a 100644
--- a/flatjsonl/reader.go
+++ b/flatjsonl/reader.go
@@ -305,8 +305,7 @@ func (rd *Reader) doLine(w *syncWorker, seq, n int64, sess *readSession) error {
 	}
 
 	if rd.AddSequence {
-		seqf := float64(seq)
-		w.walker.FnNumber(seq, []byte("._sequence"), 0, []string{"_sequence"}, seqf, []byte(Format(seqf)))
+		w.walker.FnNumber(seq, []byte("._sequence"), 0, []string{"_sequence"}, float64(seq), strconv.AppendInt(nil, seq, 10))
 	}
 
 	line := w.line
diff --git a/flatjsonl/writer.go b/flatjsonl/writer.go
index 7caafba..22306da 100644
--- a/flatjsonl/writer.go
+++ b/flatjsonl/writer.go
@@ -320,8 +320,9 @@ func (b *baseWriter) receiveTransposedRowValues(seq int64, values []Value) (tran
 		if row == nil {
 			row = make([]Value, len(b.trimmedKeys))
 			row[0] = Value{
-				Type:   TypeFloat,
-				Number: float64(seq),
+				Type:      TypeFloat,
+				Number:    float64(seq),
+				RawNumber: strconv.FormatInt(seq, 10),
 			} // Add sequence.
 			row[1] = k.transposeKey.Value() // Add array idx/object property.
 			transposedRowsIdx[transposeKey] = row
-- 
2.43.0


From b2b0539d839e7cb3e1b17eb7ae78fbfd87a9dd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:09 +0000
Subject: [PATCH 19/57] fix: PostgreSQL dump declared columns with types that
 do not accept their values

---
 flatjsonl/keys.go           | 15 ++++++++++-----
 flatjsonl/pg_dump_writer.go |  2 +-
 flatjsonl/writer.go         |  2 +-
 3 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index bb7ce50..236a6fd 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -353,11 +353,11 @@ func (p *Processor) scanAvailableKeys() error {
 
 					return x
 				}
-				w.FnNumber = func(_ int64, flatPath []byte, pl int, path []string, value float64, _ []byte) {
+				w.FnNumber = func(_ int64, flatPath []byte, pl int, path []string, value float64, raw []byte) {
 					pk, parent := h.hashParentBytes(flatPath, pl)
-					isInt := float64(int(value)) == value
 
-					if isInt {
+					// Literals like 1.0 or 1e5 are not accepted as values of integer columns.
+					if _, err := strconv.ParseInt(string(raw), 10, 64); err == nil {
 						p.scanKey(pk, parent, path, TypeInt, value == 0)
 					} else {
 						p.scanKey(pk, parent, path, TypeFloat, value == 0)
@@ -714,6 +714,7 @@ func (p *Processor) prepareKeys() {
 		switch {
 		case !ok: // Can happen for meta keys like `const:X`.
 			ck.replaced = p.prepareKey(origKey)
+			ck.t = TypeString
 		case ck.transposeDst == "":
 			ck.replaced = p.prepareKey(ck.original)
 		default:
@@ -730,8 +731,12 @@ func (p *Processor) prepareKeys() {
 	for i, pk := range p.keys {
 		if pk.transposeDst == "" {
 			if j, ok := keyExists[pk.replaced]; ok {
-				pk.UpdateType(p.keys[i].t)
-				p.keys[i] = pk
+				keys[j].UpdateType(pk.t)
+
+				if p.cfg.ConcatDelimiter != nil {
+					keys[j].UpdateType(TypeString)
+				}
+
 				keyMap[i] = j
 
 				continue
diff --git a/flatjsonl/pg_dump_writer.go b/flatjsonl/pg_dump_writer.go
index a08049c..cb10de9 100644
--- a/flatjsonl/pg_dump_writer.go
+++ b/flatjsonl/pg_dump_writer.go
@@ -294,7 +294,7 @@ func (c *PGDumpWriter) createTable(tn string, keys []flKey, isTransposed bool) e
 			if _, ok := c.p.cfg.ParseTime[k.original]; ok {
 				tp = " TIMESTAMP"
 			}
-		case TypeAbsent, TypeNull:
+		case TypeAbsent, TypeNull, TypeJSON:
 			tp = " VARCHAR"
 		}
 
diff --git a/flatjsonl/writer.go b/flatjsonl/writer.go
index 22306da..97dd438 100644
--- a/flatjsonl/writer.go
+++ b/flatjsonl/writer.go
@@ -164,7 +164,7 @@ func (b *baseWriter) setupKeys(keys []flKey) {
 		tw := b.transposedWriter(key.transposeDst, keys)
 
 		tw.keyIndexes = append(tw.keyIndexes, i)
-		tw.indexType = key.transposeKey.t
+		tw.indexType = tw.indexType.Update(key.transposeKey.t)
 
 		ik, ok := tw.trimmedKeys[key.transposeTrimmed]
 		if !ok {
-- 
2.43.0


From 3114b8efdd53bd42fcbab9a496a5726be17b26c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:44 +0000
Subject: [PATCH 20/57] fix: data race in key scan, seen types were repeated or
 missed

---
 flatjsonl/keys.go | 21 +++------------------
 1 file changed, 3 insertions(+), 18 deletions(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index 236a6fd..831834d 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"fmt"
 	"regexp"
+	"slices"
 	"sort"
 	"strconv"
 	"strings"
@@ -29,16 +30,8 @@ type flKey struct {
 }
 
 func (k *flKey) UpdateType(u Type) {
-	if len(k.tt) == 0 {
+	if !slices.Contains(k.tt, u) {
 		k.tt = append(k.tt, u)
-	} else {
-		for _, t := range k.tt {
-			if t != u {
-				k.tt = append(k.tt, u)
-
-				break
-			}
-		}
 	}
 
 	k.t = k.t.Update(u)
@@ -135,15 +128,7 @@ func (p *Processor) scanKey(pk, parent uint64, path []string, t Type, isZero boo
 		k = p.initKey(pk, parent, path, t, isZero)
 	}
 
-	updType := false
-
-	if k.t != t {
-		k.UpdateType(t)
-
-		updType = true
-	}
-
-	if updType || (k.isZero && !isZero) {
+	if !slices.Contains(k.tt, t) || (k.isZero && !isZero) {
 		p.mu.Lock()
 		defer p.mu.Unlock()
 
-- 
2.43.0


From 71b452c4c385b9da9142b3da857499b9fd6a68a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:13 +0000
Subject: [PATCH 21/57] fix: output timezone was not applied to timestamps that
 have their own offset

---
 flatjsonl/processor.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/flatjsonl/processor.go b/flatjsonl/processor.go
index 8d606f8..4a43fb2 100644
--- a/flatjsonl/processor.go
+++ b/flatjsonl/processor.go
@@ -723,6 +723,10 @@ func (wi *writeIterator) setValue(v Value, pk uint64, l *lineBuf) {
 				t, err = time.Parse(tf, v.String)
 			}
 
+			if err == nil && wi.outputTZ != nil {
+				t = t.In(wi.outputTZ)
+			}
+
 			if err != nil {
 				v.String = fmt.Sprintf("failed to parse time %s: %s", v.String, err)
 			} else {
-- 
2.43.0


From 7e88085b4275191ac187238069fe615e9e935eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:17 +0000
Subject: [PATCH 22/57] fix: looped input continued from a middle of line in
 the second pass, hung on empty file

---
 flatjsonl/reader.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/flatjsonl/reader.go b/flatjsonl/reader.go
index fbc3e0a..411aa89 100644
--- a/flatjsonl/reader.go
+++ b/flatjsonl/reader.go
@@ -399,6 +399,7 @@ func (rd *Reader) prefixedLine(seq int64, line []byte, walkFn func(seq int64, fl
 type LoopReader struct {
 	BytesLimit int
 	bytesRead  int
+	buf        []byte
 	src        *bytes.Reader
 }
 
@@ -411,6 +412,7 @@ func LoopReaderFromFile(fn string, bytesLimit int) (*LoopReader, error) {
 
 	return &LoopReader{
 		BytesLimit: bytesLimit,
+		buf:        f,
 		src:        bytes.NewReader(f),
 	}, nil
 }
@@ -428,11 +430,12 @@ func (l *LoopReader) Size() int64 {
 // Reset resets the counter.
 func (l *LoopReader) Reset() {
 	l.bytesRead = 0
+	l.src.Reset(l.buf)
 }
 
 // Read implements io.Reader.
 func (l *LoopReader) Read(p []byte) (n int, err error) {
-	if l.bytesRead >= l.BytesLimit {
+	if l.bytesRead >= l.BytesLimit || len(l.buf) == 0 {
 		return 0, io.EOF
 	}
 
-- 
2.43.0


From 239b703698034da58632f25b4ecb4cefaa6d83d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:26 +0000
Subject: [PATCH 23/57] fix: empty or bracketed key in transposed object
 crashed the key scan

---
 flatjsonl/keys.go | 29 +++++++++++------------------
 1 file changed, 11 insertions(+), 18 deletions(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index 831834d..79251b9 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -59,7 +59,7 @@ func (is intOrString) Value() Value {
 }
 
 func (is intOrString) String() string {
-	if is.s != "" {
+	if is.t == TypeString {
 		return is.s
 	}
 
@@ -186,25 +186,18 @@ func scanTransposedKey(dst string, tk string, k *flKey) {
 		trimmed = trimmed[1:]
 	}
 
-	// Array.
-	if trimmed[0] == '[' {
-		pos := strings.Index(trimmed, "]")
-		idx := trimmed[1:pos]
+	name := trimmed
+	if pos := strings.Index(trimmed, "."); pos >= 0 {
+		name = trimmed[0:pos]
+	}
 
-		i, err := strconv.Atoi(idx)
-		if err != nil {
-			panic("BUG: failed to parse idx " + idx + ": " + err.Error())
-		}
+	trimmed = trimmed[len(name):]
+	k.transposeKey = intOrString{t: TypeString, s: name}
 
-		trimmed = trimmed[pos+1:]
-		k.transposeKey = intOrString{t: TypeInt, i: i}
-	} else {
-		if pos := strings.Index(trimmed, "."); pos > 0 {
-			k.transposeKey = intOrString{t: TypeString, s: trimmed[0:pos]}
-			trimmed = trimmed[pos:]
-		} else {
-			k.transposeKey = intOrString{t: TypeString, s: trimmed}
-			trimmed = ""
+	// Array.
+	if l := len(name); l > 2 && name[0] == '[' && name[l-1] == ']' {
+		if i, err := strconv.Atoi(name[1 : l-1]); err == nil {
+			k.transposeKey = intOrString{t: TypeInt, i: i}
 		}
 	}
 
-- 
2.43.0


From 60bee6295baa4906b3968d1755dd27722a8e9b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:29 +0000
Subject: [PATCH 24/57] fix: transpose moved values of other keys sharing name
 prefix

---
 flatjsonl/keys.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index 79251b9..04e95ff 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -85,7 +85,7 @@ func (p *Processor) initKey(pk, parent uint64, path []string, t Type, isZero boo
 	k.parent = parent
 
 	for tk, dst := range p.cfg.Transpose {
-		if len(k.original) > len(tk) && strings.HasPrefix(k.original, tk) {
+		if strings.HasPrefix(k.original, strings.TrimSuffix(tk, ".")+".") {
 			scanTransposedKey(dst, tk, &k)
 
 			break
-- 
2.43.0


From f94f3da2746bb242f1301fb0fa3c69ad2fe21b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:08 +0000
Subject: [PATCH 25/57] fix: transposing several keys into one table merged
 their rows

---
 flatjsonl/keys.go   | 2 ++
 flatjsonl/writer.go | 8 ++++----
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index 04e95ff..ebb7233 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -22,6 +22,7 @@ type flKey struct {
 	original         string
 	canonical        string
 	replaced         string
+	transposeSrc     string
 	transposeDst     string
 	transposeKey     intOrString
 	transposeTrimmed string
@@ -205,6 +206,7 @@ func scanTransposedKey(dst string, tk string, k *flKey) {
 		trimmed = "._value"
 	}
 
+	k.transposeSrc = tk
 	k.transposeDst = dst
 	k.transposeTrimmed = trimmed
 }
diff --git a/flatjsonl/writer.go b/flatjsonl/writer.go
index 97dd438..a800b79 100644
--- a/flatjsonl/writer.go
+++ b/flatjsonl/writer.go
@@ -275,13 +275,13 @@ func (b *baseWriter) receiveRow(seq int64, values []Value) (transposedRows [][]s
 			k := b.keys[i]
 
 			transposeKey := k.transposeKey.String()
-			row := transposedRowsIdx[transposeKey]
+			row := transposedRowsIdx[k.transposeSrc+transposeKey]
 
 			if row == nil {
 				row = make([]string, len(b.trimmedKeys))
 				row[0] = strconv.Itoa(int(seq)) // Add sequence.
 				row[1] = transposeKey           // Add array idx/object property.
-				transposedRowsIdx[transposeKey] = row
+				transposedRowsIdx[k.transposeSrc+transposeKey] = row
 				transposedRows = append(transposedRows, row)
 			}
 
@@ -315,7 +315,7 @@ func (b *baseWriter) receiveTransposedRowValues(seq int64, values []Value) (tran
 		k := b.keys[i]
 
 		transposeKey := k.transposeKey.String()
-		row := transposedRowsIdx[transposeKey]
+		row := transposedRowsIdx[k.transposeSrc+transposeKey]
 
 		if row == nil {
 			row = make([]Value, len(b.trimmedKeys))
@@ -325,7 +325,7 @@ func (b *baseWriter) receiveTransposedRowValues(seq int64, values []Value) (tran
 				RawNumber: strconv.FormatInt(seq, 10),
 			} // Add sequence.
 			row[1] = k.transposeKey.Value() // Add array idx/object property.
-			transposedRowsIdx[transposeKey] = row
+			transposedRowsIdx[k.transposeSrc+transposeKey] = row
 			transposedRows = append(transposedRows, row)
 		}
 
-- 
2.43.0


From e9b4fcf1878725091093c459351a1d5eba10ce4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:11 +0000
Subject: [PATCH 26/57] fix: JSON schema misplaced properties of keys that are
 scalar in some lines

---
 flatjsonl/flattener.go | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/flatjsonl/flattener.go b/flatjsonl/flattener.go
index 48ecfa4..d43b780 100644
--- a/flatjsonl/flattener.go
+++ b/flatjsonl/flattener.go
@@ -3,6 +3,7 @@ package flatjsonl
 import (
 	"bytes"
 	"fmt"
+	"slices"
 	"strconv"
 	"strings"
 
@@ -357,17 +358,13 @@ func (j *jsonSchema) AddKey(k flKey, keys *xsync.MapOf[uint64, flKey]) {
 	}
 
 	parentSchema := j
-	parentType := TypeObject
+	parentArray := false
 
 	for i := len(parents) - 1; i >= 0; i-- {
 		pk := parents[i]
 		name := pk.path[len(pk.path)-1]
 
-		if i != 0 && pk.t == TypeString {
-			pk.t = TypeObject
-		}
-
-		if parentType == TypeObject {
+		if !parentArray || !strings.HasPrefix(name, "[") {
 			if parentSchema.Properties == nil {
 				parentSchema.Properties = make(map[string]*jsonSchema)
 			}
@@ -379,16 +376,15 @@ func (j *jsonSchema) AddKey(k flKey, keys *xsync.MapOf[uint64, flKey]) {
 
 			parentSchema.Properties[name] = property
 			parentSchema = property
-
-			parentType = pk.t
-		} else if parentType == TypeArray {
+		} else {
 			if parentSchema.Items == nil {
 				parentSchema.Items = &jsonSchema{}
 			}
 
 			parentSchema = parentSchema.Items
-			parentType = pk.t
 		}
+
+		parentArray = slices.Contains(pk.tt, TypeArray)
 	}
 
 	for _, t := range k.tt {
-- 
2.43.0


From 5b31efcde49b291fd6886087e51d71c2f35b170f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:14 +0000
Subject: [PATCH 27/57] verif: scheduling points behind verif build tag

---
 flatjsonl/keys.go      |  5 +++
 flatjsonl/processor.go | 10 ++++++
 flatjsonl/reader.go    |  2 ++
 flatjsonl/verif_off.go |  6 ++++
 flatjsonl/verif_on.go  | 72 ++++++++++++++++++++++++++++++++++++++++++
 5 files changed, 95 insertions(+)
 create mode 100644 flatjsonl/verif_off.go
 create mode 100644 flatjsonl/verif_on.go

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index ebb7233..761a2b3 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -95,6 +95,8 @@ func (p *Processor) initKey(pk, parent uint64, path []string, t Type, isZero boo
 
 	k.extractor = p.keyExtractor(key)
 
+	verifPoint("initKey", int64(pk)) //nolint:gosec
+
 	p.mu.Lock()
 	defer p.mu.Unlock()
 
@@ -130,6 +132,8 @@ func (p *Processor) scanKey(pk, parent uint64, path []string, t Type, isZero boo
 	}
 
 	if !slices.Contains(k.tt, t) || (k.isZero && !isZero) {
+		verifPoint("scanKey", int64(pk)) //nolint:gosec
+
 		p.mu.Lock()
 		defer p.mu.Unlock()
 
@@ -164,6 +168,7 @@ func (p *Processor) collectKeyCardinality(k flKey) {
 			ppk, gpk := newHasher().hashParentBytes([]byte(parentKey), len(grandParentKey))
 
 			p.mu.Unlock()
+			verifPoint("highCardinality", int64(ppk)) //nolint:gosec
 			p.initKey(ppk, gpk, pp, TypeJSON, false)
 			p.mu.Lock()
 
diff --git a/flatjsonl/processor.go b/flatjsonl/processor.go
index 4a43fb2..77faa9d 100644
--- a/flatjsonl/processor.go
+++ b/flatjsonl/processor.go
@@ -789,8 +789,12 @@ func (wi *writeIterator) lineFinished(seq int64) error {
 		panic("BUG: could not find pending line to finish")
 	}
 
+	verifPoint("finish", seq)
+
 	wi.finished.Store(seq, l)
 
+	verifPoint("finished", seq)
+
 	return wi.checkCompleted()
 }
 
@@ -808,10 +812,16 @@ func (wi *writeIterator) complete(seq int64, l *lineBuf) error {
 		l.values[i] = val
 	}
 
+	verifPoint("receive", seq)
+
 	err := wi.p.w.ReceiveRow(seq, l.values)
 
+	verifPoint("received", seq)
+
 	atomic.AddInt64(&wi.seqExpected, 1)
 
+	verifPoint("completed", seq)
+
 	for i := range l.values {
 		l.values[i] = Value{}
 	}
diff --git a/flatjsonl/reader.go b/flatjsonl/reader.go
index 411aa89..c8edf85 100644
--- a/flatjsonl/reader.go
+++ b/flatjsonl/reader.go
@@ -298,6 +298,8 @@ func (rd *Reader) doLine(w *syncWorker, seq, n int64, sess *readSession) error {
 		}
 	}()
 
+	verifPoint("line", seq)
+
 	if sess.lineStarted != nil {
 		if err := sess.lineStarted(seq); err != nil {
 			return fmt.Errorf("failure in line started callback, line %d: %w", n, err)
diff --git a/flatjsonl/verif_off.go b/flatjsonl/verif_off.go
new file mode 100644
index 0000000..aba1676
--- /dev/null
+++ b/flatjsonl/verif_off.go
@@ -0,0 +1,6 @@
+//go:build !verif
+
+package flatjsonl
+
+// verifPoint marks a scheduling point, it is only active with verif build tag.
+func verifPoint(_ string, _ int64) {}
diff --git a/flatjsonl/verif_on.go b/flatjsonl/verif_on.go
new file mode 100644
index 0000000..a5f1449
--- /dev/null
+++ b/flatjsonl/verif_on.go
@@ -0,0 +1,72 @@
+//go:build verif
+
+package flatjsonl
+
+import (
+	"fmt"
+	"os"
+	"runtime"
+	"strconv"
+	"strings"
+	"sync"
+	"time"
+)
+
+// Scheduling points are controlled with environment variables:
+//   - FLATJSONL_VERIF_SCHED=<seed>:<percent>:<max delay, microseconds> perturbs goroutine schedule,
+//     decision at a point is a function of seed, name of the point and sequence number;
+//   - FLATJSONL_VERIF_LOG=<file> records order of passing the points.
+var (
+	verifSeed, verifPercent, verifDelay uint64
+
+	verifLogMu sync.Mutex
+	verifLog   *os.File
+)
+
+func init() {
+	if s := strings.Split(os.Getenv("FLATJSONL_VERIF_SCHED"), ":"); len(s) == 3 {
+		verifSeed, _ = strconv.ParseUint(s[0], 10, 64)
+		verifPercent, _ = strconv.ParseUint(s[1], 10, 64)
+		verifDelay, _ = strconv.ParseUint(s[2], 10, 64)
+	}
+
+	if fn := os.Getenv("FLATJSONL_VERIF_LOG"); fn != "" {
+		f, err := os.OpenFile(fn, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o600)
+		if err != nil {
+			panic(err)
+		}
+
+		verifLog = f
+	}
+}
+
+// verifPoint marks a scheduling point.
+func verifPoint(name string, seq int64) {
+	if verifLog != nil {
+		verifLogMu.Lock()
+		_, _ = fmt.Fprintf(verifLog, "%s %d\n", name, seq)
+		verifLogMu.Unlock()
+	}
+
+	if verifPercent == 0 {
+		return
+	}
+
+	h := verifSeed*0x9E3779B97F4A7C15 + uint64(seq)*0xBF58476D1CE4E5B9
+	for i := 0; i < len(name); i++ {
+		h = (h ^ uint64(name[i])) * 0x100000001B3
+	}
+
+	h ^= h >> 31
+	h *= 0x94D049BB133111EB
+	h ^= h >> 29
+
+	switch {
+	case h%100 >= verifPercent:
+		return
+	case (h>>8)%4 == 0 || verifDelay == 0:
+		runtime.Gosched()
+	default:
+		time.Sleep(time.Duration((h>>16)%verifDelay) * time.Microsecond)
+	}
+}
-- 
2.43.0


From b6324b2c21b4d431f8ed85ab7943b24dd1859f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:16 +0000
Subject: [PATCH 28/57] fix: processing hung forever when heap in use stays
 above -mem-limit

---
 flatjsonl/reader.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/flatjsonl/reader.go b/flatjsonl/reader.go
index c8edf85..72cb685 100644
--- a/flatjsonl/reader.go
+++ b/flatjsonl/reader.go
@@ -223,6 +223,12 @@ func (rd *Reader) Read(sess *readSession) error {
 			if atomic.LoadInt64(&rd.Processor.throttle) != 0 {
 				atomic.StoreInt64(&rd.Processor.throttle, 0)
 				runtime.GC()
+
+				// Waiting can not release memory if there are no lines in progress.
+				if atomic.LoadInt64(&rd.Processor.inProgress) == 0 {
+					break
+				}
+
 				time.Sleep(110 * time.Millisecond)
 			} else {
 				break
-- 
2.43.0


From 916c21dd34e38c62cef768fd662bc1ff667ef2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:40 +0000
Subject: [PATCH 29/57] fix: unique and length-limited key names could repeat
 names of other columns

---
 flatjsonl/keys.go | 82 +++++++++++++++++++++++++++++++++--------------
 1 file changed, 58 insertions(+), 24 deletions(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index 761a2b3..74f6076 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -691,6 +691,24 @@ func (p *Processor) prepareKeys() {
 		return len(sorted[i].orig) < len(sorted[j].orig)
 	})
 
+	// Names made with regular expressions are not available for other keys.
+	for _, v := range sorted {
+		name := v.orig
+		if ck, ok := p.canonicalKeys[p.ck(name)]; ok && ck.transposeDst != "" {
+			name = ck.transposeTrimmed
+		}
+
+		if _, ok := p.replaceKeys[p.ck(name)]; ok {
+			continue
+		}
+
+		if replaced := p.replaceKeyRegex(name); replaced != name {
+			if _, ok := p.replaceByKey[replaced]; !ok {
+				p.replaceByKey[replaced] = name
+			}
+		}
+	}
+
 	for _, v := range sorted {
 		origKey := v.orig
 
@@ -754,10 +772,17 @@ func (p *Processor) limitKey(key string) string {
 	for i := p.includeKeys[key]; ; i++ {
 		is := strconv.Itoa(i)
 		limited := key[0:max(0, p.f.KeyLimit-len(is))] + is
+
+		if p.limitedKeys[limited] == key {
+			return limited
+		}
+
 		_, exists := p.includeKeys[limited]
+		_, taken := p.replaceByKey[limited]
 
-		if taken, ok := p.limitedKeys[limited]; !exists && (!ok || taken == key) {
+		if !exists && !taken {
 			p.limitedKeys[limited] = key
+			p.replaceByKey[limited] = key
 
 			return limited
 		}
@@ -779,29 +804,8 @@ func (p *Processor) prepareKey(origKey string) (kk string) {
 		}
 	}()
 
-	for reg, rep := range p.replaceRegex {
-		kr := origKey
-
-		matches := reg.FindStringSubmatch(origKey)
-		if matches != nil {
-			kr = rep
-
-			for i, m := range matches {
-				if i == 0 {
-					continue
-				}
-
-				kr = strings.ReplaceAll(kr, "${"+strconv.Itoa(i)+"}", trimSpaces.ReplaceAllString(strings.TrimSpace(m), "_"))
-			}
-		}
-
-		if kr != origKey {
-			if strings.HasSuffix(kr, "|to_snake_case") {
-				kr = toSnakeCase(strings.TrimSuffix(kr, "|to_snake_case"))
-			}
-
-			return kr
-		}
+	if kr := p.replaceKeyRegex(origKey); kr != origKey {
+		return kr
 	}
 
 	if !p.f.ReplaceKeys {
@@ -838,6 +842,36 @@ func (p *Processor) prepareKey(origKey string) (kk string) {
 	return origKey
 }
 
+// replaceKeyRegex returns name made with regular expressions, or the same key if there is no match.
+func (p *Processor) replaceKeyRegex(origKey string) string {
+	for reg, rep := range p.replaceRegex {
+		kr := origKey
+
+		matches := reg.FindStringSubmatch(origKey)
+		if matches != nil {
+			kr = rep
+
+			for i, m := range matches {
+				if i == 0 {
+					continue
+				}
+
+				kr = strings.ReplaceAll(kr, "${"+strconv.Itoa(i)+"}", trimSpaces.ReplaceAllString(strings.TrimSpace(m), "_"))
+			}
+		}
+
+		if kr != origKey {
+			if strings.HasSuffix(kr, "|to_snake_case") {
+				kr = toSnakeCase(strings.TrimSuffix(kr, "|to_snake_case"))
+			}
+
+			return kr
+		}
+	}
+
+	return origKey
+}
+
 var (
 	matchFirstCap        = regexp.MustCompile("(.)([A-Z][a-z]+)")
 	matchAllCap          = regexp.MustCompile("([a-z0-9])([A-Z])")
-- 
2.43.0


From 248db22bd2d1ff587e60ab94687636a58b4dba11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:04 +0000
Subject: [PATCH 30/57] fix: transpose had no effect when key scan was skipped

---
 flatjsonl/keys.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index 74f6076..c32ff80 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -85,14 +85,7 @@ func (p *Processor) initKey(pk, parent uint64, path []string, t Type, isZero boo
 	k.canonical = p.ck(key)
 	k.parent = parent
 
-	for tk, dst := range p.cfg.Transpose {
-		if strings.HasPrefix(k.original, strings.TrimSuffix(tk, ".")+".") {
-			scanTransposedKey(dst, tk, &k)
-
-			break
-		}
-	}
-
+	p.transposeKey(&k)
 	k.extractor = p.keyExtractor(key)
 
 	verifPoint("initKey", int64(pk)) //nolint:gosec
@@ -182,6 +175,16 @@ func (p *Processor) collectKeyCardinality(k flKey) {
 	}
 }
 
+func (p *Processor) transposeKey(k *flKey) {
+	for tk, dst := range p.cfg.Transpose {
+		if strings.HasPrefix(k.original, strings.TrimSuffix(tk, ".")+".") {
+			scanTransposedKey(dst, tk, k)
+
+			break
+		}
+	}
+}
+
 func scanTransposedKey(dst string, tk string, k *flKey) {
 	trimmed := strings.TrimPrefix(k.original, tk)
 	if len(trimmed) == 0 {
@@ -511,6 +514,7 @@ func (p *Processor) flKeysInit() {
 				canonical: p.ck(key),
 			}
 
+			p.transposeKey(&k)
 			k.extractor = p.keyExtractor(key)
 			p.flKeys.Store(pk, k)
 
-- 
2.43.0


From 1c551a97e3975ee939f589abba0120c67ea0a1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:53 +0000
Subject: [PATCH 31/57] fix: truncated gzip input was processed as complete

---
 flatjsonl/reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatjsonl/reader.go b/flatjsonl/reader.go
index 72cb685..3b7be9a 100644
--- a/flatjsonl/reader.go
+++ b/flatjsonl/reader.go
@@ -18,8 +18,8 @@ import (
 
 	"github.com/bool64/ctxd"
 	"github.com/bool64/progress"
+	"github.com/klauspost/compress/gzip"
 	"github.com/klauspost/compress/zstd"
-	gzip "github.com/klauspost/pgzip"
 	"github.com/vearutop/fastjson"
 )
 
-- 
2.43.0


From b2d0630c1b60e5ff1163315745f0c19d2600d982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:43 +0000
Subject: [PATCH 32/57] fix: JSON schema rejected objects and arrays mixed with
 scalars in an array

---
 flatjsonl/flattener.go | 41 +++++++++++++++++++++++++++++++++++++++++
 flatjsonl/keys.go      |  8 ++++++++
 2 files changed, 49 insertions(+)

diff --git a/flatjsonl/flattener.go b/flatjsonl/flattener.go
index d43b780..9605f80 100644
--- a/flatjsonl/flattener.go
+++ b/flatjsonl/flattener.go
@@ -299,6 +299,37 @@ type jsonSchema struct {
 	Types      []string               `json:"type,omitempty"`
 	Properties map[string]*jsonSchema `json:"properties,omitempty"`
 	Items      *jsonSchema            `json:"items,omitempty"`
+
+	containers []Type
+}
+
+// acceptContainers adds types of objects and arrays that are mixed with scalar elements of the same array.
+func (j *jsonSchema) acceptContainers() {
+	if len(j.Types) > 0 {
+		for _, t := range j.containers {
+			j.AddType(t)
+		}
+	}
+
+	for name, p := range j.Properties {
+		p.acceptContainers()
+
+		if p.isEmpty() {
+			delete(j.Properties, name)
+		}
+	}
+
+	if j.Items != nil {
+		j.Items.acceptContainers()
+
+		if j.Items.isEmpty() {
+			j.Items = nil
+		}
+	}
+}
+
+func (j *jsonSchema) isEmpty() bool {
+	return len(j.Types) == 0 && len(j.Properties) == 0 && j.Items == nil
 }
 
 func (j *jsonSchema) AddType(t Type) {
@@ -382,11 +413,21 @@ func (j *jsonSchema) AddKey(k flKey, keys *xsync.MapOf[uint64, flKey]) {
 			}
 
 			parentSchema = parentSchema.Items
+
+			for _, t := range pk.tt {
+				if t == TypeObject || t == TypeArray {
+					parentSchema.containers = append(parentSchema.containers, t)
+				}
+			}
 		}
 
 		parentArray = slices.Contains(pk.tt, TypeArray)
 	}
 
+	if k.t == TypeObject || k.t == TypeArray {
+		return
+	}
+
 	for _, t := range k.tt {
 		parentSchema.AddType(t)
 	}
diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index c32ff80..90a522b 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -414,6 +414,12 @@ func (p *Processor) prepareScannedKeys() {
 		if k.t == TypeObject || k.t == TypeArray {
 			deleted[k.original] = true
 
+			if p.f.ShowJSONSchema {
+				if pk, ok := p.flKeys.Load(k.parent); ok && slices.Contains(pk.tt, TypeArray) {
+					p.jsonSchema.AddKey(k, p.flKeys)
+				}
+			}
+
 			return true
 		}
 
@@ -446,6 +452,8 @@ func (p *Processor) prepareScannedKeys() {
 		return true
 	})
 
+	p.jsonSchema.acceptContainers()
+
 	var newFlKeys []string
 
 	for _, key := range p.flKeysList {
-- 
2.43.0


From 9176aff5cc9ebd01cb3f115ef16a66cb7a420b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:43 +0000
Subject: [PATCH 33/57] fix: keys info did not show name of constant and
 missing columns

---
 flatjsonl/keys.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index 90a522b..6e0d4b0 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -728,6 +728,7 @@ func (p *Processor) prepareKeys() {
 
 		switch {
 		case !ok: // Can happen for meta keys like `const:X`.
+			ck.original = origKey
 			ck.replaced = p.prepareKey(origKey)
 			ck.t = TypeString
 		case ck.transposeDst == "":
-- 
2.43.0


From f5dbf6164ba3bc333e366c2ae0fb2db2fcd0a91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:21 +0000
Subject: [PATCH 34/57] fix: JSON schema rejected nulls and containers mixed
 with scalars in elements of an array

---
 flatjsonl/flattener.go | 11 ++++++-----
 flatjsonl/keys.go      |  4 +---
 2 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/flatjsonl/flattener.go b/flatjsonl/flattener.go
index 9605f80..7c9d3da 100644
--- a/flatjsonl/flattener.go
+++ b/flatjsonl/flattener.go
@@ -303,7 +303,8 @@ type jsonSchema struct {
 	containers []Type
 }
 
-// acceptContainers adds types of objects and arrays that are mixed with scalar elements of the same array.
+// acceptContainers adds types of objects and arrays (and nulls in place of them) that are mixed with scalars,
+// elements of an array share the schema.
 func (j *jsonSchema) acceptContainers() {
 	if len(j.Types) > 0 {
 		for _, t := range j.containers {
@@ -413,11 +414,11 @@ func (j *jsonSchema) AddKey(k flKey, keys *xsync.MapOf[uint64, flKey]) {
 			}
 
 			parentSchema = parentSchema.Items
+		}
 
-			for _, t := range pk.tt {
-				if t == TypeObject || t == TypeArray {
-					parentSchema.containers = append(parentSchema.containers, t)
-				}
+		for _, t := range pk.tt {
+			if (t == TypeObject || t == TypeArray || t == TypeNull) && !slices.Contains(parentSchema.containers, t) {
+				parentSchema.containers = append(parentSchema.containers, t)
 			}
 		}
 
diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index 6e0d4b0..2298b0d 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -415,9 +415,7 @@ func (p *Processor) prepareScannedKeys() {
 			deleted[k.original] = true
 
 			if p.f.ShowJSONSchema {
-				if pk, ok := p.flKeys.Load(k.parent); ok && slices.Contains(pk.tt, TypeArray) {
-					p.jsonSchema.AddKey(k, p.flKeys)
-				}
+				p.jsonSchema.AddKey(k, p.flKeys)
 			}
 
 			return true
-- 
2.43.0


From 36b4d927af091a1af7b61b0ddf546e380ed91c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:49 +0000
Subject: [PATCH 35/57] fix: column of nulls had container type when its name
 in another letter case holds containers

---
 flatjsonl/keys.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index 2298b0d..c6a29b5 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -553,7 +553,15 @@ func (p *Processor) flKeysInit() {
 
 		// Identity of the first seen key is kept, so that column does not depend on iteration order.
 		v.isZero = value.isZero && v.isZero
-		v.t = v.t.Update(value.t)
+
+		switch {
+		case value.t == TypeObject || value.t == TypeArray:
+			// Containers do not contribute to type of column.
+		case v.t == TypeObject || v.t == TypeArray:
+			v.t = value.t
+		default:
+			v.t = v.t.Update(value.t)
+		}
 
 		p.canonicalKeys[value.canonical] = v
 
-- 
2.43.0


From 1b8bc361a536c9747961cf4776a996692ea6d401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:35 +0000
Subject: [PATCH 36/57] fix: files with uppercase extensions of compression
 were not compressed

---
 flatjsonl/pg_dump_writer.go | 4 ++--
 flatjsonl/reader.go         | 4 ++--
 flatjsonl/writer.go         | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/flatjsonl/pg_dump_writer.go b/flatjsonl/pg_dump_writer.go
index cb10de9..6d4504e 100644
--- a/flatjsonl/pg_dump_writer.go
+++ b/flatjsonl/pg_dump_writer.go
@@ -70,9 +70,9 @@ func NewPGDumpWriter(fn string, tableName string, p *Processor) (*PGDumpWriter,
 		}
 
 		switch {
-		case strings.HasSuffix(fn, ".gz"):
+		case strings.HasSuffix(strings.ToLower(fn), ".gz"):
 			c.f = gzip.NewWriter(c.f)
-		case strings.HasSuffix(fn, ".zst"):
+		case strings.HasSuffix(strings.ToLower(fn), ".zst"):
 			c.f, err = zstd.NewWriter(c.f, zstd.WithEncoderLevel(zstd.SpeedFastest), zstd.WithLowerEncoderMem(true))
 			if err != nil {
 				return nil, err
diff --git a/flatjsonl/reader.go b/flatjsonl/reader.go
index 3b7be9a..adf8dc0 100644
--- a/flatjsonl/reader.go
+++ b/flatjsonl/reader.go
@@ -114,9 +114,9 @@ func (rd *Reader) session(in Input, task string) (sess *readSession, err error)
 		r = fj
 
 		switch {
-		case strings.HasSuffix(in.FileName, ".gz"):
+		case strings.HasSuffix(strings.ToLower(in.FileName), ".gz"):
 			cmp = "gzip"
-		case strings.HasSuffix(in.FileName, ".zst"):
+		case strings.HasSuffix(strings.ToLower(in.FileName), ".zst"):
 			cmp = "zst"
 		}
 	} else {
diff --git a/flatjsonl/writer.go b/flatjsonl/writer.go
index a800b79..7bed870 100644
--- a/flatjsonl/writer.go
+++ b/flatjsonl/writer.go
@@ -382,10 +382,10 @@ func newFileWriter(fn string) (*fileWriter, error) {
 		}
 
 		switch {
-		case strings.HasSuffix(fn, ".gz"):
+		case strings.HasSuffix(strings.ToLower(fn), ".gz"):
 			c.compressed = progress.NewCountingWriter(c.f)
 			c.f = gzip.NewWriter(c.compressed)
-		case strings.HasSuffix(fn, ".zst"):
+		case strings.HasSuffix(strings.ToLower(fn), ".zst"):
 			c.compressed = progress.NewCountingWriter(c.f)
 
 			c.f, err = zstd.NewWriter(c.compressed, zstd.WithEncoderLevel(zstd.SpeedFastest), zstd.WithLowerEncoderMem(true))
-- 
2.43.0


From 4aa8b1f20ce04664032d969f05b2dbff309d87cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:18 +0000
Subject: [PATCH 37/57] fix: empty output compressed with zstd was not a valid
 zstd file

---
 flatjsonl/pg_dump_writer.go | 2 +-
 flatjsonl/writer.go         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/flatjsonl/pg_dump_writer.go b/flatjsonl/pg_dump_writer.go
index 6d4504e..a31881b 100644
--- a/flatjsonl/pg_dump_writer.go
+++ b/flatjsonl/pg_dump_writer.go
@@ -73,7 +73,7 @@ func NewPGDumpWriter(fn string, tableName string, p *Processor) (*PGDumpWriter,
 		case strings.HasSuffix(strings.ToLower(fn), ".gz"):
 			c.f = gzip.NewWriter(c.f)
 		case strings.HasSuffix(strings.ToLower(fn), ".zst"):
-			c.f, err = zstd.NewWriter(c.f, zstd.WithEncoderLevel(zstd.SpeedFastest), zstd.WithLowerEncoderMem(true))
+			c.f, err = zstd.NewWriter(c.f, zstd.WithEncoderLevel(zstd.SpeedFastest), zstd.WithLowerEncoderMem(true), zstd.WithZeroFrames(true))
 			if err != nil {
 				return nil, err
 			}
diff --git a/flatjsonl/writer.go b/flatjsonl/writer.go
index 7bed870..4cbdcb4 100644
--- a/flatjsonl/writer.go
+++ b/flatjsonl/writer.go
@@ -388,7 +388,7 @@ func newFileWriter(fn string) (*fileWriter, error) {
 		case strings.HasSuffix(strings.ToLower(fn), ".zst"):
 			c.compressed = progress.NewCountingWriter(c.f)
 
-			c.f, err = zstd.NewWriter(c.compressed, zstd.WithEncoderLevel(zstd.SpeedFastest), zstd.WithLowerEncoderMem(true))
+			c.f, err = zstd.NewWriter(c.compressed, zstd.WithEncoderLevel(zstd.SpeedFastest), zstd.WithLowerEncoderMem(true), zstd.WithZeroFrames(true))
 			if err != nil {
 				return nil, err
 			}
-- 
2.43.0


From a1999732510bbe0ccae8d6e055887cdacbb4348f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:08 +0000
Subject: [PATCH 38/57] fix: line prefix parts counted as children of the root
 and removed all keys over -children-limit

---
 flatjsonl/keys.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index c6a29b5..bcd8bc6 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -98,7 +98,8 @@ func (p *Processor) initKey(pk, parent uint64, path []string, t Type, isZero boo
 		return existing
 	}
 
-	if p.f.ChildrenLimit > 0 && len(k.path) > 1 {
+	// Keys of line prefix are not children of the root object.
+	if p.f.ChildrenLimit > 0 && len(k.path) > 1 && parent != 0 {
 		p.collectKeyCardinality(k)
 	}
 
-- 
2.43.0


From 3179f96c97d412b6b4fae0fb6037e6418a0d7b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:43 +0000
Subject: [PATCH 39/57] fix: JSON schema had removed keys of nested high
 cardinality objects, depending on schedule

---
 flatjsonl/keys.go | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index bcd8bc6..709882e 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -423,12 +423,6 @@ func (p *Processor) prepareScannedKeys() {
 		}
 
 		for _, hc := range hcOrig {
-			if k.original == hc {
-				if p.f.ShowJSONSchema {
-					p.jsonSchema.AddKey(k, p.flKeys)
-				}
-			}
-
 			if strings.HasPrefix(k.original, hc+".") {
 				p.flKeys.Delete(key)
 
-- 
2.43.0


From 1dcf8bb97f73377558e421edd08e2b00667f898c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:27 +0000
Subject: [PATCH 40/57] fix: comments of JSON5 config were taken as a part of
 YAML values

Config file was decoded as YAML first, and YAML takes a comment inside of a
JSON5 array as a plain scalar, so that array elements were replaced with
comment text. JSON and JSON5 are tried before YAML.
---
 flatjsonl/processor.go | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/flatjsonl/processor.go b/flatjsonl/processor.go
index 77faa9d..6239c5b 100644
--- a/flatjsonl/processor.go
+++ b/flatjsonl/processor.go
@@ -93,17 +93,39 @@ func loadConfig(value string, cfg *Config) error {
 		return fmt.Errorf("read config file: %w", err)
 	}
 
-	yerr := yaml.Unmarshal(b, cfg)
-	if yerr != nil {
-		err = json5.Unmarshal(b, cfg)
-		if err != nil {
-			return fmt.Errorf("decode config file: json5: %w, yaml: %s", err, yerr) //nolint
-		}
+	// Comments of JSON5 can be a valid part of YAML values, so YAML is tried last.
+	var jcfg, ycfg Config
+
+	jerr := decodeJSON5(b, &jcfg)
+	if jerr == nil {
+		*cfg = jcfg
+
+		return nil
+	}
+
+	if err := yaml.Unmarshal(b, &ycfg); err != nil {
+		return fmt.Errorf("decode config file: json5: %w, yaml: %s", jerr, err) //nolint
 	}
 
+	*cfg = ycfg
+
 	return nil
 }
 
+func decodeJSON5(b []byte, cfg *Config) (err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("panic: %v", r)
+		}
+	}()
+
+	if json.Valid(b) {
+		return json.Unmarshal(b, cfg)
+	}
+
+	return json5.Unmarshal(b, cfg)
+}
+
 // NewProcessor creates an instance of Processor.
 func NewProcessor(f Flags, cfg Config, inputs ...Input) (*Processor, error) { //nolint:funlen
 	pr := &progress.Progress{
-- 
2.43.0


From fd9c2da01c752251c2ff0dd6357725a9ff11a921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:32 +0000
Subject: [PATCH 41/57] fix: -dbg-loop-input-size had no effect

Looped input was set in a list that was not used by processor.
---
 flatjsonl/app.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/flatjsonl/app.go b/flatjsonl/app.go
index f433546..a4ac0b8 100644
--- a/flatjsonl/app.go
+++ b/flatjsonl/app.go
@@ -71,6 +71,9 @@ func Main() {
 		log.Fatal(err)
 	}
 
+	// The first input may be replaced with a looped one.
+	proc.inputs = inputs
+
 	if err := proc.Process(); err != nil {
 		log.Fatal(err)
 	}
-- 
2.43.0


From 80aadeb030f121e694f5ca27a96fe683b955ce9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:05 +0000
Subject: [PATCH 42/57] fix: huge -max-lines with -offset-lines stopped after
 the first line

---
 flatjsonl/reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatjsonl/reader.go b/flatjsonl/reader.go
index adf8dc0..b84c8af 100644
--- a/flatjsonl/reader.go
+++ b/flatjsonl/reader.go
@@ -278,7 +278,7 @@ func (rd *Reader) Read(sess *readSession) error {
 			break
 		}
 
-		if rd.MaxLines > 0 && rd.MaxLines+rd.OffsetLines <= n {
+		if rd.MaxLines > 0 && n-rd.OffsetLines >= rd.MaxLines {
 			break
 		}
 	}
-- 
2.43.0


From 98c5e13f274f76cf9d02f8a3786ceb5fa9be4ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:35 +0000
Subject: [PATCH 43/57] fix: type of key with many children and scalar values
 depended on order of lines

---
 flatjsonl/keys.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index 709882e..663eb37 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -404,7 +404,7 @@ func (p *Processor) prepareScannedKeys() {
 		}
 
 		hcOrig = append(hcOrig, k.original)
-		k.t = TypeJSON
+		k.t = k.t.Update(TypeJSON) // Scalar values make type string regardless of order of lines.
 
 		p.flKeys.Store(key, k)
 
-- 
2.43.0


From e8850b5b38e4715e3e0ae89f8d14cd0d4c4776ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:03 +0000
Subject: [PATCH 44/57] fix: output to a pipe hung forever when its reader was
 gone

---
 flatjsonl/pg_dump_writer.go | 3 +--
 flatjsonl/writer.go         | 7 ++++++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/flatjsonl/pg_dump_writer.go b/flatjsonl/pg_dump_writer.go
index a31881b..1b5b374 100644
--- a/flatjsonl/pg_dump_writer.go
+++ b/flatjsonl/pg_dump_writer.go
@@ -5,7 +5,6 @@ import (
 	"encoding/csv"
 	"fmt"
 	"io"
-	"os"
 	"sort"
 	"strconv"
 	"strings"
@@ -64,7 +63,7 @@ func NewPGDumpWriter(fn string, tableName string, p *Processor) (*PGDumpWriter,
 	if fn == "<nop>" {
 		c.f = nopWriter{}
 	} else {
-		c.f, err = os.Create(fn)
+		c.f, err = createFile(fn)
 		if err != nil {
 			return nil, fmt.Errorf("failed to create file: %w", err)
 		}
diff --git a/flatjsonl/writer.go b/flatjsonl/writer.go
index 4cbdcb4..20ab837 100644
--- a/flatjsonl/writer.go
+++ b/flatjsonl/writer.go
@@ -367,6 +367,11 @@ type fileWriter struct {
 	compressed   *progress.CountingWriter
 }
 
+// createFile opens file only for writing, so that a pipe does not hang when its reader is gone.
+func createFile(fn string) (*os.File, error) {
+	return os.OpenFile(fn, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0o666)
+}
+
 func newFileWriter(fn string) (*fileWriter, error) {
 	var err error
 
@@ -376,7 +381,7 @@ func newFileWriter(fn string) (*fileWriter, error) {
 	if fn == NopFile {
 		c.f = nopWriter{}
 	} else {
-		c.f, err = os.Create(fn)
+		c.f, err = createFile(fn)
 		if err != nil {
 			return nil, fmt.Errorf("failed to create file %s: %w", fn, err)
 		}
-- 
2.43.0


From fcf4be7751a236410afcddfc50fae3990923a21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:26 +0000
Subject: [PATCH 45/57] fix: values of different transposed prefixes could be
 mixed in one row

Row of transposed table was found by concatenated prefix and element name,
e.g. .a and bc are same as .ab and c.
---
 flatjsonl/writer.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/flatjsonl/writer.go b/flatjsonl/writer.go
index 20ab837..ebd179f 100644
--- a/flatjsonl/writer.go
+++ b/flatjsonl/writer.go
@@ -250,6 +250,12 @@ func (b *baseWriter) transposedFileName(base string, dst string) string {
 	return fn
 }
 
+// transposedRow identifies row of transposed table in a line.
+type transposedRow struct {
+	src string
+	key string
+}
+
 func (b *baseWriter) receiveRow(seq int64, values []Value) (transposedRows [][]string) {
 	if len(b.keys) != len(values) {
 		panic(fmt.Sprintf("BUG: keys and values mismatch:\nKeys:\n%v\nValues:\n%v\n", b.keys, values))
@@ -257,7 +263,7 @@ func (b *baseWriter) receiveRow(seq int64, values []Value) (transposedRows [][]s
 
 	b.row = b.row[:0]
 
-	transposedRowsIdx := map[string][]string{}
+	transposedRowsIdx := map[transposedRow][]string{}
 
 	for _, i := range b.keyIndexes {
 		v := values[i]
@@ -275,13 +281,13 @@ func (b *baseWriter) receiveRow(seq int64, values []Value) (transposedRows [][]s
 			k := b.keys[i]
 
 			transposeKey := k.transposeKey.String()
-			row := transposedRowsIdx[k.transposeSrc+transposeKey]
+			row := transposedRowsIdx[transposedRow{src: k.transposeSrc, key: transposeKey}]
 
 			if row == nil {
 				row = make([]string, len(b.trimmedKeys))
 				row[0] = strconv.Itoa(int(seq)) // Add sequence.
 				row[1] = transposeKey           // Add array idx/object property.
-				transposedRowsIdx[k.transposeSrc+transposeKey] = row
+				transposedRowsIdx[transposedRow{src: k.transposeSrc, key: transposeKey}] = row
 				transposedRows = append(transposedRows, row)
 			}
 
@@ -303,7 +309,7 @@ func (b *baseWriter) receiveTransposedRowValues(seq int64, values []Value) (tran
 		return nil
 	}
 
-	transposedRowsIdx := map[string][]Value{}
+	transposedRowsIdx := map[transposedRow][]Value{}
 
 	for _, i := range b.keyIndexes {
 		v := values[i]
@@ -315,7 +321,7 @@ func (b *baseWriter) receiveTransposedRowValues(seq int64, values []Value) (tran
 		k := b.keys[i]
 
 		transposeKey := k.transposeKey.String()
-		row := transposedRowsIdx[k.transposeSrc+transposeKey]
+		row := transposedRowsIdx[transposedRow{src: k.transposeSrc, key: transposeKey}]
 
 		if row == nil {
 			row = make([]Value, len(b.trimmedKeys))
@@ -325,7 +331,7 @@ func (b *baseWriter) receiveTransposedRowValues(seq int64, values []Value) (tran
 				RawNumber: strconv.FormatInt(seq, 10),
 			} // Add sequence.
 			row[1] = k.transposeKey.Value() // Add array idx/object property.
-			transposedRowsIdx[k.transposeSrc+transposeKey] = row
+			transposedRowsIdx[transposedRow{src: k.transposeSrc, key: transposeKey}] = row
 			transposedRows = append(transposedRows, row)
 		}
 
-- 
2.43.0


From e1cb3920bdc69e519d611d9f63a848637f3eba5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:17 +0000
Subject: [PATCH 46/57] fix: columns of transposed table were not merged for
 keys in different case

Without -case-sensitive-keys, names of columns differed only in letter case
when keys came from different elements, SQLite output failed.
---
 flatjsonl/keys.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index 663eb37..76f376f 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -699,6 +699,25 @@ func (p *Processor) prepareKeys() {
 		return sorted[i].idx < sorted[j].idx
 	})
 
+	// Keys of different elements that differ only in letter case share a column of transposed table.
+	transposedNames := make(map[[2]string]string)
+
+	for _, v := range sorted {
+		ck, ok := p.canonicalKeys[p.ck(v.orig)]
+		if !ok || ck.transposeDst == "" {
+			continue
+		}
+
+		id := [2]string{ck.transposeDst, p.ck(ck.transposeTrimmed)}
+
+		if name, ok := transposedNames[id]; ok {
+			ck.transposeTrimmed = name
+			p.canonicalKeys[p.ck(v.orig)] = ck
+		} else {
+			transposedNames[id] = ck.transposeTrimmed
+		}
+	}
+
 	// Sorting to put shorter keys first to have better replaces.
 	sort.SliceStable(sorted, func(i, j int) bool {
 		return len(sorted[i].orig) < len(sorted[j].orig)
-- 
2.43.0


From c68690e8032ac90000e7b5496ec109d3362f43f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:25 +0000
Subject: [PATCH 47/57] fix: keys of transposed table replaced into one name
 were not coalesced

There were several columns with the same name, SQLite output failed.
---
 flatjsonl/keys.go   | 29 +++++++++++++++++++----------
 flatjsonl/writer.go |  5 ++---
 2 files changed, 21 insertions(+), 13 deletions(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index 76f376f..d4d5b47 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -760,27 +760,36 @@ func (p *Processor) prepareKeys() {
 		p.keys[v.idx] = ck
 	}
 
+	// Cells of transposed tables also have row in their identity.
+	type cell struct {
+		replaced, transposeDst, transposeSrc string
+		transposeKey                         intOrString
+	}
+
 	keys := make([]flKey, 0, len(p.keys))
-	keyExists := make(map[string]int)
+	keyExists := make(map[cell]int)
 	keyMap := make(map[int]int)
 
 	for i, pk := range p.keys {
-		if pk.transposeDst == "" {
-			if j, ok := keyExists[pk.replaced]; ok {
-				keys[j].UpdateType(pk.t)
+		c := cell{replaced: pk.replaced}
 
-				if p.cfg.ConcatDelimiter != nil {
-					keys[j].UpdateType(TypeString)
-				}
+		if pk.transposeDst != "" {
+			c.transposeDst, c.transposeSrc, c.transposeKey = pk.transposeDst, pk.transposeSrc, pk.transposeKey
+		}
 
-				keyMap[i] = j
+		if j, ok := keyExists[c]; ok {
+			keys[j].UpdateType(pk.t)
 
-				continue
+			if p.cfg.ConcatDelimiter != nil {
+				keys[j].UpdateType(TypeString)
 			}
 
-			keyExists[pk.replaced] = len(keys)
+			keyMap[i] = j
+
+			continue
 		}
 
+		keyExists[c] = len(keys)
 		keyMap[i] = len(keys)
 		keys = append(keys, pk)
 	}
diff --git a/flatjsonl/writer.go b/flatjsonl/writer.go
index ebd179f..301e36d 100644
--- a/flatjsonl/writer.go
+++ b/flatjsonl/writer.go
@@ -166,12 +166,11 @@ func (b *baseWriter) setupKeys(keys []flKey) {
 		tw.keyIndexes = append(tw.keyIndexes, i)
 		tw.indexType = tw.indexType.Update(key.transposeKey.t)
 
-		ik, ok := tw.trimmedKeys[key.transposeTrimmed]
+		ik, ok := tw.trimmedKeys[key.replaced]
 		if !ok {
 			ik.idx = len(tw.trimmedKeys)
-			key.replaced = b.p.prepareKey(key.transposeTrimmed)
 			ik.k = key
-			tw.trimmedKeys[key.transposeTrimmed] = ik
+			tw.trimmedKeys[key.replaced] = ik
 		}
 
 		tw.transposedMapping[i] = ik.idx
-- 
2.43.0


From d2ad64ff7a18a6492b4ce661d45e36e8a1804d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:50 +0000
Subject: [PATCH 48/57] fix: explicitly included key was empty if it is not in
 lines of key scan

Key scan is limited with -max-lines-keys, without patterns to include keys such key has values.
---
 flatjsonl/keys.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index d4d5b47..8949e22 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -495,7 +495,7 @@ func (p *Processor) singleKey(k string) []byte {
 }
 
 func (p *Processor) flKeysInit() {
-	if p.flKeys.Size() == 0 && len(p.includeKeys) > 0 {
+	if len(p.includeKeys) > 0 {
 		h := newHasher()
 
 		for key := range p.includeKeys {
@@ -503,6 +503,11 @@ func (p *Processor) flKeysInit() {
 				continue
 			}
 
+			// Key is already found in scanned lines.
+			if _, ok := p.canonicalKeys[p.ck(key)]; ok {
+				continue
+			}
+
 			path := strings.Split(strings.TrimPrefix(key, "."), ".")
 			flatPath := []byte(key)
 			pk := h.hashBytes(flatPath)
-- 
2.43.0


From 0063c37e84c7b01841f8ea5216a28a968cf8f25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:57 +0000
Subject: [PATCH 49/57] fix: limited name of a transposed key could coincide
 with name of another key

---
 flatjsonl/keys.go      | 4 +++-
 flatjsonl/processor.go | 1 +
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index 8949e22..317ad6b 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -682,6 +682,7 @@ func (p *Processor) prepareKeys() {
 	p.replaceKeys = make(map[string]string)
 	p.replaceByKey = make(map[string]string)
 	p.limitedKeys = make(map[string]string)
+	p.trimmedKeys = make(map[string]bool)
 
 	for k, r := range p.cfg.ReplaceKeys {
 		mk := p.ck(k)
@@ -720,6 +721,7 @@ func (p *Processor) prepareKeys() {
 			p.canonicalKeys[p.ck(v.orig)] = ck
 		} else {
 			transposedNames[id] = ck.transposeTrimmed
+			p.trimmedKeys[ck.transposeTrimmed] = true
 		}
 	}
 
@@ -827,7 +829,7 @@ func (p *Processor) limitKey(key string) string {
 		_, exists := p.includeKeys[limited]
 		_, taken := p.replaceByKey[limited]
 
-		if !exists && !taken {
+		if !exists && !taken && !p.trimmedKeys[limited] {
 			p.limitedKeys[limited] = key
 			p.replaceByKey[limited] = key
 
diff --git a/flatjsonl/processor.go b/flatjsonl/processor.go
index 6239c5b..2c3a9aa 100644
--- a/flatjsonl/processor.go
+++ b/flatjsonl/processor.go
@@ -46,6 +46,7 @@ type Processor struct {
 	replaceKeys  map[string]string
 	replaceByKey map[string]string
 	limitedKeys  map[string]string
+	trimmedKeys  map[string]bool
 
 	// keys are ordered by replaced column names, indexes match values of includeKeys.
 	keys []flKey
-- 
2.43.0


From 56d173308f87481753f069f5f0d6cae771bdae5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:07 +0000
Subject: [PATCH 50/57] fix: properties of transposed object were mixed if
 their names look like indexes

Properties [7] and [07] had the same index, row of property [0] was shared with
property 0.
---
 flatjsonl/keys.go   |  3 ++-
 flatjsonl/writer.go | 18 +++++++++---------
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index 317ad6b..4f37ca0 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -206,7 +206,8 @@ func scanTransposedKey(dst string, tk string, k *flKey) {
 
 	// Array.
 	if l := len(name); l > 2 && name[0] == '[' && name[l-1] == ']' {
-		if i, err := strconv.Atoi(name[1 : l-1]); err == nil {
+		// Names of object properties like [07] are not indexes.
+		if i, err := strconv.Atoi(name[1 : l-1]); err == nil && i >= 0 && strconv.Itoa(i) == name[1:l-1] {
 			k.transposeKey = intOrString{t: TypeInt, i: i}
 		}
 	}
diff --git a/flatjsonl/writer.go b/flatjsonl/writer.go
index 301e36d..e287788 100644
--- a/flatjsonl/writer.go
+++ b/flatjsonl/writer.go
@@ -252,7 +252,7 @@ func (b *baseWriter) transposedFileName(base string, dst string) string {
 // transposedRow identifies row of transposed table in a line.
 type transposedRow struct {
 	src string
-	key string
+	key intOrString
 }
 
 func (b *baseWriter) receiveRow(seq int64, values []Value) (transposedRows [][]string) {
@@ -279,14 +279,14 @@ func (b *baseWriter) receiveRow(seq int64, values []Value) (transposedRows [][]s
 
 			k := b.keys[i]
 
-			transposeKey := k.transposeKey.String()
-			row := transposedRowsIdx[transposedRow{src: k.transposeSrc, key: transposeKey}]
+			rowID := transposedRow{src: k.transposeSrc, key: k.transposeKey}
+			row := transposedRowsIdx[rowID]
 
 			if row == nil {
 				row = make([]string, len(b.trimmedKeys))
-				row[0] = strconv.Itoa(int(seq)) // Add sequence.
-				row[1] = transposeKey           // Add array idx/object property.
-				transposedRowsIdx[transposedRow{src: k.transposeSrc, key: transposeKey}] = row
+				row[0] = strconv.Itoa(int(seq))  // Add sequence.
+				row[1] = k.transposeKey.String() // Add array idx/object property.
+				transposedRowsIdx[rowID] = row
 				transposedRows = append(transposedRows, row)
 			}
 
@@ -319,8 +319,8 @@ func (b *baseWriter) receiveTransposedRowValues(seq int64, values []Value) (tran
 
 		k := b.keys[i]
 
-		transposeKey := k.transposeKey.String()
-		row := transposedRowsIdx[transposedRow{src: k.transposeSrc, key: transposeKey}]
+		rowID := transposedRow{src: k.transposeSrc, key: k.transposeKey}
+		row := transposedRowsIdx[rowID]
 
 		if row == nil {
 			row = make([]Value, len(b.trimmedKeys))
@@ -330,7 +330,7 @@ func (b *baseWriter) receiveTransposedRowValues(seq int64, values []Value) (tran
 				RawNumber: strconv.FormatInt(seq, 10),
 			} // Add sequence.
 			row[1] = k.transposeKey.Value() // Add array idx/object property.
-			transposedRowsIdx[transposedRow{src: k.transposeSrc, key: transposeKey}] = row
+			transposedRowsIdx[rowID] = row
 			transposedRows = append(transposedRows, row)
 		}
 
-- 
2.43.0


From 1b3b198e825a37a88062bd0fc0a1e58be295b6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:09 +0000
Subject: [PATCH 51/57] fix: TIMESTAMP column of PostgreSQL dump could have
 values that are not time

Column of a key with configured time format also has values of other types and of
other keys that are replaced into the same name or share a transposed column.
---
 flatjsonl/keys.go           | 21 +++++++++++++++++++++
 flatjsonl/pg_dump_writer.go |  2 +-
 flatjsonl/writer.go         |  1 +
 3 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index 4f37ca0..169f4fd 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -17,6 +17,7 @@ import (
 type flKey struct {
 	path             []string
 	isZero           bool
+	isTime           bool // All values are formatted time.
 	t                Type
 	tt               []Type
 	original         string
@@ -38,6 +39,19 @@ func (k *flKey) UpdateType(u Type) {
 	k.t = k.t.Update(u)
 }
 
+// isTimeKey checks if key only has values to parse as time.
+func (p *Processor) isTimeKey(k flKey) bool {
+	for _, t := range k.tt {
+		if t == TypeInt || t == TypeFloat || t == TypeBool || t == TypeJSON {
+			return false
+		}
+	}
+
+	_, ok := p.cfg.ParseTime[k.original]
+
+	return ok
+}
+
 type intOrString struct {
 	t Type
 	i int
@@ -84,6 +98,7 @@ func (p *Processor) initKey(pk, parent uint64, path []string, t Type, isZero boo
 	k.original = key
 	k.canonical = p.ck(key)
 	k.parent = parent
+	_, k.isTime = p.cfg.ParseTime[key]
 
 	p.transposeKey(&k)
 	k.extractor = p.keyExtractor(key)
@@ -521,6 +536,8 @@ func (p *Processor) flKeysInit() {
 				canonical: p.ck(key),
 			}
 
+			_, k.isTime = p.cfg.ParseTime[key]
+
 			p.transposeKey(&k)
 			k.extractor = p.keyExtractor(key)
 			p.flKeys.Store(pk, k)
@@ -560,8 +577,10 @@ func (p *Processor) flKeysInit() {
 			// Containers do not contribute to type of column.
 		case v.t == TypeObject || v.t == TypeArray:
 			v.t = value.t
+			v.isTime = v.isTime && p.isTimeKey(value)
 		default:
 			v.t = v.t.Update(value.t)
+			v.isTime = v.isTime && p.isTimeKey(value)
 		}
 
 		p.canonicalKeys[value.canonical] = v
@@ -787,9 +806,11 @@ func (p *Processor) prepareKeys() {
 
 		if j, ok := keyExists[c]; ok {
 			keys[j].UpdateType(pk.t)
+			keys[j].isTime = keys[j].isTime && pk.isTime
 
 			if p.cfg.ConcatDelimiter != nil {
 				keys[j].UpdateType(TypeString)
+				keys[j].isTime = false
 			}
 
 			keyMap[i] = j
diff --git a/flatjsonl/pg_dump_writer.go b/flatjsonl/pg_dump_writer.go
index 1b5b374..c99d079 100644
--- a/flatjsonl/pg_dump_writer.go
+++ b/flatjsonl/pg_dump_writer.go
@@ -290,7 +290,7 @@ func (c *PGDumpWriter) createTable(tn string, keys []flKey, isTransposed bool) e
 			tp = " FLOAT8"
 		case TypeString:
 			tp = " VARCHAR"
-			if _, ok := c.p.cfg.ParseTime[k.original]; ok {
+			if k.isTime {
 				tp = " TIMESTAMP"
 			}
 		case TypeAbsent, TypeNull, TypeJSON:
diff --git a/flatjsonl/writer.go b/flatjsonl/writer.go
index e287788..5e786cd 100644
--- a/flatjsonl/writer.go
+++ b/flatjsonl/writer.go
@@ -205,6 +205,7 @@ func (b *baseWriter) initFilteredKeys() {
 	for o, t := range b.transposedMapping {
 		k := b.filteredKeys[t]
 		k.UpdateType(b.keys[o].t)
+		k.isTime = k.isTime && b.keys[o].isTime
 		b.filteredKeys[t] = k
 	}
 }
-- 
2.43.0


From 79d33a17e4ebc75a090cf9078c55a8b48bf400f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:59 +0000
Subject: [PATCH 52/57] fix: processors with the same config could exchange
 included keys and kept JSON keys

Keys were appended to slices of Config, that share memory if they have spare capacity.
---
 flatjsonl/processor.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/flatjsonl/processor.go b/flatjsonl/processor.go
index 2c3a9aa..8781ff6 100644
--- a/flatjsonl/processor.go
+++ b/flatjsonl/processor.go
@@ -9,6 +9,7 @@ import (
 	"os"
 	"regexp"
 	"runtime"
+	"slices"
 	"strconv"
 	"strings"
 	"sync"
@@ -134,6 +135,10 @@ func NewProcessor(f Flags, cfg Config, inputs ...Input) (*Processor, error) { //
 		IncrementalSpeed: true,
 	}
 
+	// Config may be shared with other processors, items are not appended in place.
+	cfg.IncludeKeys = slices.Clip(cfg.IncludeKeys)
+	cfg.KeepJSON = slices.Clip(cfg.KeepJSON)
+
 	if f.GetKey != "" {
 		cfg.IncludeKeys = append(cfg.IncludeKeys, f.GetKey)
 	}
-- 
2.43.0


From 91414b54955651f53b64fa985cd4f0d2d1d2d5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:03 +0000
Subject: [PATCH 53/57] fix: watcher of memory usage was running forever after
 processor is done

---
 flatjsonl/processor.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/flatjsonl/processor.go b/flatjsonl/processor.go
index 8781ff6..2e47df3 100644
--- a/flatjsonl/processor.go
+++ b/flatjsonl/processor.go
@@ -249,13 +249,16 @@ func NewProcessor(f Flags, cfg Config, inputs ...Input) (*Processor, error) { //
 		p.extractRegex[r] = x.Extractor()
 	}
 
-	go p.watchMemUsage()
-
 	return p, nil
 }
 
 // Process dispatches data from Reader to Writer.
 func (p *Processor) Process() error {
+	done := make(chan struct{})
+	defer close(done)
+
+	go p.watchMemUsage(done)
+
 	for _, i := range p.inputs {
 		if i.FileName != "" {
 			fi, err := os.Stat(i.FileName)
@@ -784,11 +787,14 @@ func (wi *writeIterator) setValue(v Value, pk uint64, l *lineBuf) {
 	}
 }
 
-func (p *Processor) watchMemUsage() {
+func (p *Processor) watchMemUsage(done <-chan struct{}) {
 	if p.f.MemLimit == 0 {
 		return
 	}
 
+	t := time.NewTicker(100 * time.Millisecond)
+	defer t.Stop()
+
 	for {
 		m := runtime.MemStats{}
 		runtime.ReadMemStats(&m)
@@ -798,7 +804,11 @@ func (p *Processor) watchMemUsage() {
 			atomic.StoreInt64(&p.throttle, 1)
 		}
 
-		time.Sleep(100 * time.Millisecond)
+		select {
+		case <-done:
+			return
+		case <-t.C:
+		}
 	}
 }
 
-- 
2.43.0


From c13401e6f825531cec8d8d193f888e91423e3595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:51 +0000
Subject: [PATCH 54/57] fix: input files and zstd decoders were not closed
 after reading

Processing of many files could fail with too many open files, routines of decoder leaked if input was not read to the end.
---
 flatjsonl/reader.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/flatjsonl/reader.go b/flatjsonl/reader.go
index b84c8af..864dcfc 100644
--- a/flatjsonl/reader.go
+++ b/flatjsonl/reader.go
@@ -61,6 +61,7 @@ type readSession struct {
 	pr      *progress.Progress
 	scanner *bufio.Scanner
 	fj      *os.File
+	zr      *zstd.Decoder
 	r       io.Reader
 
 	setupWalker  func(w *FastWalker)
@@ -71,6 +72,11 @@ type readSession struct {
 func (rs *readSession) Close() {
 	rs.pr.Stop()
 
+	// Decoder has running routines if input was not read to the end.
+	if rs.zr != nil {
+		rs.zr.Close()
+	}
+
 	if rs.fj != nil {
 		if err := rs.fj.Close(); err != nil {
 			println("failed to close file:", err.Error())
@@ -112,6 +118,7 @@ func (rd *Reader) session(in Input, task string) (sess *readSession, err error)
 		}()
 
 		r = fj
+		sess.fj = fj
 
 		switch {
 		case strings.HasSuffix(strings.ToLower(in.FileName), ".gz"):
@@ -142,11 +149,11 @@ func (rd *Reader) session(in Input, task string) (sess *readSession, err error)
 	case "zst":
 		cr.SetLines(nil)
 
-		if r, err = zstd.NewReader(sess.r); err != nil {
+		if sess.zr, err = zstd.NewReader(sess.r); err != nil {
 			return nil, fmt.Errorf("failed to init zstd reader: %w", err)
 		}
 
-		lines = progress.NewCountingReader(r)
+		lines = progress.NewCountingReader(sess.zr)
 		sess.r = lines
 	}
 
-- 
2.43.0


From bff35f8dc895ee1f6ab9ab966464af901cf1dc73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:06 +0000
Subject: [PATCH 55/57] fix: compressed output files and broken input files
 were not closed

---
 flatjsonl/pg_dump_writer.go |  6 ++++--
 flatjsonl/reader.go         |  8 ++++----
 flatjsonl/writer.go         | 17 +++++++++++++++--
 3 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/flatjsonl/pg_dump_writer.go b/flatjsonl/pg_dump_writer.go
index c99d079..71b1ca0 100644
--- a/flatjsonl/pg_dump_writer.go
+++ b/flatjsonl/pg_dump_writer.go
@@ -70,12 +70,14 @@ func NewPGDumpWriter(fn string, tableName string, p *Processor) (*PGDumpWriter,
 
 		switch {
 		case strings.HasSuffix(strings.ToLower(fn), ".gz"):
-			c.f = gzip.NewWriter(c.f)
+			c.f = compressedFile{WriteCloser: gzip.NewWriter(c.f), f: c.f}
 		case strings.HasSuffix(strings.ToLower(fn), ".zst"):
-			c.f, err = zstd.NewWriter(c.f, zstd.WithEncoderLevel(zstd.SpeedFastest), zstd.WithLowerEncoderMem(true), zstd.WithZeroFrames(true))
+			zw, err := zstd.NewWriter(c.f, zstd.WithEncoderLevel(zstd.SpeedFastest), zstd.WithLowerEncoderMem(true), zstd.WithZeroFrames(true))
 			if err != nil {
 				return nil, err
 			}
+
+			c.f = compressedFile{WriteCloser: zw, f: c.f}
 		}
 	}
 
diff --git a/flatjsonl/reader.go b/flatjsonl/reader.go
index 864dcfc..5f5d81a 100644
--- a/flatjsonl/reader.go
+++ b/flatjsonl/reader.go
@@ -104,13 +104,13 @@ func (rd *Reader) session(in Input, task string) (sess *readSession, err error)
 	)
 
 	if in.FileName != "" { //nolint:nestif
-		fj, err := os.Open(in.FileName)
-		if err != nil {
-			return nil, fmt.Errorf("failed to open file %s: %w", in, err)
+		fj, opErr := os.Open(in.FileName)
+		if opErr != nil {
+			return nil, fmt.Errorf("failed to open file %s: %w", in, opErr)
 		}
 
 		defer func() {
-			if err != nil && fj != nil {
+			if err != nil {
 				if clErr := fj.Close(); clErr != nil {
 					err = fmt.Errorf("%w, failed close file (%s)", err, clErr.Error())
 				}
diff --git a/flatjsonl/writer.go b/flatjsonl/writer.go
index 5e786cd..1cb617e 100644
--- a/flatjsonl/writer.go
+++ b/flatjsonl/writer.go
@@ -378,6 +378,17 @@ func createFile(fn string) (*os.File, error) {
 	return os.OpenFile(fn, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0o666)
 }
 
+// compressedFile closes the file after compressor.
+type compressedFile struct {
+	io.WriteCloser
+	f io.Closer
+}
+
+// Close finishes compression and closes the file.
+func (c compressedFile) Close() error {
+	return errors.Join(c.WriteCloser.Close(), c.f.Close())
+}
+
 func newFileWriter(fn string) (*fileWriter, error) {
 	var err error
 
@@ -395,14 +406,16 @@ func newFileWriter(fn string) (*fileWriter, error) {
 		switch {
 		case strings.HasSuffix(strings.ToLower(fn), ".gz"):
 			c.compressed = progress.NewCountingWriter(c.f)
-			c.f = gzip.NewWriter(c.compressed)
+			c.f = compressedFile{WriteCloser: gzip.NewWriter(c.compressed), f: c.f}
 		case strings.HasSuffix(strings.ToLower(fn), ".zst"):
 			c.compressed = progress.NewCountingWriter(c.f)
 
-			c.f, err = zstd.NewWriter(c.compressed, zstd.WithEncoderLevel(zstd.SpeedFastest), zstd.WithLowerEncoderMem(true), zstd.WithZeroFrames(true))
+			zw, err := zstd.NewWriter(c.compressed, zstd.WithEncoderLevel(zstd.SpeedFastest), zstd.WithLowerEncoderMem(true), zstd.WithZeroFrames(true))
 			if err != nil {
 				return nil, err
 			}
+
+			c.f = compressedFile{WriteCloser: zw, f: c.f}
 		}
 	}
 
-- 
2.43.0


From 60eb0b888f7eb78ac0def09bd2b184d6616254be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:33 +0000
Subject: [PATCH 56/57] fix: failure to close outputs was ending the process of
 the caller

---
 flatjsonl/processor.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/flatjsonl/processor.go b/flatjsonl/processor.go
index 2e47df3..8d680f7 100644
--- a/flatjsonl/processor.go
+++ b/flatjsonl/processor.go
@@ -5,7 +5,6 @@ import (
 	"errors"
 	"fmt"
 	"io"
-	"log"
 	"os"
 	"regexp"
 	"runtime"
@@ -326,10 +325,10 @@ func (p *Processor) PrepareKeys() error {
 }
 
 // WriteOutput runs second pass of reading to create the output.
-func (p *Processor) WriteOutput() error {
+func (p *Processor) WriteOutput() (err error) {
 	defer func() {
-		if err := p.w.Close(); err != nil {
-			log.Fatalf("failed to close writer: %v", err)
+		if clErr := p.w.Close(); clErr != nil {
+			err = errors.Join(err, fmt.Errorf("failed to close writer: %w", clErr))
 		}
 	}()
 
-- 
2.43.0


From e619102642ef33fa26afa397361eccf4fc3d177c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:10 +0000
Subject: [PATCH 57/57] fix: raw and PostgreSQL outputs were left open after a
 failure of write

---
 flatjsonl/pg_dump_writer.go |  7 ++-----
 flatjsonl/raw_writer.go     | 12 +++++++-----
 2 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/flatjsonl/pg_dump_writer.go b/flatjsonl/pg_dump_writer.go
index 71b1ca0..1522587 100644
--- a/flatjsonl/pg_dump_writer.go
+++ b/flatjsonl/pg_dump_writer.go
@@ -3,6 +3,7 @@ package flatjsonl
 import (
 	"bytes"
 	"encoding/csv"
+	"errors"
 	"fmt"
 	"io"
 	"sort"
@@ -323,9 +324,5 @@ func (c *PGDumpWriter) createTable(tn string, keys []flKey, isTransposed bool) e
 
 // Close flushes CSV and closes output file.
 func (c *PGDumpWriter) Close() error {
-	if err := c.flush(); err != nil {
-		return err
-	}
-
-	return c.f.Close()
+	return errors.Join(c.flush(), c.f.Close())
 }
diff --git a/flatjsonl/raw_writer.go b/flatjsonl/raw_writer.go
index a7a50d0..c2f962c 100644
--- a/flatjsonl/raw_writer.go
+++ b/flatjsonl/raw_writer.go
@@ -2,6 +2,7 @@ package flatjsonl
 
 import (
 	"bufio"
+	"errors"
 	"fmt"
 )
 
@@ -115,15 +116,16 @@ func (c *RawWriter) writeRow(row []string) error {
 
 // Close flushes rows and closes file.
 func (c *RawWriter) Close() error {
-	if err := c.w.Flush(); err != nil {
-		return fmt.Errorf("failed to flush RAW file: %w", err)
+	err := c.w.Flush()
+	if err != nil {
+		err = fmt.Errorf("failed to flush RAW file: %w", err)
 	}
 
 	for _, tw := range c.transposed {
-		if err := tw.Close(); err != nil {
-			return fmt.Errorf("failed to close transposed RAW file: %w", err)
+		if twErr := tw.Close(); twErr != nil {
+			err = errors.Join(err, fmt.Errorf("failed to close transposed RAW file: %w", twErr))
 		}
 	}
 
-	return c.f.Close()
+	return errors.Join(err, c.f.Close())
 }
-- 
2.43.0

