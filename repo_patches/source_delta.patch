From d82e2cb6afc5e6c68c9f32a5ce3813158e1f7692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:18 +0000
Subject: [PATCH 01/50] fix: disk storage reports a saved empty value as
 present

---
 lens/storage.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lens/storage.go b/lens/storage.go
index 95503b5..cf5a02b 100644
--- a/lens/storage.go
+++ b/lens/storage.go
@@ -292,6 +292,7 @@ func (b *badgerStorage) SaveState(key string, blob []byte) error {
 
 func (b *badgerStorage) LoadState(key string) ([]byte, bool, error) {
 	var raw []byte
+	var found bool
 	err := b.db.View(func(txn *badger.Txn) error {
 		item, err := txn.Get([]byte(key))
 		if err != nil {
@@ -300,6 +301,7 @@ func (b *badgerStorage) LoadState(key string) ([]byte, bool, error) {
 			}
 			return err
 		}
+		found = true
 		return item.Value(func(v []byte) error {
 			raw = append([]byte(nil), v...)
 			return nil
@@ -307,7 +309,7 @@ func (b *badgerStorage) LoadState(key string) ([]byte, bool, error) {
 	})
 	if err != nil {
 		return nil, false, err
-	} else if raw == nil {
+	} else if !found {
 		return nil, false, nil
 	}
 
-- 
2.43.0


From bbacd73b07c1b0a851ecf6456e2af2facc816703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:18 +0000
Subject: [PATCH 02/50] fix: disk storage loads a split value from one
 consistent transaction

---
 lens/storage.go | 66 ++++++++++++++++++++++++-------------------------
 1 file changed, 32 insertions(+), 34 deletions(-)

diff --git a/lens/storage.go b/lens/storage.go
index cf5a02b..53f2168 100644
--- a/lens/storage.go
+++ b/lens/storage.go
@@ -291,8 +291,10 @@ func (b *badgerStorage) SaveState(key string, blob []byte) error {
 }
 
 func (b *badgerStorage) LoadState(key string) ([]byte, bool, error) {
-	var raw []byte
+	var stored []byte
 	var found bool
+	var decompressedSize int
+	// a single transaction gives one consistent view of the marker and its parts
 	err := b.db.View(func(txn *badger.Txn) error {
 		item, err := txn.Get([]byte(key))
 		if err != nil {
@@ -301,54 +303,50 @@ func (b *badgerStorage) LoadState(key string) ([]byte, bool, error) {
 			}
 			return err
 		}
+		raw, err := item.ValueCopy(nil)
+		if err != nil {
+			return err
+		}
 		found = true
-		return item.Value(func(v []byte) error {
-			raw = append([]byte(nil), v...)
-			return nil
-		})
-	})
-	if err != nil {
-		return nil, false, err
-	} else if !found {
-		return nil, false, nil
-	}
 
-	var stored []byte
-	var decompressedSize int
-	if m := splitRe.FindSubmatch(raw); m == nil {
-		stored = raw // it was stored whole
-	} else { // reassemble split value
+		m := splitRe.FindSubmatch(raw)
+		if m == nil {
+			stored = raw // it was stored whole
+			return nil
+		}
+		// reassemble split value
 		count, err := strconv.Atoi(string(m[1]))
 		if err != nil {
-			return nil, false, fmt.Errorf("failed to parse value count: %w", err)
+			return fmt.Errorf("failed to parse value count: %w", err)
 		}
 		compressedSize, err := strconv.Atoi(string(m[2]))
 		if err != nil {
-			return nil, false, fmt.Errorf("failed to parse compressed size: %w", err)
+			return fmt.Errorf("failed to parse compressed size: %w", err)
 		}
 		decompressedSize, err = strconv.Atoi(string(m[3]))
 		if err != nil {
-			return nil, false, fmt.Errorf("failed to parse decompressed size: %w", err)
+			return fmt.Errorf("failed to parse decompressed size: %w", err)
 		}
 		stored = make([]byte, compressedSize)
 		var off int
-		if err := b.db.View(func(txn *badger.Txn) error {
-			for i := 0; i < count; i++ {
-				item, err := txn.Get([]byte(fmt.Sprintf("%s%s-%d", splitPrefixString, key, i)))
-				if err != nil {
-					return fmt.Errorf("large value failure on part %d: %w", i, err)
-				} else if err := item.Value(func(v []byte) error {
-					copy(stored[off:], v)
-					off += len(v)
-					return nil
-				}); err != nil {
-					return err
-				}
+		for i := 0; i < count; i++ {
+			item, err := txn.Get([]byte(fmt.Sprintf("%s%s-%d", splitPrefixString, key, i)))
+			if err != nil {
+				return fmt.Errorf("large value failure on part %d: %w", i, err)
+			} else if err := item.Value(func(v []byte) error {
+				copy(stored[off:], v)
+				off += len(v)
+				return nil
+			}); err != nil {
+				return err
 			}
-			return nil
-		}); err != nil {
-			return nil, false, err
 		}
+		return nil
+	})
+	if err != nil {
+		return nil, false, err
+	} else if !found {
+		return nil, false, nil
 	}
 
 	if badgerCompression == options.None { // manually decompress
-- 
2.43.0


From b8c533c8bf1fd067502d7f21b2c8ebbf2b05c3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:18 +0000
Subject: [PATCH 03/50] fix: disk storage no longer misreads a value shaped
 like its split marker

---
 lens/storage.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lens/storage.go b/lens/storage.go
index 53f2168..188b1dc 100644
--- a/lens/storage.go
+++ b/lens/storage.go
@@ -261,8 +261,8 @@ func (b *badgerStorage) SaveState(key string, blob []byte) error {
 			return err
 		}
 
-		// if small enough, write in one piece
-		if len(storeBlob) <= badgerSplitLimit {
+		// if small enough, write in one piece (a value which looks like a split marker is stored as a part instead)
+		if len(storeBlob) <= badgerSplitLimit && !splitRe.Match(storeBlob) {
 			return txn.Set(mainKey, storeBlob)
 		}
 
-- 
2.43.0


From 84c5580535983e4dddcc64386479d62df47dfed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:39 +0000
Subject: [PATCH 04/50] fix: field tree identity distinguishes nesting and node
 values

---
 lens/types.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/lens/types.go b/lens/types.go
index 849967f..0adc5a9 100644
--- a/lens/types.go
+++ b/lens/types.go
@@ -633,18 +633,16 @@ func (fv FieldValues) ID() string {
 	}
 	var walk func(cur FieldValues)
 	walk = func(cur FieldValues) {
+		// the entry count closes each level, otherwise siblings could shift into or out of a nested map
+		binary.LittleEndian.PutUint64(lenBuf[:], uint64(len(cur)))
+		hash.Write(lenBuf[:])
 		sortedKeys := bulk.MapKeysSlice(cur)
 		slices.Sort(sortedKeys)
 		for _, key := range sortedKeys {
 			writeFramed([]byte(key))
 			fv := cur[key]
-			if len(fv.Children) == 0 {
-				hash.Write([]byte{0}) // leaf tag
-				writeFramed([]byte(fv.Value))
-			} else {
-				hash.Write([]byte{1}) // node tag
-				walk(fv.Children)
-			}
+			writeFramed([]byte(fv.Value))
+			walk(fv.Children)
 		}
 	}
 	walk(fv)
-- 
2.43.0


From 8bb9c91047592ac9b897a67ecee332d8d5042da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:24 +0000
Subject: [PATCH 05/50] fix: comparison lists only tests recorded in both runs

A test recorded only after the update left an empty entry in the test reports.
---
 lens/engine.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lens/engine.go b/lens/engine.go
index 10d6152..e78c33b 100644
--- a/lens/engine.go
+++ b/lens/engine.go
@@ -402,9 +402,9 @@ func (d *DefaultTestResultAnalyzer) CompareTestResults(preResultStorage, postRes
 
 	// compare the pre and post module update field values
 	var sameCount, diffCount int
-	testReports := make([]TestReport, len(postResultsNames))
+	testReports := make([]TestReport, 0, len(postResultsNames))
 	var performanceLogBuffer strings.Builder
-	for i, funcIdent := range postResultsNames {
+	for _, funcIdent := range postResultsNames {
 		preResults, found, err := d.loadTestResult(preResultStorage, funcIdent)
 		if err != nil {
 			return 0, 0, nil, fmt.Errorf("error loading pre-results for %s: %w", funcIdent, err)
@@ -591,7 +591,7 @@ func (d *DefaultTestResultAnalyzer) CompareTestResults(preResultStorage, postRes
 		postResults.CallerResults = nil
 		postResults.ProjectPanics = nil
 		postResults.ModulePanics = nil
-		testReports[i] = TestReport{
+		testReports = append(testReports, TestReport{
 			OriginalResult:      preResults,
 			PostUpdateResult:    postResults,
 			CallerFieldChanges:  callerFieldChanges,
@@ -599,7 +599,7 @@ func (d *DefaultTestResultAnalyzer) CompareTestResults(preResultStorage, postRes
 			TestRegressionCount: testRegressionCount,
 			SameFieldCount:      testSameCount,
 			DiffFieldCount:      testDiffCount,
-		}
+		})
 	}
 
 	if performanceLogBuffer.Len() > 0 {
-- 
2.43.0


From b9912382cec0230956eaf2990d44e360b1283ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:16 +0000
Subject: [PATCH 06/50] fix: monitor no longer waits forever after a state
 event of an unknown point

---
 lens/astexec.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lens/astexec.go b/lens/astexec.go
index 2157b31..bad8e9f 100644
--- a/lens/astexec.go
+++ b/lens/astexec.go
@@ -698,8 +698,6 @@ func (t *testMonitor) HandleFuncPoint(msg LensMonitorMessagePoint) {
 }
 
 func (t *testMonitor) HandleFuncPointState(msg LensMonitorMessagePointState) {
-	t.wait.Add(1) // done in routine
-
 	if monitorDebugLogging {
 		debugLogMonitorStack(msg.PointID, msg.Stack)
 		fmt.Printf(">> State fields for point %v:\n", msg.PointID)
@@ -731,6 +729,7 @@ func (t *testMonitor) HandleFuncPointState(msg LensMonitorMessagePointState) {
 		storageKey = *callerIdent
 	}
 
+	t.wait.Add(1) // done in routine
 	lock := t.pointLocks.Lock(storageKey)
 	go func() {
 		defer t.wait.Done()
-- 
2.43.0


From a6e320ba089201efef0098a69c5caebde489d33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:05 +0000
Subject: [PATCH 07/50] fix: capture follows no cycle through interfaces and
 keeps distinct views of one address

Pointers held by interfaces (or behind other pointers) were followed without cycle
detection, and values sharing only their address were shown as a cycle.
---
 lens/astclient.go | 58 +++++++++++++++++++++++++++--------------------
 1 file changed, 34 insertions(+), 24 deletions(-)

diff --git a/lens/astclient.go b/lens/astclient.go
index 2147f21..8d21cf3 100644
--- a/lens/astclient.go
+++ b/lens/astclient.go
@@ -196,6 +196,14 @@ func lensEncodeMessageError(w io.Writer, id uint32, origErr error, stack []lensM
 	lw.writeStackFrames(stack)
 }
 
+// lensVisitedRef identifies a reference already encoded. The address alone is not enough, for example a struct and its
+// first field, or slices of different length over the same array, share one address.
+type lensVisitedRef struct {
+	addr   uintptr
+	typ    reflect.Type
+	length int
+}
+
 type lensMsgEncoder struct {
 	w   io.Writer
 	buf [10]byte // reused for all primitive writes
@@ -235,7 +243,7 @@ func (lw *lensMsgEncoder) writeStackFrames(frames []lensMonitorStackFrame) {
 	}
 }
 
-func (lw *lensMsgEncoder) streamField(name string, v reflect.Value, depth int, visited map[uintptr]string, parentPath string) {
+func (lw *lensMsgEncoder) streamField(name string, v reflect.Value, depth int, visited map[lensVisitedRef]string, parentPath string) {
 	var valuePath string
 	if parentPath == "" {
 		valuePath = name
@@ -246,22 +254,6 @@ func (lw *lensMsgEncoder) streamField(name string, v reflect.Value, depth int, v
 	// Write name first (always needed)
 	lw.writeString(name)
 
-	// Cycle detection for pointers BEFORE unwrapping
-	// This catches self-referential pointers like n.Next = n
-	if v.IsValid() && v.Kind() == reflect.Pointer && !v.IsNil() {
-		if visited == nil {
-			visited = make(map[uintptr]string)
-		}
-		addr := v.Pointer()
-		if cycleName, ok := visited[addr]; ok {
-			lw.writeString(v.Type().String())
-			lw.writeByte(lensTypeTagString)
-			lw.writeString("<cycle:" + cycleName + ">")
-			return
-		}
-		visited[addr] = valuePath
-	}
-
 	// Unwrap interfaces and pointers
 	for v.IsValid() && (v.Kind() == reflect.Interface || v.Kind() == reflect.Pointer) {
 		if v.IsNil() {
@@ -269,6 +261,21 @@ func (lw *lensMsgEncoder) streamField(name string, v reflect.Value, depth int, v
 			lw.writeByte(lensTypeTagNil)
 			return
 		}
+		// Cycle detection for every pointer BEFORE following it, including those held by interfaces
+		// This catches self-referential pointers like n.Next = n
+		if v.Kind() == reflect.Pointer {
+			if visited == nil {
+				visited = make(map[lensVisitedRef]string)
+			}
+			ref := lensVisitedRef{addr: v.Pointer(), typ: v.Type()}
+			if cycleName, ok := visited[ref]; ok {
+				lw.writeString(v.Type().String())
+				lw.writeByte(lensTypeTagString)
+				lw.writeString("<cycle:" + cycleName + ">")
+				return
+			}
+			visited[ref] = valuePath
+		}
 		v = v.Elem()
 	}
 	if !v.IsValid() {
@@ -295,20 +302,23 @@ func (lw *lensMsgEncoder) streamField(name string, v reflect.Value, depth int, v
 		}
 	}
 
-	// Cycle detection
-	if vKind == reflect.Pointer || vKind == reflect.Map || vKind == reflect.Slice ||
+	// Cycle detection, empty slices have nothing to follow and may all share one address
+	if vKind == reflect.Pointer || vKind == reflect.Map || (vKind == reflect.Slice && v.Len() > 0) ||
 		vKind == reflect.Func || vKind == reflect.Chan {
 		if visited == nil {
-			visited = make(map[uintptr]string)
+			visited = make(map[lensVisitedRef]string)
+		}
+		ref := lensVisitedRef{addr: v.Pointer(), typ: vType}
+		if vKind == reflect.Slice {
+			ref.length = v.Len()
 		}
-		addr := v.Pointer()
-		if cycleName, ok := visited[addr]; ok {
+		if cycleName, ok := visited[ref]; ok {
 			lw.writeString(vType.String())
 			lw.writeByte(lensTypeTagString)
 			lw.writeString("<cycle:" + cycleName + ">")
 			return
 		}
-		visited[addr] = valuePath
+		visited[ref] = valuePath
 	}
 
 	lw.writeString(vType.String())
@@ -411,7 +421,7 @@ func (lw *lensMsgEncoder) streamField(name string, v reflect.Value, depth int, v
 }
 
 // streamValueSlice handles slice/array encoding with optimized paths for primitive element types.
-func (lw *lensMsgEncoder) streamValueSlice(v reflect.Value, vType reflect.Type, depth int, visited map[uintptr]string, valuePath string) {
+func (lw *lensMsgEncoder) streamValueSlice(v reflect.Value, vType reflect.Type, depth int, visited map[lensVisitedRef]string, valuePath string) {
 	length := v.Len()
 	if length > lensMonitorFieldMaxLen {
 		length = lensMonitorFieldMaxLen
-- 
2.43.0


From a5299fd36eaa7dbbb432078a9f3f0718f2509208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:22 +0000
Subject: [PATCH 08/50] fix: monitor allocates for received data only and
 bounds the nesting it decodes

---
 lens/astsrv.go | 49 +++++++++++++++++++++++++++++++++----------------
 1 file changed, 33 insertions(+), 16 deletions(-)

diff --git a/lens/astsrv.go b/lens/astsrv.go
index 076bfaf..d97f2d6 100644
--- a/lens/astsrv.go
+++ b/lens/astsrv.go
@@ -233,10 +233,17 @@ func (s *astServer) handleEventError(w http.ResponseWriter, r *http.Request) {
 	w.WriteHeader(http.StatusOK)
 }
 
+const (
+	lensReaderMaxDepth     = 1024      // nesting limit while decoding, well above what the client can be configured to send
+	lensReaderPreallocMax  = 64        // fields allocated ahead of their data, more are allocated as they are read
+	lensReaderStringPreMax = 64 * 1024 // string bytes allocated ahead of their data
+)
+
 type lensReader struct {
 	r           io.Reader
 	buf         [8]byte // reused for all primitive reads
 	maxFieldLen int     // maximum length for strings and slices
+	depth       int     // current container nesting
 }
 
 func newLensReader(r io.Reader, maxFieldLen int) *lensReader {
@@ -362,11 +369,23 @@ func (lr *lensReader) readFields() ([]LensMonitorField, error) {
 	} else if count > math.MaxUint32 {
 		return nil, fmt.Errorf("field count %d exceeds maximum", count)
 	}
-	fields := make([]LensMonitorField, count)
+	return lr.readFieldList(count)
+}
+
+// readFieldList reads count fields. The count is not trusted, memory is only allocated as fields are actually received.
+func (lr *lensReader) readFieldList(count uint64) ([]LensMonitorField, error) {
+	if lr.depth++; lr.depth > lensReaderMaxDepth {
+		return nil, fmt.Errorf("field nesting exceeds maximum %d", lensReaderMaxDepth)
+	}
+	defer func() { lr.depth-- }()
+
+	fields := make([]LensMonitorField, 0, min(count, lensReaderPreallocMax))
 	for i := uint64(0); i < count; i++ {
-		if err := lr.readField(&fields[i]); err != nil {
+		var f LensMonitorField
+		if err := lr.readField(&f); err != nil {
 			return nil, err
 		}
+		fields = append(fields, f)
 	}
 	return fields, nil
 }
@@ -465,25 +484,15 @@ func (lr *lensReader) readValue() (interface{}, []LensMonitorField, error) {
 		} else if count > uint64(lr.maxFieldLen) {
 			return nil, nil, fmt.Errorf("container field count %d exceeds maximum %d", count, lr.maxFieldLen)
 		}
-		children := make([]LensMonitorField, count)
-		for i := uint64(0); i < count; i++ {
-			if err := lr.readField(&children[i]); err != nil {
-				return nil, nil, err
-			}
-		}
-		return nil, children, nil
+		children, err := lr.readFieldList(count)
+		return nil, children, err
 	case lensTypeTagStruct:
 		count, err := lr.readVarint()
 		if err != nil {
 			return nil, nil, err
 		}
-		children := make([]LensMonitorField, count)
-		for i := uint64(0); i < count; i++ {
-			if err := lr.readField(&children[i]); err != nil {
-				return nil, nil, err
-			}
-		}
-		return nil, children, nil
+		children, err := lr.readFieldList(count)
+		return nil, children, err
 	default:
 		return nil, nil, fmt.Errorf("unknown value tag: %d (0x%02x)", tag, tag)
 	}
@@ -558,6 +567,14 @@ func (lr *lensReader) readString() (string, error) {
 		return "", err
 	} else if length > math.MaxUint32 {
 		return "", fmt.Errorf("string length %d exceeds maximum %d", length, math.MaxUint32)
+	} else if length > lensReaderStringPreMax {
+		var sb strings.Builder // the length is not trusted, grow as data is actually received
+		if _, err := io.CopyN(&sb, lr.r, int64(length)); errors.Is(err, io.EOF) {
+			return "", io.ErrUnexpectedEOF
+		} else if err != nil {
+			return "", err
+		}
+		return sb.String(), nil
 	}
 	buf := make([]byte, length)
 	if _, err := io.ReadFull(lr.r, buf); err != nil {
-- 
2.43.0


From 92b54aeed099f8d2f066ea1ba0026f800d888bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:49 +0000
Subject: [PATCH 09/50] fix: a failed temporary copy is removed and no copy
 continues after CopyDir returned

---
 lens/engine.go | 7 ++++++-
 lens/file.go   | 7 ++++---
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/lens/engine.go b/lens/engine.go
index e78c33b..22e87a0 100644
--- a/lens/engine.go
+++ b/lens/engine.go
@@ -990,7 +990,7 @@ func (e *AnalysisEngine) parseInitialModules() (*initialModulesResult, error) {
 	}, nil
 }
 
-func (e *AnalysisEngine) setupTempEnvironment() (func(), error) {
+func (e *AnalysisEngine) setupTempEnvironment() (_ func(), err error) {
 	tempRoot, err := os.MkdirTemp("", "patchlens-*")
 	if err != nil {
 		return nil, fmt.Errorf("unable to create temp dir: %w", err)
@@ -1003,6 +1003,11 @@ func (e *AnalysisEngine) setupTempEnvironment() (func(), error) {
 			log.Printf("%sFailed to remove temp dir %s: %v", ErrorLogPrefix, tempRoot, err)
 		}
 	}
+	defer func() {
+		if err != nil { // the caller only receives cleanup on success
+			cleanup()
+		}
+	}()
 
 	fmt.Printf("Copying files for analysis")
 	const logSize = 1024 * 1024 * 200
diff --git a/lens/file.go b/lens/file.go
index 92f93cb..bccb1cb 100644
--- a/lens/file.go
+++ b/lens/file.go
@@ -128,10 +128,11 @@ func CopyDir(ctx context.Context, src, dst string, progressNotify func(string, o
 			return nil
 		}
 	})
-	if err != nil {
-		return err
+	// always wait, no copy may still be writing after we return
+	if waitErr := eg.Wait(); waitErr != nil {
+		return waitErr // preferred, the walk may only report the cancellation it caused
 	}
-	return eg.Wait()
+	return err
 }
 
 // WriteChmod adds write permissions for owner/group/others on every file and directory under root.
-- 
2.43.0


From b2ec6b3f05799d55899c09bb5c00a6e907ed5acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:49 +0000
Subject: [PATCH 10/50] fix: temporary copies never lead back to the original
 files through links and keep the module cache location

---
 lens/engine.go | 28 +++++++++++++++++++++++-----
 lens/file.go   |  4 ++--
 2 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/lens/engine.go b/lens/engine.go
index 22e87a0..0fd9794 100644
--- a/lens/engine.go
+++ b/lens/engine.go
@@ -1028,24 +1028,42 @@ func (e *AnalysisEngine) setupTempEnvironment() (_ func(), err error) {
 	}
 
 	ctx := context.Background()
+	// resolve links up front, a copied link would lead the analysis back to the original files
+	srcProj, err := filepath.EvalSymlinks(e.Config.AbsProjDir)
+	if err != nil {
+		return nil, fmt.Errorf("unable to copy project: %w", err)
+	}
+	srcGOPATH, err := filepath.EvalSymlinks(e.Config.Gopath)
+	if err != nil {
+		return nil, fmt.Errorf("unable to copy GOPATH: %w", err)
+	}
+	srcModCache, err := filepath.EvalSymlinks(e.Config.Gomodcache)
+	if err != nil {
+		return nil, fmt.Errorf("unable to copy GOMODCACHE: %w", err)
+	}
+
 	newProj := filepath.Join(tempRoot, "project")
-	if err := CopyDir(ctx, e.Config.AbsProjDir, newProj, copyProgressHandler); err != nil {
+	if err := CopyDir(ctx, srcProj, newProj, copyProgressHandler); err != nil {
 		return nil, fmt.Errorf("unable to copy project: %w", err)
 	}
 	e.Config.AbsProjDir = newProj
 
 	newGOPATH := filepath.Join(tempRoot, "gopath")
-	if err := CopyDir(ctx, e.Config.Gopath, newGOPATH, copyProgressHandler); err != nil {
+	if err := CopyDir(ctx, srcGOPATH, newGOPATH, copyProgressHandler); err != nil {
 		return nil, fmt.Errorf("unable to copy GOPATH: %w", err)
 	}
-	if within, err := fileWithinDir(e.Config.Gomodcache, e.Config.Gopath); err != nil || !within {
+	if within, err := fileWithinDir(srcModCache, srcGOPATH); err != nil || !within {
 		newModCache := filepath.Join(tempRoot, "gomodcache")
-		if err := CopyDir(ctx, e.Config.Gomodcache, newModCache, copyProgressHandler); err != nil {
+		if err := CopyDir(ctx, srcModCache, newModCache, copyProgressHandler); err != nil {
 			return nil, fmt.Errorf("unable to copy GOMODCACHE: %w", err)
 		}
 		e.Config.Gomodcache = newModCache
 	} else {
-		e.Config.Gomodcache = filepath.Join(newGOPATH, "pkg", "mod")
+		rel, err := filepath.Rel(srcGOPATH, srcModCache)
+		if err != nil {
+			return nil, fmt.Errorf("unable to locate GOMODCACHE: %w", err)
+		}
+		e.Config.Gomodcache = filepath.Join(newGOPATH, rel)
 	}
 	e.Config.Gopath = newGOPATH
 	fmt.Println()
diff --git a/lens/file.go b/lens/file.go
index bccb1cb..dc487ba 100644
--- a/lens/file.go
+++ b/lens/file.go
@@ -41,8 +41,8 @@ func fileWithinDir(filePath, dirPath string) (bool, error) {
 		return false, err
 	}
 
-	// If rel starts with "..", file is outside the directory
-	if strings.HasPrefix(rel, "..") || strings.HasPrefix(filepath.ToSlash(rel), "../") {
+	// If rel leads through "..", file is outside the directory (a name may still start with dots)
+	if rel == ".." || strings.HasPrefix(filepath.ToSlash(rel), "../") {
 		return false, nil
 	}
 	return true, nil
-- 
2.43.0


From 3669383b2b77197c6f3296de75805899179dbb12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:49 +0000
Subject: [PATCH 11/50] fix: charts report path is validated also when a JSON
 report is requested

---
 lens/engine.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lens/engine.go b/lens/engine.go
index 0fd9794..abce352 100644
--- a/lens/engine.go
+++ b/lens/engine.go
@@ -1159,7 +1159,8 @@ func (c *Config) Prepare() error {
 		if err := c.validateOutputPath(c.ReportJsonFile); err != nil {
 			return fmt.Errorf("invalid JSON report file path: %w", err)
 		}
-	} else if c.ReportChartsFile != "" {
+	}
+	if c.ReportChartsFile != "" {
 		if err := c.validateOutputPath(c.ReportChartsFile); err != nil {
 			return fmt.Errorf("invalid charts report file path: %w", err)
 		}
-- 
2.43.0


From 302dabd12d7a2147f7f7115097790a3fd0076d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:49 +0000
Subject: [PATCH 12/50] fix: preparing a corrected configuration again does not
 duplicate target modules

---
 lens/engine.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lens/engine.go b/lens/engine.go
index abce352..338b208 100644
--- a/lens/engine.go
+++ b/lens/engine.go
@@ -1092,13 +1092,14 @@ func (c *Config) Prepare() error {
 	}
 	c.AbsProjDir = absProjDir
 
-	// Parse and validate target modules
+	// Parse and validate target modules, only kept once the whole config is valid so that a retry starts over
+	targetModules := slices.Clone(c.TargetModules)
 	if c.ModuleVersionFlag != "" {
 		targetModule, err := parseTargetModule(c.ModuleVersionFlag)
 		if err != nil {
 			return fmt.Errorf("invalid module version format: %w", err)
 		}
-		c.TargetModules = append(c.TargetModules, targetModule)
+		targetModules = append(targetModules, targetModule)
 	}
 
 	if c.ModulesVersionFlag != "" {
@@ -1112,7 +1113,7 @@ func (c *Config) Prepare() error {
 			if err != nil {
 				return fmt.Errorf("invalid module version format in modules list: %w", err)
 			}
-			c.TargetModules = append(c.TargetModules, targetModule)
+			targetModules = append(targetModules, targetModule)
 		}
 	}
 
@@ -1166,6 +1167,7 @@ func (c *Config) Prepare() error {
 		}
 	}
 
+	c.TargetModules = targetModules
 	c.prepared = true
 	return nil
 }
-- 
2.43.0


From b2dcf629f632dda8bfe978a783b3f4b0bfd9f6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:49 +0000
Subject: [PATCH 13/50] fix: output path validation does not overwrite or
 remove an existing file

---
 lens/engine.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lens/engine.go b/lens/engine.go
index 338b208..9321a32 100644
--- a/lens/engine.go
+++ b/lens/engine.go
@@ -1227,11 +1227,10 @@ func (c *Config) validateOutputPath(path string) error {
 	}
 
 	// Check if we can write to the directory
-	testFile := filepath.Join(dir, ".write_test")
-	file, err := os.Create(testFile)
+	file, err := os.CreateTemp(dir, ".write_test-*") // unique name, never an existing file
 	if err != nil {
 		return fmt.Errorf("cannot write to output directory '%s': %w", dir, err)
 	}
 	_ = file.Close()
-	return os.Remove(testFile)
+	return os.Remove(file.Name())
 }
-- 
2.43.0


From e35c9d300aa94e88b5fda6e0aa822094b18e5e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:49 +0000
Subject: [PATCH 14/50] fix: module requests with a second @ are rejected

---
 lens/engine.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lens/engine.go b/lens/engine.go
index 9321a32..9b52faa 100644
--- a/lens/engine.go
+++ b/lens/engine.go
@@ -1184,6 +1184,8 @@ func parseTargetModule(moduleVersion string) (TargetModule, error) {
 		return TargetModule{}, errors.New("module name cannot be empty")
 	} else if version == "" {
 		return TargetModule{}, errors.New("version cannot be empty")
+	} else if strings.Contains(version, "@") {
+		return TargetModule{}, fmt.Errorf("version '%s' appears invalid (contains '@')", version)
 	} else if !strings.Contains(moduleName, "/") && !strings.Contains(moduleName, ".") {
 		return TargetModule{}, fmt.Errorf("module name '%s' appears invalid (should contain domain or path)", moduleName)
 	}
-- 
2.43.0


From 12f064e3f4aba949d3ef8605aa6e7087a3c82037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:02 +0000
Subject: [PATCH 15/50] fix: go.work diff lists each module change once and in
 a stable order

---
 lens/module.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/lens/module.go b/lens/module.go
index bcd5b72..439d296 100644
--- a/lens/module.go
+++ b/lens/module.go
@@ -603,8 +603,10 @@ func DiffModulesFromGoWorkFiles(projectDir, newWorkPath string) ([]*ModuleChange
 		return filepath.Clean(filepath.Join(root, dir, "go.mod"))
 	}
 
-	all := make([]*ModuleChange, 0, len(dirSet))
-	for dir := range dirSet {
+	dirs := bulk.MapKeysSlice(dirSet)
+	slices.Sort(dirs) // consistent order of changes
+	all := make([]*ModuleChange, 0, len(dirs))
+	for _, dir := range dirs {
 		oldGM := resolve(projectDir, dir)
 		newGM := resolve(newRoot, dir)
 
@@ -617,7 +619,16 @@ func DiffModulesFromGoWorkFiles(projectDir, newWorkPath string) ([]*ModuleChange
 		if err != nil {
 			return nil, err
 		}
-		all = append(all, changes...)
+		for _, c := range changes { // members commonly share an update
+			i := slices.IndexFunc(all, func(o *ModuleChange) bool {
+				return o.Name == c.Name && o.PriorVersion == c.PriorVersion && o.NewVersion == c.NewVersion
+			})
+			if i < 0 {
+				all = append(all, c)
+			} else {
+				all[i].Indirect = all[i].Indirect && c.Indirect
+			}
+		}
 	}
 	return all, nil
 }
-- 
2.43.0


From d722dcebeb045e110d4c9db174913210073f4983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:03 +0000
Subject: [PATCH 16/50] fix: pre-release Go versions compare in order

---
 lens/module.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/lens/module.go b/lens/module.go
index 439d296..3cddce8 100644
--- a/lens/module.go
+++ b/lens/module.go
@@ -483,10 +483,20 @@ func parseProjectDeps(projectDir string, preferNewest bool) (map[string]string,
 	return deps, oldestGoVersion, nil
 }
 
-// compareGoVersions compares two Go version strings (e.g., "1.12", "1.21").
+// compareGoVersions compares two Go version strings (e.g., "1.12", "1.21", "1.24rc1").
 // Returns -1 if a < b, 0 if a == b, 1 if a > b.
 func compareGoVersions(a, b string) int {
-	return semver.Compare("v"+a, "v"+b)
+	return semver.Compare(goVersionSemver(a), goVersionSemver(b))
+}
+
+// goVersionSemver converts a Go version to semver, where a pre-release like 1.24rc1 is spelled v1.24.0-rc.1.
+func goVersionSemver(v string) string {
+	for _, pre := range []string{"rc", "beta"} {
+		if release, number, ok := strings.Cut(v, pre); ok {
+			return "v" + release + ".0-" + pre + "." + number
+		}
+	}
+	return "v" + v
 }
 
 // olderGoVersion returns the older version, treating empty as "no constraint".
-- 
2.43.0


From b943cd563f4b0844c274970ea0d042b7b0992820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:04 +0000
Subject: [PATCH 17/50] fix: changed methods are reported when the receiver
 changes between value and pointer

---
 lens/module.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/lens/module.go b/lens/module.go
index 3cddce8..3cab368 100644
--- a/lens/module.go
+++ b/lens/module.go
@@ -212,9 +212,12 @@ func analyzeModuleChangesInternal(includeTransitive bool, mc *ModuleChange, gomo
 
 		// Compare new functions to the old ones
 		for funcKey, newFunc := range newFuncMap {
-			if oldFuncMap == nil {
-				// new functions can be ignored, we will focus on entry points to functions that already existed
-			} else if oldFunc, ok := oldFuncMap[funcKey]; ok /* see above */ && oldFunc.Definition != newFunc.Definition {
+			oldFunc, ok := oldFuncMap[funcKey]
+			if !ok { // the receiver may have changed between value and pointer
+				oldFunc, ok = oldFuncMap[toggleReceiverIdent(funcKey)]
+			}
+			// new functions can be ignored, we will focus on entry points to functions that already existed
+			if ok && oldFunc.Definition != newFunc.Definition {
 				oldFunc.LineChangeBitmap = computeChangeLineBitmap(oldFunc.Definition, newFunc.Definition, false, neighbourRadius)
 				changes = append(changes, oldFunc) // add the old function so that the module can accurately be referenced prior to the update
 			}
@@ -262,6 +265,18 @@ func analyzeModuleChangesInternal(includeTransitive bool, mc *ModuleChange, gomo
 	return changes, newPkgs, recursiveCalls, nil
 }
 
+// toggleReceiverIdent provides the identifier the function would have if its receiver was a value instead of a
+// pointer, or a pointer instead of a value.
+func toggleReceiverIdent(funcIdent string) string {
+	if i := strings.LastIndex(funcIdent, ":"); i < 0 {
+		return funcIdent
+	} else if name := funcIdent[i+1:]; strings.HasPrefix(name, "*") {
+		return funcIdent[:i+1] + name[1:]
+	} else {
+		return funcIdent[:i+1] + "*" + name
+	}
+}
+
 func loadModulePackageFromCache(gomodcache, modName, version string) (string, []*packages.Package, error) {
 	dir, err := FindModulePathInCache(gomodcache, modName, version)
 	if err != nil {
-- 
2.43.0


From cabc70eb2e41fec6e0d8d828275deb1118d896d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:04 +0000
Subject: [PATCH 18/50] fix: module cache lookup escapes versions with upper
 case letters

---
 lens/module.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lens/module.go b/lens/module.go
index 3cab368..708e601 100644
--- a/lens/module.go
+++ b/lens/module.go
@@ -300,12 +300,16 @@ func loadModulePackageFromCache(gomodcache, modName, version string) (string, []
 // Returns the filesystem directory where the module source is located.
 func FindModulePathInCache(gomodcache, modPath, version string) (string, error) {
 	// Attempt to form the actual cache directory name. The local module cache
-	// structure is typically: GOPATH/pkg/mod/<escaped module>@<version>.
+	// structure is typically: GOPATH/pkg/mod/<escaped module>@<escaped version>.
 	escapedMod, err := module.EscapePath(modPath)
 	if err != nil {
 		return "", err
 	}
-	modDirName := escapedMod + "@" + version
+	escapedVersion, err := module.EscapeVersion(version)
+	if err != nil {
+		return "", err
+	}
+	modDirName := escapedMod + "@" + escapedVersion
 	dir := filepath.Join(gomodcache, modDirName)
 
 	info, err := os.Stat(dir)
-- 
2.43.0


From d611ef2848aca5afe9b46aa8fbecfeaab140cac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:05 +0000
Subject: [PATCH 19/50] fix: a repeated module request keeps its first analysis

---
 lens/module.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lens/module.go b/lens/module.go
index 708e601..138c58e 100644
--- a/lens/module.go
+++ b/lens/module.go
@@ -116,7 +116,9 @@ func AnalyzeModuleChanges(gomodcache string, includeTransitive bool, projectDir
 		}
 		indirectAnalysis = append(indirectAnalysis, recursiveCalls...)
 
-		allModuleData[mc.Name] = cf
+		if _, exists := allModuleData[mc.Name]; !exists { // a repeated module is only analyzed the first time
+			allModuleData[mc.Name] = cf
+		}
 		if len(pkgs) > 0 {
 			newVersionPackages[mc.Name] = pkgs
 		}
-- 
2.43.0


From 78440350f02b4fd751bf11a76bf600e8df28e7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:06 +0000
Subject: [PATCH 20/50] fix: transitive dependencies are analyzed in a stable
 order

---
 lens/module.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lens/module.go b/lens/module.go
index 138c58e..85ef72a 100644
--- a/lens/module.go
+++ b/lens/module.go
@@ -8,6 +8,7 @@ import (
 	"go/printer"
 	"io/fs"
 	"log"
+	"maps"
 	"os"
 	"path/filepath"
 	"slices"
@@ -247,7 +248,8 @@ func analyzeModuleChangesInternal(includeTransitive bool, mc *ModuleChange, gomo
 		return nil, nil, nil, fmt.Errorf("could not read project dependencies: %w", err)
 	}
 	var recursiveCalls []moduleChangeAnalyzeFunc
-	for dep, newDepVer := range newDeps {
+	for _, dep := range slices.Sorted(maps.Keys(newDeps)) { // sorted so that repeated runs agree
+		newDepVer := newDeps[dep]
 		if oldDepVer, existed := oldDeps[dep]; !existed || oldDepVer != newDepVer {
 			if projVer, ok := projectDeps[dep]; ok && projVer != newDepVer {
 				recursiveCalls = append(recursiveCalls, func() ([]*ModuleFunction, []*packages.Package, []moduleChangeAnalyzeFunc, error) {
-- 
2.43.0


From 62c570e75230acf3220bf012c3e522a2b79c1591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:06 +0000
Subject: [PATCH 21/50] fix: TeeWriter without a target discards writes

---
 lens/util_io.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lens/util_io.go b/lens/util_io.go
index 1b7c282..d224a1d 100644
--- a/lens/util_io.go
+++ b/lens/util_io.go
@@ -29,6 +29,9 @@ func TeeWriter(writers ...io.Writer) io.WriteCloser {
 		}
 	}
 
+	if last == nil { // nothing to write to
+		last = io.Discard
+	}
 	if wc, ok := last.(io.WriteCloser); ok {
 		return wc
 	} else { // wrap in teeWriter to get close interface
-- 
2.43.0


From 1818f15319721ece5e1eb3b5b4329057c92de969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:07 +0000
Subject: [PATCH 22/50] fix: lockedBuffer.Bytes returns a copy

---
 lens/util_io.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lens/util_io.go b/lens/util_io.go
index d224a1d..078dfb1 100644
--- a/lens/util_io.go
+++ b/lens/util_io.go
@@ -109,7 +109,7 @@ func (lb *lockedBuffer) Bytes() []byte {
 	lb.mu.Lock()
 	defer lb.mu.Unlock()
 
-	return lb.buf.Bytes() // return view, should be safe even if appended in buf after
+	return bytes.Clone(lb.buf.Bytes()) // copy so that a later Reset and Write can not change what was returned
 }
 
 func (lb *lockedBuffer) String() string {
-- 
2.43.0


From 936032080a400cb2e2c8cbb25b368e9e8440c687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:06 +0000
Subject: [PATCH 23/50] fix: printing an instrumented file keeps comments where
 they were

---
 lens/asttweak.go | 80 +++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 72 insertions(+), 8 deletions(-)

diff --git a/lens/asttweak.go b/lens/asttweak.go
index 6ce3f64..1434e3d 100644
--- a/lens/asttweak.go
+++ b/lens/asttweak.go
@@ -114,8 +114,61 @@ func (m *ASTModifier) addCleanupAction(f func() error) {
 }
 
 type parsedFile struct {
-	fset *token.FileSet
-	file *ast.File
+	fset      *token.FileSet
+	file      *ast.File
+	src       []byte
+	rewritten map[*ast.FuncDecl]bool
+}
+
+// print writes the source with the rewritten functions in place of the original ones. Everything else is copied, as
+// printing the whole file would place comments by their position, which the generated code does not have.
+func (pf *parsedFile) print(buf *bytes.Buffer) error {
+	tokenFile := pf.fset.File(pf.file.Pos())
+	var last int
+	for _, decl := range pf.file.Decls {
+		funcDecl, ok := decl.(*ast.FuncDecl)
+		if !ok || !pf.rewritten[funcDecl] {
+			continue
+		}
+		start := tokenFile.Offset(funcDecl.Pos())
+		buf.Write(pf.src[last:start])
+		if funcDecl.Doc != nil {
+			for _, c := range funcDecl.Doc.List {
+				if c.Slash == funcDecl.Pos()-1 { // a marker that was added
+					buf.WriteString(c.Text + "\n")
+				}
+			}
+		}
+		withoutDoc := *funcDecl
+		withoutDoc.Doc = nil
+		if err := format.Node(buf, pf.fset, &withoutDoc); err != nil {
+			return err
+		}
+		last = tokenFile.Offset(funcDecl.End())
+	}
+	buf.Write(pf.src[last:])
+	return nil
+}
+
+// markRewritten records that a function of a loaded file is modified. The comments within the function are dropped.
+// fileLock must be held before invoking.
+func (m *ASTModifier) markRewritten(filepath string, funcDecl *ast.FuncDecl) {
+	if file, ok := m.fileNodeMap.Load(filepath); ok {
+		file.(*parsedFile).rewritten[funcDecl] = true
+	}
+	ast.Inspect(funcDecl, func(n ast.Node) bool {
+		switch v := n.(type) {
+		case *ast.Field:
+			v.Doc, v.Comment = nil, nil
+		case *ast.GenDecl:
+			v.Doc = nil
+		case *ast.TypeSpec:
+			v.Doc, v.Comment = nil, nil
+		case *ast.ValueSpec:
+			v.Doc, v.Comment = nil, nil
+		}
+		return true
+	})
 }
 
 // loadParsedFileNode provides the currently parsed file.
@@ -127,15 +180,22 @@ func (m *ASTModifier) loadParsedFileNode(filepath string) (*token.FileSet, *ast.
 		return pf.fset, pf.file, nil
 	}
 
+	src, err := os.ReadFile(filepath)
+	if err != nil {
+		return nil, nil, fmt.Errorf("ast parse failure %s: %w", filepath, err)
+	}
 	fset := token.NewFileSet()
-	fileNode, err := parser.ParseFile(fset, filepath, nil, parser.ParseComments)
+	fileNode, err := parser.ParseFile(fset, filepath, src, parser.ParseComments)
 	if err != nil {
 		return nil, nil, fmt.Errorf("ast parse failure %s: %w", filepath, err)
 	}
-	m.fileNodeMap.Store(filepath, &parsedFile{
-		fset: fset,
-		file: fileNode,
-	})
+	pf := &parsedFile{
+		fset:      fset,
+		file:      fileNode,
+		src:       src,
+		rewritten: make(map[*ast.FuncDecl]bool),
+	}
+	m.fileNodeMap.Store(filepath, pf)
 
 	m.commitLock.Lock()
 	defer m.commitLock.Unlock()
@@ -144,7 +204,7 @@ func (m *ASTModifier) loadParsedFileNode(filepath string) (*token.FileSet, *ast.
 	}
 	m.commitActions[filepath] = func(buf *bytes.Buffer) error {
 		buf.Reset()
-		if err := format.Node(buf, fset, fileNode); err != nil {
+		if err := pf.print(buf); err != nil {
 			return fmt.Errorf("ast format failure %s: %w", filepath, err)
 		} else if err := m.backupOrigFile(filepath); err != nil {
 			return err
@@ -435,6 +495,7 @@ func (m *ASTModifier) injectPoint(filePath, pkg, funcIdent string, modify func(b
 	if err != nil {
 		return 0, err
 	}
+	m.markRewritten(filePath, target)
 	modify(target.Body, pointID)
 
 	return pointID, nil
@@ -544,6 +605,8 @@ func (m *ASTModifier) InjectFuncPointReturnStates(fn *Function) ([]uint32, error
 		}
 	}
 
+	m.markRewritten(fn.FilePath, funcDecl)
+
 	// Try to build *types.Info; fall back to nil on any error
 	info := buildTypesInfo(fset, fileNode) // may return nil
 
@@ -713,6 +776,7 @@ func (m *ASTModifier) InjectFuncPointBeforeCall(fn *Function, shouldInject func(
 	} else if funcDecl.Body == nil {
 		return nil, fmt.Errorf("%w: %s in %s", ErrNoFunctionBody, fn.FunctionIdent, fn.FilePath)
 	}
+	m.markRewritten(fn.FilePath, funcDecl)
 	filePackageNames := make(map[string]bool, len(fileNode.Imports))
 	for _, imp := range fileNode.Imports {
 		if imp.Name != nil {
-- 
2.43.0


From 324ff8481221f5eb56323f9c5d9c5a67f9088bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:40 +0000
Subject: [PATCH 24/50] fix: local constants are not part of a captured state

---
 lens/asttweak.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lens/asttweak.go b/lens/asttweak.go
index 1434e3d..8167063 100644
--- a/lens/asttweak.go
+++ b/lens/asttweak.go
@@ -1333,6 +1333,10 @@ func visibleDeclsBefore(fn *ast.FuncDecl, retPos token.Pos) []declInfo {
 		}
 
 		switch v := n.(type) {
+		case *ast.GenDecl:
+			if v.Tok == token.CONST {
+				return false // not state, and an untyped constant may not be representable as a value
+			}
 		case *ast.ValueSpec:
 			for _, id := range v.Names {
 				addIdent(id)
-- 
2.43.0


From 7e545d8046fb280baea189718f66bef4fc51676e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:00 +0000
Subject: [PATCH 25/50] fix: a result type hidden by a variable is not named in
 generated code

---
 lens/asttweak.go | 41 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/lens/asttweak.go b/lens/asttweak.go
index 8167063..9d2f204 100644
--- a/lens/asttweak.go
+++ b/lens/asttweak.go
@@ -1461,6 +1461,35 @@ func buildReturnInstrumentation(buf *bytes.Buffer, ret *ast.ReturnStmt, pointID
 		if isRecursiveCall(expr, fn.FunctionName) {
 			prefix = syntheticFieldNamePrefixRecursive
 		}
+		if typeContainsDecl(funcResultTypes[i], decls) {
+			// a variable hides the result type, so it can't be named here
+			if id, ok := expr.(*ast.Ident); ok {
+				if !seen[id.Name] && id.Name != literalNil {
+					snaps = append(snaps, makeSnapshotLit(id.Name, ident(id.Name)))
+					seen[id.Name] = true
+				}
+				newResults = append(newResults, ident(id.Name))
+				continue
+			}
+			rhs, err := cloneExprNoPos(buf, expr)
+			if err != nil {
+				return nil, err
+			}
+			retName := fmt.Sprintf("%s%d", prefix, i)
+			if isConstantExpr(expr) { // may need to be converted to the result type
+				snaps = append(snaps, makeSnapshotLit(retName, rhs))
+				newResults = append(newResults, rhs)
+				continue
+			}
+			preStmts = append(preStmts, &ast.AssignStmt{
+				Lhs: []ast.Expr{ident(retName)},
+				Tok: token.DEFINE,
+				Rhs: []ast.Expr{rhs},
+			})
+			snaps = append(snaps, makeSnapshotLit(retName, ident(retName)))
+			newResults = append(newResults, ident(retName))
+			continue
+		}
 
 		switch e := expr.(type) {
 		case *ast.Ident:
@@ -1861,6 +1890,18 @@ func exprContainsTypeShadow(expr ast.Expr, typ ast.Expr) bool {
 	return foundShadow
 }
 
+// typeContainsDecl checks if a name used in typ is one of the declared variables.
+func typeContainsDecl(typ ast.Expr, decls []declInfo) bool {
+	var found bool
+	ast.Inspect(typ, func(n ast.Node) bool {
+		if ident, ok := n.(*ast.Ident); ok {
+			found = found || slices.ContainsFunc(decls, func(d declInfo) bool { return d.ident.Name == ident.Name })
+		}
+		return !found
+	})
+	return found
+}
+
 // isConstantExpr reports whether expr consists only of compile-time constants.
 func isConstantExpr(expr ast.Expr) bool {
 	switch e := expr.(type) {
-- 
2.43.0


From 4f615c6539ea366cb98ee830d200867c4f24a12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:29 +0000
Subject: [PATCH 26/50] fix: falling off the end is captured in functions with
 early returns

---
 lens/asttweak.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/lens/asttweak.go b/lens/asttweak.go
index 9d2f204..811f516 100644
--- a/lens/asttweak.go
+++ b/lens/asttweak.go
@@ -686,17 +686,24 @@ func (m *ASTModifier) InjectFuncPointReturnStates(fn *Function) ([]uint32, error
 		return nil
 	}
 
+	// without results the end of the body may be reached even if there are explicit returns
+	fallsOff := len(funcResultTypes) == 0
+	if bodyLen := len(funcDecl.Body.List); fallsOff && bodyLen > 0 {
+		_, endsInReturn := funcDecl.Body.List[bodyLen-1].(*ast.ReturnStmt)
+		fallsOff = !endsInReturn
+	}
+
 	if err := rewriteBlock(funcDecl.Body); err != nil {
 		return nil, fmt.Errorf("ast rewrite failure %s: %w", fn.FilePath, err)
-	} else if !foundExplicitReturn {
+	} else if !foundExplicitReturn || fallsOff {
 		pointID, err := m.nextPointId()
 		if err != nil {
 			return nil, err
 		}
-		pointIDs = []uint32{pointID}
+		pointIDs = append(pointIDs, pointID)
 
 		decls := visibleDeclsBefore(funcDecl, funcDecl.Body.End()-1)
-		stmt, err := buildImplicitReturnInstrumentation(&buf, pointIDs[0], decls)
+		stmt, err := buildImplicitReturnInstrumentation(&buf, pointID, decls)
 		if err != nil {
 			return nil, fmt.Errorf("ast rewrite failure %s: %w", fn.FilePath, err)
 		}
-- 
2.43.0


From 8648c4ff79ad37aaa144a8c73e609d7db1493d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:08 +0000
Subject: [PATCH 27/50] fix: returns in else-if chains, selects and labeled
 statements are captured

---
 lens/asttweak.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/lens/asttweak.go b/lens/asttweak.go
index 811f516..cba1145 100644
--- a/lens/asttweak.go
+++ b/lens/asttweak.go
@@ -648,7 +648,7 @@ func (m *ASTModifier) InjectFuncPointReturnStates(fn *Function) ([]uint32, error
 							return err
 						}
 					case *ast.IfStmt:
-						if err := rewriteBlock(e.Body); err != nil {
+						if err := rewriteBlock(&ast.BlockStmt{List: []ast.Stmt{e}}); err != nil {
 							return err
 						}
 					}
@@ -671,6 +671,22 @@ func (m *ASTModifier) InjectFuncPointReturnStates(fn *Function) ([]uint32, error
 						cc.Body = blk.List
 					}
 				}
+			case *ast.LabeledStmt:
+				blk := &ast.BlockStmt{List: []ast.Stmt{s.Stmt}}
+				if err := rewriteBlock(blk); err != nil {
+					return err
+				}
+				s.Stmt = blk.List[0]
+			case *ast.SelectStmt:
+				for _, stmt := range s.Body.List {
+					if cc, ok := stmt.(*ast.CommClause); ok {
+						blk := &ast.BlockStmt{List: cc.Body}
+						if err := rewriteBlock(blk); err != nil {
+							return err
+						}
+						cc.Body = blk.List
+					}
+				}
 			case *ast.TypeSwitchStmt:
 				for _, stmt := range s.Body.List {
 					if cc, ok := stmt.(*ast.CaseClause); ok {
@@ -1333,7 +1349,7 @@ func visibleDeclsBefore(fn *ast.FuncDecl, retPos token.Pos) []declInfo {
 		// If a block-like node ends before retPos, nothing inside it is visible
 		switch n.(type) {
 		case *ast.BlockStmt, *ast.IfStmt, *ast.ForStmt, *ast.RangeStmt,
-			*ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.CaseClause:
+			*ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.CaseClause, *ast.CommClause:
 			if n.End() < retPos {
 				return false // prune subtree
 			}
-- 
2.43.0


From bd0a40df0bb964768a02f44b6a298a5e4dcd7e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:51 +0000
Subject: [PATCH 28/50] fix: backups keep foreign .bkp files, links and file
 modes

---
 lens/asttweak.go | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/lens/asttweak.go b/lens/asttweak.go
index cba1145..63aa2e0 100644
--- a/lens/asttweak.go
+++ b/lens/asttweak.go
@@ -74,6 +74,7 @@ type ASTModifier struct {
 	fileNodeMap    sync.Map
 	commitLock     sync.Mutex
 	commitActions  map[string]func(*bytes.Buffer) error
+	backups        sync.Map
 }
 
 func goCacheClean(goenv []string) error {
@@ -442,17 +443,32 @@ func updateConstLiterals(f *ast.File, values map[string]string) {
 	}
 }
 
-// backupOrigFile will copy the file to a .bkp file if one does not already exist.
+// backupOrigFile will copy the file to a .bkp file unless this was already done.
+// The caller must hold the file lock.
 func (m *ASTModifier) backupOrigFile(filepath string) error {
+	if _, ok := m.backups.Load(filepath); ok {
+		return nil
+	}
+	content, err := os.ReadFile(filepath)
+	if err != nil {
+		return fmt.Errorf("ast backup failure: %w", err)
+	}
 	bkpFile := filepath + ".bkp"
-	if !FileExists(bkpFile) {
-		if err := CopyFile(filepath, bkpFile); err != nil {
-			return fmt.Errorf("ast backup failure: %w", err)
-		}
-		m.addCleanupAction(func() error {
-			return replaceFile(bkpFile, filepath)
-		})
+	for i := 2; FileExists(bkpFile); i++ { // a file which is not ours
+		bkpFile = fmt.Sprintf("%s.bkp%d", filepath, i)
 	}
+	if err := os.WriteFile(bkpFile, content, 0o644); err != nil {
+		return errors.Join(fmt.Errorf("ast backup failure: %w", err), os.Remove(bkpFile))
+	}
+	m.backups.Store(filepath, bkpFile)
+	m.addCleanupAction(func() error {
+		m.backups.Delete(filepath)
+		// written in place so that links and the file mode are kept
+		if err := os.WriteFile(filepath, content, 0o644); err != nil {
+			return err
+		}
+		return os.Remove(bkpFile)
+	})
 	return nil
 }
 
-- 
2.43.0


From e77f237cf8869885cf756e2ba51ef00bd1423ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:20 +0000
Subject: [PATCH 29/50] fix: module files are restored after an update, also
 created and workspace ones

---
 lens/astexec.go | 73 +++++++++++++++++++++++++------------------------
 1 file changed, 37 insertions(+), 36 deletions(-)

diff --git a/lens/astexec.go b/lens/astexec.go
index bad8e9f..ba8136b 100644
--- a/lens/astexec.go
+++ b/lens/astexec.go
@@ -106,48 +106,18 @@ func RunModuleUpdateAnalysis(gopath, gomodcache, projectDir string, portStart in
 		return projectFieldChecks1, moduleChangesReached, skippedModuleFuncs, preStorage, nil, err
 	}
 
-	// backup all go.mod/go.sum files then perform module update in each module directory
+	// backup all module files then perform module update in each module directory
 	goModPaths, err := ProjectGoModFiles(projectDir)
 	if err != nil {
 		return projectFieldChecks1, moduleChangesReached, skippedModuleFuncs, preStorage, nil, err
 	}
 
-	type modBackupInfo struct {
-		modPath string
-		sumPath string
-		modBkp  string
-		sumBkp  string
-	}
-	backups := make([]modBackupInfo, 0, len(goModPaths))
-	// restore originals (and remove .bkp) on every return path, including early errors
-	defer func() {
-		for _, b := range backups {
-			if err := os.Rename(b.modBkp, b.modPath); err != nil {
-				log.Printf("%sFailed to restore %s: %v", ErrorLogPrefix, b.modPath, err)
-			} else if b.sumPath != "" {
-				if err := os.Rename(b.sumBkp, b.sumPath); err != nil {
-					log.Printf("%sFailed to restore %s: %v", ErrorLogPrefix, b.sumPath, err)
-				}
-			}
-		}
-	}()
-	for _, gm := range goModPaths {
-		sum := filepath.Join(filepath.Dir(gm), "go.sum")
-		info := modBackupInfo{modPath: gm, modBkp: gm + ".bkp"}
-		if err := CopyFile(gm, info.modBkp); err != nil {
-			return projectFieldChecks1, moduleChangesReached, skippedModuleFuncs, preStorage, nil,
-				fmt.Errorf("backup go.mod failed: %w", err)
-		}
-		if FileExists(sum) {
-			info.sumPath = sum
-			info.sumBkp = sum + ".bkp"
-			if err := CopyFile(sum, info.sumBkp); err != nil {
-				return projectFieldChecks1, moduleChangesReached, skippedModuleFuncs, preStorage, nil,
-					fmt.Errorf("backup go.sum failed: %w", err)
-			}
-		}
-		backups = append(backups, info)
+	// restore originals on every return path, including early errors
+	restore, err := backupModuleFiles(projectDir, goModPaths)
+	if err != nil {
+		return projectFieldChecks1, moduleChangesReached, skippedModuleFuncs, preStorage, nil, err
 	}
+	defer restore()
 
 	for _, gm := range goModPaths {
 		modDir := filepath.Dir(gm)
@@ -181,6 +151,37 @@ func RunModuleUpdateAnalysis(gopath, gomodcache, projectDir string, portStart in
 	return max(projectFieldChecks1, projectFieldChecks2), moduleChangesReached, skippedModuleFuncs, preStorage, postStorage, nil
 }
 
+// backupModuleFiles remembers the module definition and checksum files which an update may change or create.
+// The returned function brings them back.
+func backupModuleFiles(projectDir string, goModPaths []string) (func(), error) {
+	paths := []string{filepath.Join(projectDir, "go.work"), filepath.Join(projectDir, "go.work.sum")}
+	for _, gm := range goModPaths {
+		paths = append(paths, gm, filepath.Join(filepath.Dir(gm), "go.sum"))
+	}
+	contents := make(map[string][]byte, len(paths))
+	for _, path := range paths {
+		content, err := os.ReadFile(path)
+		if err == nil {
+			contents[path] = content
+		} else if !os.IsNotExist(err) {
+			return nil, fmt.Errorf("backup %s failed: %w", filepath.Base(path), err)
+		}
+	}
+	return func() {
+		for _, path := range paths {
+			var err error
+			if content, ok := contents[path]; ok {
+				err = os.WriteFile(path, content, 0o644)
+			} else if FileExists(path) { // created by the update
+				err = os.Remove(path)
+			}
+			if err != nil {
+				log.Printf("%sFailed to restore %s: %v", ErrorLogPrefix, path, err)
+			}
+		}
+	}, nil
+}
+
 func runMonitoredTestAnalysis(env []string, maxVariableRecurse, maxFieldLen int,
 	srvChan chan *astServer, goroot, projectDir string, stableResultsStorage Storage, storage Storage,
 	moduleChanges []*ModuleFunction, callerFunctions []*CallerFunction, testFunctions []*TestFunction,
-- 
2.43.0


From f1680679c0d295173171994ff3f7b3e4ad42347d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:56 +0000
Subject: [PATCH 30/50] fix: a hidden result type in functions that never
 return

---
 lens/asttweak.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lens/asttweak.go b/lens/asttweak.go
index 63aa2e0..831ae94 100644
--- a/lens/asttweak.go
+++ b/lens/asttweak.go
@@ -760,6 +760,13 @@ func (m *ASTModifier) InjectFuncPointReturnStates(fn *Function) ([]uint32, error
 			if allNamedNonBlank {
 				// All returns are named and non-blank - use naked return
 				funcDecl.Body.List = append(funcDecl.Body.List, &ast.ReturnStmt{})
+			} else if slices.ContainsFunc(funcResultTypes, func(t ast.Expr) bool { return typeContainsDecl(t, decls) }) {
+				// A variable hides a result type, so no value of it can be built. This is never reached: without a
+				// return statement the body can't complete normally.
+				funcDecl.Body.List = append(funcDecl.Body.List, &ast.ExprStmt{X: &ast.CallExpr{
+					Fun:  ast.NewIdent("panic"),
+					Args: []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: `"unreachable"`}},
+				}})
 			} else {
 				// Need explicit return values
 				returnExprs := make([]ast.Expr, len(funcResultTypes))
-- 
2.43.0


From b04f72c26f8aab67550de459fae0a424150491a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:46 +0000
Subject: [PATCH 31/50] fix: a restore that failed can be repeated, and a
 client half written is removed

---
 lens/asttweak.go | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/lens/asttweak.go b/lens/asttweak.go
index 831ae94..134dd0c 100644
--- a/lens/asttweak.go
+++ b/lens/asttweak.go
@@ -96,12 +96,15 @@ func (m *ASTModifier) Restore(goenv []string) (result []error) {
 	if len(m.cleanupActions) == 0 {
 		return // shortcut
 	}
-	for _, f := range m.cleanupActions {
+	var failed []func() error
+	for _, f := range slices.Backward(m.cleanupActions) { // last change first, different paths may be the same file
 		if err := f(); err != nil {
 			result = append(result, err)
+			failed = append(failed, f)
 		}
 	}
-	m.cleanupActions = m.cleanupActions[:0] // clear completed actions
+	slices.Reverse(failed)
+	m.cleanupActions = failed // completed actions are dropped, the others can be tried again
 	if err := goCacheClean(goenv); err != nil {
 		result = append(result, fmt.Errorf("failure to clean go cache: %w", err))
 	}
@@ -296,21 +299,32 @@ func (m *ASTModifier) InjectASTClient(pkgDir string, srvPort int, maxFieldRecurs
 	if err != nil {
 		return fmt.Errorf("rewrite astclient failure: %w", err)
 	} else if err := os.WriteFile(clientFile, clientTxt, 0o644); err != nil {
-		return err
+		return errors.Join(err, removeFiles(clientFile))
 	}
 	apiFile := filepath.Join(pkgDir, injectedFilenamePrefix+"api_gen.go")
 	apiTxt, err := rewriteAstClientTemplate(&buf, apiSrc, pkgName, nil)
 	if err != nil {
-		return fmt.Errorf("rewrite astapi failure: %w", err)
+		return errors.Join(fmt.Errorf("rewrite astapi failure: %w", err), removeFiles(clientFile))
 	} else if err := os.WriteFile(apiFile, apiTxt, 0o644); err != nil {
-		return err
+		return errors.Join(err, removeFiles(clientFile, apiFile))
 	}
 	m.addCleanupAction(func() error {
-		return errors.Join(os.Remove(clientFile), os.Remove(apiFile))
+		return removeFiles(clientFile, apiFile)
 	})
 	return nil
 }
 
+// removeFiles removes files of which some may already be gone.
+func removeFiles(paths ...string) error {
+	var errs []error
+	for _, path := range paths {
+		if err := os.Remove(path); err != nil && (!os.IsNotExist(err) || !FileExists(filepath.Dir(path))) {
+			errs = append(errs, err)
+		}
+	}
+	return errors.Join(errs...)
+}
+
 func makeFileFilter(dir string) func(fi fs.FileInfo) bool {
 	return func(fi fs.FileInfo) bool {
 		name := fi.Name()
@@ -462,12 +476,12 @@ func (m *ASTModifier) backupOrigFile(filepath string) error {
 	}
 	m.backups.Store(filepath, bkpFile)
 	m.addCleanupAction(func() error {
-		m.backups.Delete(filepath)
 		// written in place so that links and the file mode are kept
 		if err := os.WriteFile(filepath, content, 0o644); err != nil {
 			return err
 		}
-		return os.Remove(bkpFile)
+		m.backups.Delete(filepath)
+		return removeFiles(bkpFile)
 	})
 	return nil
 }
-- 
2.43.0


From 69abcf74ec7e16f28f938070309f18788535d4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:42 +0000
Subject: [PATCH 32/50] fix: module files changed by the test runs before the
 update are restored

---
 lens/astexec.go | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/lens/astexec.go b/lens/astexec.go
index ba8136b..3671d06 100644
--- a/lens/astexec.go
+++ b/lens/astexec.go
@@ -96,29 +96,30 @@ func RunModuleUpdateAnalysis(gopath, gomodcache, projectDir string, portStart in
 	// filter out modules with Go versions below minimum for AST instrumentation
 	filteredModuleChanges, skippedModuleFuncs := FilterModulesByGoVersion(reachableModuleChanges)
 
-	// capture stable field values before update
-	preStorage := KeyPrefixStorage(storage, "pre")
-	projectFieldChecks1, moduleChangesReached, err :=
-		runMonitoredTestAnalysis(env, maxVariableRecurse, maxFieldLen, srvChan, gopath, projectDir,
-			nil, preStorage,
-			filteredModuleChanges, callingFunctions, testFunctions, preUpdateExtensionConfig, nil)
-	if err != nil {
-		return projectFieldChecks1, moduleChangesReached, skippedModuleFuncs, preStorage, nil, err
-	}
-
-	// backup all module files then perform module update in each module directory
+	// backup all module files, the go command may change them in the test runs already
 	goModPaths, err := ProjectGoModFiles(projectDir)
 	if err != nil {
-		return projectFieldChecks1, moduleChangesReached, skippedModuleFuncs, preStorage, nil, err
+		return 0, 0, skippedModuleFuncs, nil, nil, err
 	}
 
 	// restore originals on every return path, including early errors
 	restore, err := backupModuleFiles(projectDir, goModPaths)
 	if err != nil {
-		return projectFieldChecks1, moduleChangesReached, skippedModuleFuncs, preStorage, nil, err
+		return 0, 0, skippedModuleFuncs, nil, nil, err
 	}
 	defer restore()
 
+	// capture stable field values before update
+	preStorage := KeyPrefixStorage(storage, "pre")
+	projectFieldChecks1, moduleChangesReached, err :=
+		runMonitoredTestAnalysis(env, maxVariableRecurse, maxFieldLen, srvChan, gopath, projectDir,
+			nil, preStorage,
+			filteredModuleChanges, callingFunctions, testFunctions, preUpdateExtensionConfig, nil)
+	if err != nil {
+		return projectFieldChecks1, moduleChangesReached, skippedModuleFuncs, preStorage, nil, err
+	}
+
+	// perform module update in each module directory
 	for _, gm := range goModPaths {
 		modDir := filepath.Dir(gm)
 		for _, cm := range changedModules {
-- 
2.43.0


From a4b0e12a07eec6c3d0c6e54d748df2d7e5e25bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:07 +0000
Subject: [PATCH 33/50] fix: the client is not added to a package while its
 files are being written

---
 lens/astexec.go | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/lens/astexec.go b/lens/astexec.go
index 3671d06..f46cec7 100644
--- a/lens/astexec.go
+++ b/lens/astexec.go
@@ -380,12 +380,11 @@ func injectMonitorPoints(astEditor *ASTModifier, maxVariableRecurse, maxFieldLen
 		if dir := filepath.Dir(cf.FilePath); !slices.Contains(projectPkgs, dir) {
 			projectPkgs = append(projectPkgs, dir)
 
-			errGrp.Go(func() error {
-				if err := astEditor.InjectASTClient(dir, 0, maxVariableRecurse, maxFieldLen); err != nil {
-					return fmt.Errorf("failed to inject project AST client: %w", err)
-				}
-				return nil
-			})
+			// not concurrent with edits in the package, it reads the files which they write
+			if err := astEditor.InjectASTClient(dir, 0, maxVariableRecurse, maxFieldLen); err != nil {
+				_ = errGrp.Wait()
+				return nil, nil, nil, nil, nil, fmt.Errorf("failed to inject project AST client: %w", err)
+			}
 		}
 
 		fileFunctions := currentFileFunctions
@@ -459,12 +458,11 @@ func injectMonitorPoints(astEditor *ASTModifier, maxVariableRecurse, maxFieldLen
 			if dir := filepath.Dir(mf.FilePath); !slices.Contains(modulePkgs, dir) {
 				modulePkgs = append(modulePkgs, dir)
 
-				errGrp.Go(func() error {
-					if err := astEditor.InjectASTClient(dir, 0, maxVariableRecurse, maxFieldLen); err != nil {
-						return fmt.Errorf("failed to inject module AST client: %w", err)
-					}
-					return nil
-				})
+				// not concurrent with edits in the package, it reads the files which they write
+				if err := astEditor.InjectASTClient(dir, 0, maxVariableRecurse, maxFieldLen); err != nil {
+					_ = errGrp.Wait()
+					return nil, nil, nil, nil, nil, fmt.Errorf("failed to inject module AST client: %w", err)
+				}
 			}
 
 			fileFunctions := currentFileFunctions
-- 
2.43.0


From b3319d2b9c7939fe3b7dc2c1287c848e5ac78f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:30 +0000
Subject: [PATCH 34/50] fix: helpers named like tests are no tests

Methods of test suites and functions like Testhelper ended the search for the tests which call them.
---
 lens/static.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lens/static.go b/lens/static.go
index 14a8bad..1e74d99 100644
--- a/lens/static.go
+++ b/lens/static.go
@@ -13,6 +13,8 @@ import (
 	"sort"
 	"strings"
 	"sync"
+	"unicode"
+	"unicode/utf8"
 
 	"github.com/go-analyze/bulk"
 	"golang.org/x/tools/go/callgraph"
@@ -640,8 +642,10 @@ func isGoTestFunction(fn *ssa.Function) bool {
 		return false
 	} else if _, ok := fn.Syntax().(*ast.FuncDecl); !ok {
 		return false // only select the top level functions, don't try to be granular to any test case literal / anonymous test functions
-	} else if !strings.HasPrefix(fn.Name(), "Test") {
+	} else if suffix, ok := strings.CutPrefix(fn.Name(), "Test"); !ok {
 		return false
+	} else if r, _ := utf8.DecodeRuneInString(suffix); unicode.IsLower(r) || fn.Signature.Recv() != nil {
+		return false // a helper or the method of a suite, not run by "go test" itself
 	} else if !strings.HasSuffix(filePathForSSAFunc(fn), "_test.go") {
 		return false
 	} else if fn.Signature.Params().Len() != 1 {
-- 
2.43.0


From 49e31c08bfc581e5be99aac5a985469ef76d5ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:09 +0000
Subject: [PATCH 35/50] fix: dependencies kept within the project directory are
 not project callers

---
 lens/static.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/lens/static.go b/lens/static.go
index 1e74d99..1e448ab 100644
--- a/lens/static.go
+++ b/lens/static.go
@@ -71,6 +71,8 @@ func CallerStaticAnalysis(moduleChanges []*ModuleFunction, projectDir, gopath, g
 				// Only consider functions that belong to the user’s project, skip while traversing any module changes
 				if contained, err := fileWithinDir(fnFile, projectDir); !contained || err != nil {
 					return nil
+				} else if isDependencyFile(fnFile, projectDir, gomodcache) {
+					return nil
 				} else if IsGeneratedFile(fnFile) {
 					return nil
 				} else if compiled, err := compilesForBuildContext(fnFile); !compiled || err != nil {
@@ -125,6 +127,21 @@ func CallerStaticAnalysis(moduleChanges []*ModuleFunction, projectDir, gopath, g
 	return result, reachableModuleChanges, cg, projectPkgs, modulePkgs, nil
 }
 
+// isDependencyFile returns true for files within the project directory which belong to a dependency, because the
+// dependencies are vendored or the module cache is kept there.
+func isDependencyFile(filePath, projectDir, gomodcache string) bool {
+	dependencyDirs := []string{filepath.Join(projectDir, "vendor")}
+	if gomodcache != "" {
+		if contained, err := fileWithinDir(gomodcache, projectDir); err == nil && contained {
+			dependencyDirs = append(dependencyDirs, gomodcache)
+		}
+	}
+	return slices.ContainsFunc(dependencyDirs, func(dir string) bool {
+		contained, err := fileWithinDir(filePath, dir)
+		return err == nil && contained
+	})
+}
+
 // extractCallGraphEdges converts the SSA call graph into a simple identifier mapping.
 // Functions with no outgoing calls will have nil slices for memory efficiency.
 func extractCallGraphEdges(cg *callgraph.Graph) map[string][]string {
-- 
2.43.0


From 77fa22131d7dec265f9ceee41fdcf050f241747d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:13 +0000
Subject: [PATCH 36/50] fix: calls of methods of generic types are found

Methods of generic types were only part of the call graph if an instance of them is called directly or converted to an
interface. The methods of generic types of a library, and calls through a type parameter, were missed.
---
 lens/static.go | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/lens/static.go b/lens/static.go
index 1e448ab..b7dcc8e 100644
--- a/lens/static.go
+++ b/lens/static.go
@@ -395,9 +395,42 @@ func LoadProjectCallGraph(projectDir, gopath, gomodcache string, includeTests bo
 	}
 	prog.Build() // build all packages, will be concurrent unless serial flag is passed
 
+	// Methods of generic types are otherwise only part of the call graph if they are called directly
+	packages.Visit(pkgs, nil, func(p *packages.Package) {
+		if ssaPkg := created[p.Types]; ssaPkg != nil {
+			addGenericMethods(prog, ssaPkg, p.TypesInfo)
+		}
+	})
+
 	return cha.CallGraph(prog), prog, pkgs, modulePkgs, nil
 }
 
+// addGenericMethods makes the methods of generic types, and of their instances, reachable as members of the package.
+func addGenericMethods(prog *ssa.Program, ssaPkg *ssa.Package, info *types.Info) {
+	scope := ssaPkg.Pkg.Scope()
+	for _, name := range scope.Names() {
+		if typeName, ok := scope.Lookup(name).(*types.TypeName); ok && !typeName.IsAlias() {
+			if named, ok := typeName.Type().(*types.Named); ok && named.TypeParams().Len() > 0 {
+				for i := 0; i < named.NumMethods(); i++ {
+					if fn := prog.FuncValue(named.Method(i)); fn != nil {
+						ssaPkg.Members[fn.String()] = fn
+					}
+				}
+			}
+		}
+	}
+	for _, instance := range info.Instances {
+		if named, ok := instance.Type.(*types.Named); ok && !types.IsInterface(named) {
+			methods := types.NewMethodSet(types.NewPointer(named))
+			for i := 0; i < methods.Len(); i++ {
+				if fn := prog.MethodValue(methods.At(i)); fn != nil { // nil if the instance has type parameters
+					ssaPkg.Members[fn.String()] = fn
+				}
+			}
+		}
+	}
+}
+
 // filePathForSSAFunc attempts to retrieve the file path of the function’s position.
 func filePathForSSAFunc(fn *ssa.Function) string {
 	if fn == nil {
-- 
2.43.0


From 5b6c86b39f979b0f6f574aafe1f7ef1aba529b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:18 +0000
Subject: [PATCH 37/50] fix: mutation testing reported surviving mutants as
 detected

go-mutesting counts a mutant as passed when its tests failed (exit status 0
of the exec script), and as failed when the tests did not notice it. The
result took the second number for the detected mutants.
---
 lens/mutation.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lens/mutation.go b/lens/mutation.go
index 843b17f..c372089 100644
--- a/lens/mutation.go
+++ b/lens/mutation.go
@@ -181,11 +181,11 @@ func RunMutationTesting(gopath, gomodcache, projectDir string, fastMutations, li
 	logMsg := strings.ReplaceAll(m[0], "The mutation score is", "Mutation score:")
 	suffixIndex := strings.Index(logMsg, "failed")
 	if suffixIndex > 0 {
-		logMsg = logMsg[:suffixIndex] + "detected)"
+		logMsg = logMsg[:suffixIndex] + "alive)"
 	}
-	logMsg = strings.ReplaceAll(logMsg, "passed", "alive")
+	logMsg = strings.ReplaceAll(logMsg, "passed", "detected")
 	log.Println(logMsg)
-	killed, _ := strconv.Atoi(m[2])
+	killed, _ := strconv.Atoi(m[1]) // go-mutesting passes a mutant when the tests failed for it
 	total, _ := strconv.Atoi(m[5])
 
 	// remove unnecessary report.json report (for now)
-- 
2.43.0


From add80a1ed1de6ff610639f180ee2ea8829e505f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:22 +0000
Subject: [PATCH 38/50] fix: functions whose name contains the name of a
 changed function were mutated

---
 lens/mutation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lens/mutation.go b/lens/mutation.go
index c372089..18d5e95 100644
--- a/lens/mutation.go
+++ b/lens/mutation.go
@@ -152,7 +152,7 @@ func RunMutationTesting(gopath, gomodcache, projectDir string, fastMutations, li
 	}
 	defer func() { _ = os.Remove(execScript) }()
 
-	args := []string{"--exec", execScript, "--match", "(" + strings.Join(mutationFunctions, "|") + ")"}
+	args := []string{"--exec", execScript, "--match", "^(" + strings.Join(mutationFunctions, "|") + ")$"}
 	args = append(args, mutationFiles...)
 	if fastMutations {
 		for _, test := range disabledMutations {
-- 
2.43.0


From 8ca655f82a8868887841465e316ff97d220fd5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:26 +0000
Subject: [PATCH 39/50] fix: mutation scripts broke on file names with spaces,
 quotes or dollar signs

---
 lens/mutation.go | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/lens/mutation.go b/lens/mutation.go
index 18d5e95..676ad2e 100644
--- a/lens/mutation.go
+++ b/lens/mutation.go
@@ -222,6 +222,19 @@ case $GOMUTESTING_RESULT in
 	;;
 esac`
 
+// shellQuote quotes s so that the shell takes it as one literal word.
+func shellQuote(s string) string {
+	return "'" + strings.ReplaceAll(s, "'", `'\''`) + "'"
+}
+
+func shellQuoteAll(words []string) string {
+	quoted := make([]string, len(words))
+	for i, w := range words {
+		quoted[i] = shellQuote(w)
+	}
+	return strings.Join(quoted, " ")
+}
+
 func buildExecSelectTestsScript(fileToTests map[string][]string, packages []string) (string, error) {
 	file, err := os.CreateTemp("", "mutationexec-*.sh")
 	if err != nil {
@@ -233,7 +246,7 @@ func buildExecSelectTestsScript(fileToTests map[string][]string, packages []stri
 `); err != nil {
 		return "", err
 	}
-	if _, err := fmt.Fprintf(file, "PKGS=\"%s\"\n", strings.Join(packages, " ")); err != nil {
+	if _, err := fmt.Fprintf(file, "PKGS=(%s)\n", shellQuoteAll(packages)); err != nil {
 		return "", err
 	}
 
@@ -250,8 +263,8 @@ func buildExecSelectTestsScript(fileToTests map[string][]string, packages []stri
 		// Sort test names so the regex is deterministic
 		sort.Strings(tests)
 		// Escape any special characters by wrapping in quotes
-		if _, err := fmt.Fprintf(file, `FILE_TEST_MAP["%s"]="%s"
-`, fp, strings.Join(tests, " ")); err != nil {
+		if _, err := fmt.Fprintf(file, `FILE_TEST_MAP[%s]="%s"
+`, shellQuote(fp), strings.Join(tests, " ")); err != nil {
 			return "", err
 		}
 	}
@@ -278,7 +291,7 @@ cp "$MUTATE_CHANGED" "$MUTATE_ORIGINAL" || { exit 2; }
 
 # Run only the affected tests
 export MUTATE_TIMEOUT=${MUTATE_TIMEOUT:-30}
-GOMUTESTING_TEST=$(go test -count=1 -failfast -timeout=$(printf '%ds' $MUTATE_TIMEOUT) -run "$pattern" $PKGS 2>&1)
+GOMUTESTING_TEST=$(go test -count=1 -failfast -timeout=$(printf '%ds' $MUTATE_TIMEOUT) -run "$pattern" "${PKGS[@]}" 2>&1)
 export GOMUTESTING_RESULT=$?
 
 `); err != nil {
@@ -297,23 +310,23 @@ export GOMUTESTING_RESULT=$?
 
 func buildExecAllTestsScript(packages []string) (string, error) {
 	const scriptTmpl = `#!/usr/bin/env bash
-PKGS="%s"
+PKGS=(%s)
 if [ -z ${MUTATE_CHANGED+x} ]; then echo "MUTATE_CHANGED is not set"; exit 1; fi
 if [ -z ${MUTATE_ORIGINAL+x} ]; then echo "MUTATE_ORIGINAL is not set"; exit 1; fi
 if [ -z ${MUTATE_PACKAGE+x} ]; then echo "MUTATE_PACKAGE is not set"; exit 1; fi
 
-export GOMUTESTING_DIFF=$(diff -u $MUTATE_ORIGINAL $MUTATE_CHANGED)
+export GOMUTESTING_DIFF=$(diff -u "$MUTATE_ORIGINAL" "$MUTATE_CHANGED")
 
-mv $MUTATE_ORIGINAL $MUTATE_ORIGINAL.mbkp || {
+mv "$MUTATE_ORIGINAL" "$MUTATE_ORIGINAL.mbkp" || {
  echo "skip: cannot rename $MUTATE_ORIGINAL (need to run with tmpcopy enabled?)" 1>&2
  exit 2
 }
 trap 'mv "$MUTATE_ORIGINAL.mbkp" "$MUTATE_ORIGINAL"' EXIT
-cp $MUTATE_CHANGED $MUTATE_ORIGINAL || { exit 2; }
+cp "$MUTATE_CHANGED" "$MUTATE_ORIGINAL" || { exit 2; }
 
 export MUTATE_TIMEOUT=${MUTATE_TIMEOUT:-30}
 
-GOMUTESTING_TEST=$(go test -count=1 -failfast -timeout=$(printf '%%ds' $MUTATE_TIMEOUT) $PKGS 2>&1)
+GOMUTESTING_TEST=$(go test -count=1 -failfast -timeout=$(printf '%%ds' $MUTATE_TIMEOUT) "${PKGS[@]}" 2>&1)
 export GOMUTESTING_RESULT=$?
 
 ` + scriptFinishCheck
@@ -321,7 +334,7 @@ export GOMUTESTING_RESULT=$?
 	file, err := os.CreateTemp("", "mutationexec-*.sh")
 	if err != nil {
 		return "", err
-	} else if _, err = fmt.Fprintf(file, scriptTmpl, strings.Join(packages, " ")); err != nil {
+	} else if _, err = fmt.Fprintf(file, scriptTmpl, shellQuoteAll(packages)); err != nil {
 		_ = file.Close()
 		return "", err
 	} else if err = file.Close(); err != nil {
-- 
2.43.0


From f09e90cdfeb6b1d3edef0ee2d420a34cbf7b7b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:40 +0000
Subject: [PATCH 40/50] fix: mutants that do not compile were counted as
 detected by the tests

---
 lens/mutation.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lens/mutation.go b/lens/mutation.go
index 676ad2e..74c6719 100644
--- a/lens/mutation.go
+++ b/lens/mutation.go
@@ -197,7 +197,13 @@ func RunMutationTesting(gopath, gomodcache, projectDir string, fastMutations, li
 	}, nil
 }
 
-const scriptFinishCheck = `if [ "$MUTATE_DEBUG" = true ] || [ "$MUTATE_VERBOSE" = true ] ; then
+const scriptFinishCheck = `# go test exits with 1 both for failed tests and for packages which could not be built,
+# only a test binary that ran reports its package as failed after some time
+if [ "$GOMUTESTING_RESULT" -eq 1 ] && ! grep -qE $'^FAIL\t[^\t]+\t[0-9.]+s$' <<< "$GOMUTESTING_TEST"; then
+	GOMUTESTING_RESULT=2
+fi
+
+if [ "$MUTATE_DEBUG" = true ] || [ "$MUTATE_VERBOSE" = true ] ; then
 	echo "$GOMUTESTING_TEST"
 fi
 
-- 
2.43.0


From 1cc7070f3664b65f5c679b4b6847a2553530983f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:12 +0000
Subject: [PATCH 41/50] fix: directives for the mutation tool were inserted
 into multi-line string literals

---
 lens/asttweak.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lens/asttweak.go b/lens/asttweak.go
index 134dd0c..d1285a6 100644
--- a/lens/asttweak.go
+++ b/lens/asttweak.go
@@ -2071,6 +2071,7 @@ func (m *ASTModifier) InsertFuncLines(fn *Function, cb func(i int, line string)
 
 	// classify every line inside the body
 	codeLine := make([]bool, bodyCloseLine-bodyOpenLine+1) // false by default
+	literalLine := make([]bool, len(codeLine))             // line starts within a literal, nothing can be inserted above it
 	var sc scanner.Scanner
 	sc.Init(fset.File(decl.Body.Pos()), data, nil, scanner.ScanComments)
 	prevLine := bodyOpenLine
@@ -2094,7 +2095,10 @@ func (m *ASTModifier) InsertFuncLines(fn *Function, cb func(i int, line string)
 			// don't mark pure braces, parentheses or brackets as code
 		case token.STRING, token.CHAR:
 			// if this literal spans multiple lines, skip all those lines
-			if strings.Contains(lit, "\n") {
+			if newlines := strings.Count(lit, "\n"); newlines > 0 {
+				for l := lno + 1; l <= lno+newlines && l <= bodyCloseLine; l++ {
+					literalLine[l-bodyOpenLine] = true
+				}
 				continue
 			}
 			// single-line literal (foo := "str")
@@ -2119,7 +2123,7 @@ func (m *ASTModifier) InsertFuncLines(fn *Function, cb func(i int, line string)
 	for lineNo := bodyOpenLine; lineNo <= bodyCloseLine; lineNo++ {
 		srcLine := lines[lineNo-1]
 
-		if codeLine[bodyIdx] {
+		if codeLine[bodyIdx] && !literalLine[bodyIdx] {
 			fullIdx := lineNo - funcStartLine
 			insertText, cont := cb(fullIdx, srcLine)
 			if insertText != "" {
-- 
2.43.0


From fe16933db75b24c4b5a73f0ae7d5d40ee2253c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:40 +0000
Subject: [PATCH 42/50] fix: unchanged lines of functions with comments were
 mutated instead of the changed ones

The lines of the change bitmap are those of the printed definition, which has
no comments. They were taken for lines of the source file, so every line after
a comment of several lines in the function body was off.
---
 lens/mutation.go | 76 ++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 74 insertions(+), 2 deletions(-)

diff --git a/lens/mutation.go b/lens/mutation.go
index 74c6719..8cadb0f 100644
--- a/lens/mutation.go
+++ b/lens/mutation.go
@@ -2,6 +2,9 @@ package lens
 
 import (
 	"fmt"
+	"go/parser"
+	"go/scanner"
+	"go/token"
 	"log"
 	"os"
 	"path/filepath"
@@ -82,7 +85,8 @@ func RunMutationTesting(gopath, gomodcache, projectDir string, fastMutations, li
 			}
 		}()
 
-		errGrp := ErrGroupLimitCPU()
+		var mutationChanges []*ModuleFunction
+		var sourceBitmaps [][]bool // changed lines of mutationChanges, in lines of the source file
 		for _, change := range moduleChanges {
 			if len(change.LineChangeBitmap) == 0 {
 				return MutationResult{}, fmt.Errorf("bug: LineChangeBitmap not initialized: %s", change.FunctionIdent)
@@ -99,9 +103,20 @@ func RunMutationTesting(gopath, gomodcache, projectDir string, fastMutations, li
 			if !slices.Contains(mutationFiles, abs) {
 				mutationFiles = append(mutationFiles, abs)
 			}
+			bitmap, err := sourceLineChangeBitmap(change)
+			if err != nil {
+				return MutationResult{}, err
+			}
+			mutationChanges = append(mutationChanges, change)
+			sourceBitmaps = append(sourceBitmaps, bitmap)
+		}
+
+		errGrp := ErrGroupLimitCPU()
+		for i, change := range mutationChanges {
+			bitmap := sourceBitmaps[i]
 			errGrp.Go(func() error {
 				err := astEditor.InsertFuncLines(&change.Function, func(i int, line string) (string, bool) {
-					if i < len(change.LineChangeBitmap) && !change.LineChangeBitmap[i] {
+					if i < len(bitmap) && !bitmap[i] {
 						return "// mutator-disable-next-line *", true
 					}
 					return "", true
@@ -197,6 +212,63 @@ func RunMutationTesting(gopath, gomodcache, projectDir string, fastMutations, li
 	}, nil
 }
 
+// sourceLineChangeBitmap returns the LineChangeBitmap of the function for the lines of its source file. The lines of
+// Definition differ from those as it is printed without comments. Both are compared by their tokens.
+func sourceLineChangeBitmap(change *ModuleFunction) ([]bool, error) {
+	data, err := os.ReadFile(change.FilePath)
+	if err != nil {
+		return nil, fmt.Errorf("read failure %s: %w", change.FilePath, err)
+	}
+	fset := token.NewFileSet()
+	fileNode, err := parser.ParseFile(fset, change.FilePath, data, parser.ParseComments)
+	if err != nil {
+		return nil, fmt.Errorf("ast parse failure %s: %w", change.FilePath, err)
+	}
+	decl := findFuncDecl(fileNode, change.PackageName, change.FunctionIdent)
+	if decl == nil {
+		return nil, fmt.Errorf("function %s not found in %s", change.FunctionIdent, change.FilePath)
+	}
+
+	sourceLines := tokenLines(data[fset.Position(decl.Pos()).Offset:fset.Position(decl.End()).Offset])
+	definitionLines := tokenLines([]byte(change.Definition))
+	if len(sourceLines) != len(definitionLines) {
+		return change.LineChangeBitmap, nil // not the same code
+	}
+	var bitmap []bool
+	for i, sourceLine := range sourceLines {
+		for len(bitmap) <= sourceLine {
+			bitmap = append(bitmap, false)
+		}
+		if l := definitionLines[i]; l < len(change.LineChangeBitmap) && change.LineChangeBitmap[l] {
+			bitmap[sourceLine] = true
+		}
+	}
+	return bitmap, nil
+}
+
+// tokenLines returns the zero based lines of the code's tokens, with one entry for every line a token spans. Comments
+// are ignored, as is punctuation which may be added or removed when code is printed.
+func tokenLines(code []byte) []int {
+	fset := token.NewFileSet()
+	file := fset.AddFile("", fset.Base(), len(code))
+	var sc scanner.Scanner
+	sc.Init(file, code, nil, 0)
+	var lines []int
+	for {
+		pos, tok, lit := sc.Scan()
+		switch tok {
+		case token.EOF:
+			return lines
+		case token.SEMICOLON, token.COMMA, token.LPAREN, token.RPAREN:
+			continue
+		}
+		line := fset.Position(pos).Line - 1
+		for l := 0; l <= strings.Count(lit, "\n"); l++ {
+			lines = append(lines, line+l)
+		}
+	}
+}
+
 const scriptFinishCheck = `# go test exits with 1 both for failed tests and for packages which could not be built,
 # only a test binary that ran reports its package as failed after some time
 if [ "$GOMUTESTING_RESULT" -eq 1 ] && ! grep -qE $'^FAIL\t[^\t]+\t[0-9.]+s$' <<< "$GOMUTESTING_TEST"; then
-- 
2.43.0


From 8e763c1e27ead9f479a733fa78f43c41c85e6e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:14 +0000
Subject: [PATCH 43/50] fix: mutation testing left mutants and report.json
 behind, or removed the user's report.json

A mutant stayed in place when its exec script was killed. report.json was
removed after the result was returned, even when it was not written by the
mutation tool, and not at all when the mutation tool failed.
---
 lens/mutation.go | 63 ++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 53 insertions(+), 10 deletions(-)

diff --git a/lens/mutation.go b/lens/mutation.go
index 8cadb0f..17110f4 100644
--- a/lens/mutation.go
+++ b/lens/mutation.go
@@ -158,15 +158,33 @@ func RunMutationTesting(gopath, gomodcache, projectDir string, fastMutations, li
 	// Build the appropriate exec script
 	var execScript string
 	if runTargetedTests {
-		execScript, err = buildExecSelectTestsScript(fileToTests, patterns) // run targeted tests only for speed
+		execScript, err = buildExecSelectTestsScript(fileToTests, mutationFiles, patterns) // run targeted tests only for speed
 	} else {
-		execScript, err = buildExecAllTestsScript(patterns) // run all tests, but only mutate module changes
+		execScript, err = buildExecAllTestsScript(mutationFiles, patterns) // run all tests, but only mutate module changes
 	}
 	if err != nil {
 		return MutationResult{}, fmt.Errorf("error building mutation script: %w", err)
 	}
 	defer func() { _ = os.Remove(execScript) }()
 
+	// The exec script may be killed while the mutant is in place, its backup is moved back before other edits are undone
+	defer func() {
+		for _, mutationFile := range mutationFiles {
+			if backup := mutationFile + ".mbkp"; FileExists(backup) {
+				if err := os.Rename(backup, mutationFile); err != nil {
+					log.Printf("%sFailed to restore mutated file: %v", ErrorLogPrefix, err)
+				}
+			}
+		}
+	}()
+
+	// remove unnecessary report.json report (for now), keeping a file with the name which was there before
+	restoreReport, err := preserveFile(filepath.Join(projectDir, "report.json"))
+	if err != nil {
+		return MutationResult{}, err
+	}
+	defer restoreReport()
+
 	args := []string{"--exec", execScript, "--match", "^(" + strings.Join(mutationFunctions, "|") + ")$"}
 	args = append(args, mutationFiles...)
 	if fastMutations {
@@ -203,15 +221,33 @@ func RunMutationTesting(gopath, gomodcache, projectDir string, fastMutations, li
 	killed, _ := strconv.Atoi(m[1]) // go-mutesting passes a mutant when the tests failed for it
 	total, _ := strconv.Atoi(m[5])
 
-	// remove unnecessary report.json report (for now)
-	go func() { _ = os.Remove(filepath.Join(projectDir, "report.json")) }()
-
 	return MutationResult{
 		MutationCount: total,
 		SquashedCount: killed,
 	}, nil
 }
 
+// preserveFile returns a function which brings the file, or its absence, back to how it is now.
+func preserveFile(path string) (func(), error) {
+	info, err := os.Stat(path)
+	if os.IsNotExist(err) {
+		return func() { _ = os.Remove(path) }, nil
+	} else if err != nil {
+		return nil, err
+	} else if info.IsDir() {
+		return func() {}, nil
+	}
+	content, err := os.ReadFile(path)
+	if err != nil {
+		return nil, err
+	}
+	return func() {
+		if err := os.WriteFile(path, content, info.Mode().Perm()); err != nil {
+			log.Printf("%sFailed to restore %s: %v", ErrorLogPrefix, path, err)
+		}
+	}, nil
+}
+
 // sourceLineChangeBitmap returns the LineChangeBitmap of the function for the lines of its source file. The lines of
 // Definition differ from those as it is printed without comments. Both are compared by their tokens.
 func sourceLineChangeBitmap(change *ModuleFunction) ([]bool, error) {
@@ -269,6 +305,12 @@ func tokenLines(code []byte) []int {
 	}
 }
 
+// scriptRecover undoes a mutant that is still in place because the script which tested it was killed.
+const scriptRecover = `for f in "${FILES[@]}"; do
+	if [ -e "$f.mbkp" ]; then mv "$f.mbkp" "$f"; fi
+done
+`
+
 const scriptFinishCheck = `# go test exits with 1 both for failed tests and for packages which could not be built,
 # only a test binary that ran reports its package as failed after some time
 if [ "$GOMUTESTING_RESULT" -eq 1 ] && ! grep -qE $'^FAIL\t[^\t]+\t[0-9.]+s$' <<< "$GOMUTESTING_TEST"; then
@@ -313,7 +355,7 @@ func shellQuoteAll(words []string) string {
 	return strings.Join(quoted, " ")
 }
 
-func buildExecSelectTestsScript(fileToTests map[string][]string, packages []string) (string, error) {
+func buildExecSelectTestsScript(fileToTests map[string][]string, mutationFiles, packages []string) (string, error) {
 	file, err := os.CreateTemp("", "mutationexec-*.sh")
 	if err != nil {
 		return "", err
@@ -324,7 +366,7 @@ func buildExecSelectTestsScript(fileToTests map[string][]string, packages []stri
 `); err != nil {
 		return "", err
 	}
-	if _, err := fmt.Fprintf(file, "PKGS=(%s)\n", shellQuoteAll(packages)); err != nil {
+	if _, err := fmt.Fprintf(file, "PKGS=(%s)\nFILES=(%s)\n%s", shellQuoteAll(packages), shellQuoteAll(mutationFiles), scriptRecover); err != nil {
 		return "", err
 	}
 
@@ -386,10 +428,11 @@ export GOMUTESTING_RESULT=$?
 	return file.Name(), nil
 }
 
-func buildExecAllTestsScript(packages []string) (string, error) {
+func buildExecAllTestsScript(mutationFiles, packages []string) (string, error) {
 	const scriptTmpl = `#!/usr/bin/env bash
 PKGS=(%s)
-if [ -z ${MUTATE_CHANGED+x} ]; then echo "MUTATE_CHANGED is not set"; exit 1; fi
+FILES=(%s)
+%sif [ -z ${MUTATE_CHANGED+x} ]; then echo "MUTATE_CHANGED is not set"; exit 1; fi
 if [ -z ${MUTATE_ORIGINAL+x} ]; then echo "MUTATE_ORIGINAL is not set"; exit 1; fi
 if [ -z ${MUTATE_PACKAGE+x} ]; then echo "MUTATE_PACKAGE is not set"; exit 1; fi
 
@@ -412,7 +455,7 @@ export GOMUTESTING_RESULT=$?
 	file, err := os.CreateTemp("", "mutationexec-*.sh")
 	if err != nil {
 		return "", err
-	} else if _, err = fmt.Fprintf(file, scriptTmpl, shellQuoteAll(packages)); err != nil {
+	} else if _, err = fmt.Fprintf(file, scriptTmpl, shellQuoteAll(packages), shellQuoteAll(mutationFiles), scriptRecover); err != nil {
 		_ = file.Close()
 		return "", err
 	} else if err = file.Close(); err != nil {
-- 
2.43.0


From 92cae5b8b056f18df414fa0599209fd51ec8862d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:44 +0000
Subject: [PATCH 44/50] fix: reports of unreachable changes claimed that no
 function changed

---
 lens/engine.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lens/engine.go b/lens/engine.go
index 9b52faa..406208f 100644
--- a/lens/engine.go
+++ b/lens/engine.go
@@ -837,7 +837,7 @@ func (e *AnalysisEngine) Run() error {
 		log.Printf("Module changes are not reachable by project, exiting")
 		return e.ReportWriter.WriteReportFiles(e.Config.ReportJsonFile, e.Config.ReportChartsFile,
 			startTime, analysisEndTime.Sub(startTime), 0, 0, 0,
-			initialModules.changedModules, checkedModuleNames, 0, 0, 0,
+			initialModules.changedModules, checkedModuleNames, len(moduleChanges), 0, 0,
 			0, callingFunctions, nil,
 			0, 0, nil, MutationResult{})
 	}
-- 
2.43.0


From ae55a8577291ab0fc1eb49381073d1a339a60a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:14 +0000
Subject: [PATCH 45/50] fix: performance changes were reported in random order

---
 lens/report.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lens/report.go b/lens/report.go
index a6af4ee..6e09bd0 100644
--- a/lens/report.go
+++ b/lens/report.go
@@ -161,7 +161,8 @@ func PrepareReportData(changedModules []*ModuleChange, projectCallingFunctions [
 
 		// Collect performance changes
 		if len(tr.CallerTimeChanges) > 0 {
-			for callerIdent, timeChange := range tr.CallerTimeChanges {
+			for _, callerIdent := range slices.Sorted(maps.Keys(tr.CallerTimeChanges)) { // keep consistent order in report
+				timeChange := tr.CallerTimeChanges[callerIdent]
 				performanceChanges = append(performanceChanges, PerformanceChange{
 					TestFunctionIdent: tr.OriginalResult.TestFunction.FunctionIdent,
 					TestFunctionName:  tr.OriginalResult.TestFunction.FunctionName,
-- 
2.43.0


From fda90eea567e7c6bb16668c95b7a5230f1cfb64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:18 +0000
Subject: [PATCH 46/50] fix: charts showed the field changes of random callers

---
 lens/report.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lens/report.go b/lens/report.go
index 6e09bd0..5a955d7 100644
--- a/lens/report.go
+++ b/lens/report.go
@@ -646,7 +646,8 @@ func renderChartsToPainter(p *charts.Painter, moduleName, startVersion, changeVe
 
 			var lines int
 			var fieldChangeBuilder strings.Builder
-			for callerIdent, fieldMap := range tr.CallerFieldChanges {
+			for _, callerIdent := range slices.Sorted(maps.Keys(tr.CallerFieldChanges)) {
+				fieldMap := tr.CallerFieldChanges[callerIdent]
 				if lines > 1 {
 					fieldChangeBuilder.WriteString("\n(")
 					fieldChangeBuilder.WriteString(strconv.Itoa(len(tr.CallerFieldChanges) - lines))
-- 
2.43.0


From 45e01201dd312576fbb13f0ace17cd99614f5e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:21 +0000
Subject: [PATCH 47/50] fix: charts showed slowdowns as negative percentages

---
 lens/report.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lens/report.go b/lens/report.go
index 5a955d7..e1ea47d 100644
--- a/lens/report.go
+++ b/lens/report.go
@@ -623,7 +623,7 @@ func renderChartsToPainter(p *charts.Painter, moduleName, startVersion, changeVe
 		if totalPostTime <= totalPreTime { // improvement, ratio <= 1
 			return charts.FormatValueHumanize(100.0-(ratio*100.0), 1, false) + "% faster"
 		} else {
-			return charts.FormatValueHumanize((1-ratio)*100.0, 1, false) + "% slower"
+			return charts.FormatValueHumanize((ratio-1)*100.0, 1, false) + "% slower"
 		}
 	}
 	if err := down2.BarChart(down2Opt); err != nil {
-- 
2.43.0


From 1a069e82257e49e35986aba18215fa114eb929cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:25 +0000
Subject: [PATCH 48/50] fix: leaving out the chart file failed at the end of
 the analysis

---
 lens/report.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lens/report.go b/lens/report.go
index e1ea47d..201621d 100644
--- a/lens/report.go
+++ b/lens/report.go
@@ -364,6 +364,10 @@ func writeReportCharts(path string, moduleName, startVersion, changeVersion stri
 	moduleChangeFuncCount, reachableModuleFunctionCount, moduleChangesReachedInTesting, untrackedModuleFuncs,
 	testFieldSameCount, testFieldDiffCount int, testResults []TestReport,
 	globalMutations MutationResult) error {
+	if path == "" {
+		return nil
+	}
+
 	var outputType string
 	if strings.HasSuffix(path, ".png") {
 		outputType = charts.ChartOutputPNG
-- 
2.43.0


From 70e7168c95c54a7d915b62dce78f7dc844b96da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:29 +0000
Subject: [PATCH 49/50] fix: charts showed NaN% when there was nothing to
 measure

---
 lens/report.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/lens/report.go b/lens/report.go
index 201621d..e3f574e 100644
--- a/lens/report.go
+++ b/lens/report.go
@@ -16,6 +16,9 @@ import (
 
 const bottomTableMaxRecords = 10
 
+// label for charts of shares when there is nothing to take a share of
+const noValueStr = "N/A"
+
 // chart color constants
 var greenTextColor = charts.ColorGreenAlt3
 var orangeTextColor = charts.ColorOrangeAlt1.WithAdjustHSL(0, .2, 0)
@@ -511,6 +514,9 @@ func renderChartsToPainter(p *charts.Painter, moduleName, startVersion, changeVe
 	topLeftOpt.SeriesList[1].Label.FontStyle.FontColor = firstValueSeriesRankColor(topLeftOpt.Theme, topLeftOpt.SeriesList)
 	topLeftOpt.SeriesList[1].Label.ValueFormatter = func(f float64) string {
 		total := float64(moduleChangeFuncCount)
+		if total == 0 {
+			return noValueStr
+		}
 		return charts.FormatValueHumanize(100.0*(total-f)/total, 1, false) + "%"
 	}
 	if err := topLeft.BarChart(topLeftOpt); err != nil {
@@ -539,6 +545,9 @@ func renderChartsToPainter(p *charts.Painter, moduleName, startVersion, changeVe
 	topRightOpt.SeriesList[2].Label.FontStyle.FontColor = firstValueSeriesRankColor(topRightOpt.Theme, topRightOpt.SeriesList)
 	topRightOpt.SeriesList[2].Label.ValueFormatter = func(f float64) string {
 		total := float64(reachableModuleFunctionCount)
+		if total == 0 {
+			return noValueStr
+		}
 		return charts.FormatValueHumanize(100.0*(total-f)/total, 1, false) + "%"
 	}
 	if err := topRight.BarChart(topRightOpt); err != nil {
@@ -561,6 +570,9 @@ func renderChartsToPainter(p *charts.Painter, moduleName, startVersion, changeVe
 	down1LeftOpt.SeriesList[1].Label.FontStyle.FontColor = firstValueSeriesRankColor(down1LeftOpt.Theme, down1LeftOpt.SeriesList)
 	down1LeftOpt.SeriesList[1].Label.ValueFormatter = func(diff float64) string {
 		same := float64(testFieldSameCount)
+		if same+diff == 0 {
+			return noValueStr
+		}
 		percent := 100.0 * same / (same + diff)
 		if diff > 0 && percent > 99.9 {
 			percent = 99.9 // ensure we don't show 100% when there were some field diffs
@@ -585,6 +597,9 @@ func renderChartsToPainter(p *charts.Painter, moduleName, startVersion, changeVe
 	down1RightOpt.SeriesList[1].Label.FontStyle.FontColor = firstValueSeriesRankColor(down1RightOpt.Theme, down1RightOpt.SeriesList)
 	down1RightOpt.SeriesList[1].Label.ValueFormatter = func(f float64) string {
 		total := float64(globalMutations.MutationCount)
+		if total == 0 {
+			return noValueStr
+		}
 		percent := 100.0 * (total - f) / total
 		if f > 0 && percent > 99.9 {
 			percent = 99.9 // ensure we don't show 100% when there were some surviving mutations
-- 
2.43.0


From b784380dc6a8127df7dd981a2da3e9efe7beccb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:05 +0000
Subject: [PATCH 50/50] fix: charts cut names inside of characters

---
 lens/report.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lens/report.go b/lens/report.go
index e3f574e..a5bd9ca 100644
--- a/lens/report.go
+++ b/lens/report.go
@@ -678,8 +678,8 @@ func renderChartsToPainter(p *charts.Painter, moduleName, startVersion, changeVe
 				lines++
 
 				fieldChangeStr := callerIdent + "[" + strings.Join(slices.Sorted(maps.Keys(fieldMap)), "|") + "]"
-				if len(fieldChangeStr) > 66 {
-					fieldChangeStr = fieldChangeStr[:64] + ".."
+				if runes := []rune(fieldChangeStr); len(runes) > 66 {
+					fieldChangeStr = string(runes[:64]) + ".."
 				}
 				fieldChangeBuilder.WriteString(fieldChangeStr)
 			}
-- 
2.43.0

