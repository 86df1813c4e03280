From 4309a2812599b7ebf4a28004d064eafa7a692f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:27:47 +0000
Subject: [PATCH 1/7] fix: report read errors when parsing a capability map

A line longer than the scanner's buffer, or an error from the reader, ended
the scan early and the entries read so far were returned as if the file were
complete.
---
 interesting/interesting.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/interesting/interesting.go b/interesting/interesting.go
index 19770be..7289a84 100644
--- a/interesting/interesting.go
+++ b/interesting/interesting.go
@@ -115,6 +115,9 @@ func parseCapabilityMap(source string, r io.Reader) (*Classifier, error) {
 			return nil, fmt.Errorf("%v:%v: unsupported keyword %q", source, line, args[0])
 		}
 	}
+	if err := scanner.Err(); err != nil {
+		return nil, fmt.Errorf("%v:%v: %w", source, line, err)
+	}
 	return ret, nil
 }
 
-- 
2.43.0


From 2e870c806f9c07480bbc78401063c93c399558e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:27:47 +0000
Subject: [PATCH 2/7] fix: use the classifier's own ignored edges in
 IncludeCall

ignore_edge lines in a user-supplied capability map had no effect, and the
builtin ones applied even when builtins were excluded.
---
 interesting/interesting.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interesting/interesting.go b/interesting/interesting.go
index 7289a84..e5f3d42 100644
--- a/interesting/interesting.go
+++ b/interesting/interesting.go
@@ -186,7 +186,7 @@ func LoadClassifier(source string, r io.Reader, excludeBuiltin bool) (*Classifie
 func (c *Classifier) IncludeCall(edge *callgraph.Edge) bool {
 	caller := edge.Caller.Func.String()
 	callee := edge.Callee.Func.String()
-	_, ok := internalMap.ignoredEdges[[2]string{caller, callee}]
+	_, ok := c.ignoredEdges[[2]string{caller, callee}]
 	return !ok
 }
 
-- 
2.43.0


From 041c55ab30efc370f48db6ddfb5aacd0feaca074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:27:47 +0000
Subject: [PATCH 3/7] fix: exclude func and package entries with
 CAPABILITY_UNANALYZED

ClassifierExcludingUnanalyzed only dropped the "unanalyzed" entries, so a
"func" or "package" entry could still yield CAPABILITY_UNANALYZED.
---
 interesting/interesting.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/interesting/interesting.go b/interesting/interesting.go
index e5f3d42..c222b2f 100644
--- a/interesting/interesting.go
+++ b/interesting/interesting.go
@@ -144,6 +144,14 @@ func DefaultClassifier() *Classifier {
 func ClassifierExcludingUnanalyzed(classifier *Classifier) *Classifier {
 	withoutUnanalyzed := *classifier
 	withoutUnanalyzed.unanalyzedCategory = nil
+	// Entries of other kinds can also specify CAPABILITY_UNANALYZED.
+	isUnanalyzed := func(_ string, c cpb.Capability) bool {
+		return c == cpb.Capability_CAPABILITY_UNANALYZED
+	}
+	withoutUnanalyzed.functionCategory = maps.Clone(classifier.functionCategory)
+	maps.DeleteFunc(withoutUnanalyzed.functionCategory, isUnanalyzed)
+	withoutUnanalyzed.packageCategory = maps.Clone(classifier.packageCategory)
+	maps.DeleteFunc(withoutUnanalyzed.packageCategory, isUnanalyzed)
 	return &withoutUnanalyzed
 }
 
-- 
2.43.0


From 3dbaa87087f4acfb885ff8813d7a42edc8d223a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:27:47 +0000
Subject: [PATCH 4/7] fix: let a user's unanalyzed entry override a builtin
 func entry

---
 interesting/interesting.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/interesting/interesting.go b/interesting/interesting.go
index c222b2f..5e53f4b 100644
--- a/interesting/interesting.go
+++ b/interesting/interesting.go
@@ -181,6 +181,11 @@ func LoadClassifier(source string, r io.Reader, excludeBuiltin bool) (*Classifie
 		dst.cgoSuffixes = append(dst.cgoSuffixes, src.cgoSuffixes...)
 	}
 	cc(ret, internalMap)
+	// Function entries take precedence over unanalyzed entries, so remove any
+	// builtin ones that the user's unanalyzed entries should override.
+	for name := range userClassifier.unanalyzedCategory {
+		delete(ret.functionCategory, name)
+	}
 	cc(ret, userClassifier)
 	sort.Strings(ret.cgoSuffixes)
 	ret.cgoSuffixes = slices.Compact(ret.cgoSuffixes) // remove duplicates
-- 
2.43.0


From 99d493ba1517cd4052d8e1d734be05f0d8ae7a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:27:47 +0000
Subject: [PATCH 5/7] fix: keep calls to sort.Slice whose slice argument has
 side effects

The call was replaced with a call to its function argument, which removed
any call made while evaluating the slice argument from the call graph.
---
 analyzer/util.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/analyzer/util.go b/analyzer/util.go
index 836da8f..888dfd9 100644
--- a/analyzer/util.go
+++ b/analyzer/util.go
@@ -283,6 +283,13 @@ func (m *packageFunctionMatcher) match(typeInfo *types.Info, call *ast.CallExpr)
 		// The function call doesn't have enough arguments.
 		return nil
 	}
+	for i, arg := range call.Args {
+		if i != m.functionTypedParameterIndex && mayHaveSideEffects(arg) {
+			// The other arguments will be deleted, so we can't rewrite a call like
+			// sort.Slice(foo(), bar) or the analysis would not see the call to foo.
+			return nil
+		}
+	}
 	return call.Args[m.functionTypedParameterIndex]
 }
 
-- 
2.43.0


From 84ef3d9b2030a9eb4927f58ccbaec49ea1b60dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:31:01 +0000
Subject: [PATCH 6/7] fix: escape backslashes in graph output

A node name containing a backslash produced a malformed or ambiguous quoted
string.
---
 analyzer/graph.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/analyzer/graph.go b/analyzer/graph.go
index e3de0da..b9bd232 100644
--- a/analyzer/graph.go
+++ b/analyzer/graph.go
@@ -123,12 +123,17 @@ func (gb *graphBuilder) Edge(from, to interface{}) {
 	}
 	gb.Write([]byte("\t"))
 	gb.Write([]byte(`"`))
-	gb.Write([]byte(strings.ReplaceAll(gb.nodeNamer(from), `"`, `\"`)))
+	gb.Write([]byte(escape(gb.nodeNamer(from))))
 	gb.Write([]byte(`" -> "`))
-	gb.Write([]byte(strings.ReplaceAll(gb.nodeNamer(to), `"`, `\"`)))
+	gb.Write([]byte(escape(gb.nodeNamer(to))))
 	gb.Write([]byte("\"\n"))
 }
 
+// escape returns s with any backslashes and double quotes escaped.
+func escape(s string) string {
+	return strings.ReplaceAll(strings.ReplaceAll(s, `\`, `\\`), `"`, `\"`)
+}
+
 func (gb *graphBuilder) Done() {
 	if gb.done {
 		panic("done")
-- 
2.43.0


From 9ed0e29e4238005ec2971af93ed463e29bc68ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:34:45 +0000
Subject: [PATCH 7/7] fix: compare intermediate packages when call paths are
 omitted

With -omit_paths there were no keys to compare, so no difference was ever
found.
---
 analyzer/compare.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/analyzer/compare.go b/analyzer/compare.go
index 2cc3c9e..fe1e40d 100644
--- a/analyzer/compare.go
+++ b/analyzer/compare.go
@@ -87,6 +87,11 @@ func populateMap(cil *cpb.CapabilityInfoList, g Granularity) capabilitiesMap {
 				m[mk] = ci
 			}
 		case GranularityIntermediate:
+			// Call paths can be omitted, so don't rely on ci.Path alone.
+			mk.key = ci.GetPackageDir()
+			if mk.key != "" {
+				m[mk] = ci
+			}
 			for _, f := range ci.Path {
 				mk.key = f.GetPackage()
 				if mk.key != "" {
-- 
2.43.0

