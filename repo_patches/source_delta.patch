From d2d86d1617227c73b34e6ef21ab6ff307a022057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:59:23 +0000
Subject: [PATCH 01/23] fix: analyze methods of unexported and generic types of
 the queried packages

ssautil.AllFunctions leaves out the methods of generic types, and the methods
of unexported types that nothing in the program refers to.  Such methods can
still be called by users of a package, for example on the value returned by
an exported constructor, but no capabilities were reported for them.
---
 analyzer/util.go | 46 ++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 46 insertions(+)

diff --git a/analyzer/util.go b/analyzer/util.go
index 836da8f..26b8cce 100644
--- a/analyzer/util.go
+++ b/analyzer/util.go
@@ -205,10 +205,56 @@ func buildGraph(pkgs []*packages.Package, populateSyntax bool) (*callgraph.Graph
 	ssaProg, _ := ssautil.AllPackages(pkgs, ssaBuilderMode)
 	ssaProg.Build()
 	allFunctions := ssautil.AllFunctions(ssaProg)
+	addDeclaredMethods(ssaProg, pkgs, allFunctions)
 	graph := vta.CallGraph(allFunctions, nil)
 	return graph, ssaProg, allFunctions
 }
 
+// addDeclaredMethods adds to allFunctions the methods declared in pkgs that
+// ssautil.AllFunctions leaves out, and the functions they refer to.
+//
+// ssautil.AllFunctions does not include the methods of generic types, or the
+// methods of unexported types when nothing in the program refers to them.  A
+// user of the package could still call such a method, for example on a value
+// returned by an exported function.
+func addDeclaredMethods(ssaProg *ssa.Program, pkgs []*packages.Package, allFunctions map[*ssa.Function]bool) {
+	var add func(fn *ssa.Function)
+	add = func(fn *ssa.Function) {
+		if fn == nil || allFunctions[fn] {
+			return
+		}
+		allFunctions[fn] = true
+		for _, b := range fn.Blocks {
+			for _, instr := range b.Instrs {
+				for _, op := range instr.Operands(nil) {
+					if f, ok := (*op).(*ssa.Function); ok {
+						add(f)
+					}
+				}
+			}
+		}
+	}
+	for _, p := range pkgs {
+		if p.Types == nil {
+			continue
+		}
+		scope := p.Types.Scope()
+		for _, name := range scope.Names() {
+			tn, ok := scope.Lookup(name).(*types.TypeName)
+			if !ok || tn.IsAlias() {
+				continue
+			}
+			named, ok := tn.Type().(*types.Named)
+			if !ok {
+				continue
+			}
+			for i := 0; i < named.NumMethods(); i++ {
+				add(ssaProg.FuncValue(named.Method(i)))
+			}
+		}
+	}
+}
+
 // functionsToRewrite lists the functions and methods like (*sync.Once).Do that
 // rewriteCallsToOnceDoEtc will rewrite to calls to their arguments.
 var functionsToRewrite = []matcher{
-- 
2.43.0


From 9524413fcb467c00871cdd74ae85174987684ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:59:24 +0000
Subject: [PATCH 02/23] fix: use the classifier's own ignored edges

IncludeCall consulted the builtin map whatever the classifier, so ignore_edge
lines in a custom capability map had no effect, and the builtin ignored edges
stayed in force when the builtin map was disabled.
---
 interesting/interesting.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interesting/interesting.go b/interesting/interesting.go
index 19770be..5be9707 100644
--- a/interesting/interesting.go
+++ b/interesting/interesting.go
@@ -183,7 +183,7 @@ func LoadClassifier(source string, r io.Reader, excludeBuiltin bool) (*Classifie
 func (c *Classifier) IncludeCall(edge *callgraph.Edge) bool {
 	caller := edge.Caller.Func.String()
 	callee := edge.Callee.Func.String()
-	_, ok := internalMap.ignoredEdges[[2]string{caller, callee}]
+	_, ok := c.ignoredEdges[[2]string{caller, callee}]
 	return !ok
 }
 
-- 
2.43.0


From 96ec5d455c80492c0911851accfef48ff1c96290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:59:25 +0000
Subject: [PATCH 03/23] fix: report read errors when parsing a capability map

A read error, or a line longer than the scanner's limit, ended parsing early
and the rest of the map was silently ignored.
---
 interesting/interesting.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/interesting/interesting.go b/interesting/interesting.go
index 5be9707..00437bb 100644
--- a/interesting/interesting.go
+++ b/interesting/interesting.go
@@ -115,6 +115,9 @@ func parseCapabilityMap(source string, r io.Reader) (*Classifier, error) {
 			return nil, fmt.Errorf("%v:%v: unsupported keyword %q", source, line, args[0])
 		}
 	}
+	if err := scanner.Err(); err != nil {
+		return nil, fmt.Errorf("%v:%v: %w", source, line+1, err)
+	}
 	return ret, nil
 }
 
-- 
2.43.0


From 337275a57b68460c0df643d68c358cfceab21340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:59:26 +0000
Subject: [PATCH 04/23] fix: exclude all UNANALYZED entries from
 ClassifierExcludingUnanalyzed

The returned classifier still answered CAPABILITY_UNANALYZED for functions and
packages given that capability by a "func" or "package" line.
---
 interesting/interesting.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/interesting/interesting.go b/interesting/interesting.go
index 00437bb..978e1a6 100644
--- a/interesting/interesting.go
+++ b/interesting/interesting.go
@@ -144,6 +144,13 @@ func DefaultClassifier() *Classifier {
 func ClassifierExcludingUnanalyzed(classifier *Classifier) *Classifier {
 	withoutUnanalyzed := *classifier
 	withoutUnanalyzed.unanalyzedCategory = nil
+	isUnanalyzed := func(_ string, c cpb.Capability) bool {
+		return c == cpb.Capability_CAPABILITY_UNANALYZED
+	}
+	withoutUnanalyzed.functionCategory = maps.Clone(classifier.functionCategory)
+	maps.DeleteFunc(withoutUnanalyzed.functionCategory, isUnanalyzed)
+	withoutUnanalyzed.packageCategory = maps.Clone(classifier.packageCategory)
+	maps.DeleteFunc(withoutUnanalyzed.packageCategory, isUnanalyzed)
 	return &withoutUnanalyzed
 }
 
-- 
2.43.0


From 6440d4b7e25f69f4aa816ec00ccb7ceaf3146f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:59:27 +0000
Subject: [PATCH 05/23] fix: do not lose calls in the arguments of rewritten
 calls to sort.Slice

A statement like sort.Slice(f(), less) was replaced by a call to less alone,
so capabilities reached through f were not reported for the caller.
---
 analyzer/util.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/analyzer/util.go b/analyzer/util.go
index 26b8cce..7d680e9 100644
--- a/analyzer/util.go
+++ b/analyzer/util.go
@@ -329,6 +329,14 @@ func (m *packageFunctionMatcher) match(typeInfo *types.Info, call *ast.CallExpr)
 		// The function call doesn't have enough arguments.
 		return nil
 	}
+	for i, arg := range call.Args {
+		if i != m.functionTypedParameterIndex && mayHaveSideEffects(arg) {
+			// The call may be something like sort.Slice(foo(), less), which we can't
+			// rewrite to a call to less because then the analysis would not see the
+			// call to foo.
+			return nil
+		}
+	}
 	return call.Args[m.functionTypedParameterIndex]
 }
 
-- 
2.43.0


From 4df0ccd1a2ed82b5734086430cead22091494c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:59:28 +0000
Subject: [PATCH 06/23] fix: escape backslashes in graph output

Function names can contain backslashes, e.g. when a type argument is a struct
type with a field tag.  Escaping only the quotes produced a malformed graph.
---
 analyzer/graph.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/analyzer/graph.go b/analyzer/graph.go
index e3de0da..0a0974c 100644
--- a/analyzer/graph.go
+++ b/analyzer/graph.go
@@ -102,6 +102,9 @@ func graphOutput(pkgs []*packages.Package, queriedPackages map[*types.Package]st
 	return w.Flush()
 }
 
+// dotEscaper escapes characters that are special in a quoted DOT identifier.
+var dotEscaper = strings.NewReplacer(`\`, `\\`, `"`, `\"`)
+
 type graphBuilder struct {
 	io.Writer
 	nodeNamer func(any) string
@@ -123,9 +126,9 @@ func (gb *graphBuilder) Edge(from, to interface{}) {
 	}
 	gb.Write([]byte("\t"))
 	gb.Write([]byte(`"`))
-	gb.Write([]byte(strings.ReplaceAll(gb.nodeNamer(from), `"`, `\"`)))
+	gb.Write([]byte(dotEscaper.Replace(gb.nodeNamer(from))))
 	gb.Write([]byte(`" -> "`))
-	gb.Write([]byte(strings.ReplaceAll(gb.nodeNamer(to), `"`, `\"`)))
+	gb.Write([]byte(dotEscaper.Replace(gb.nodeNamer(to))))
 	gb.Write([]byte("\"\n"))
 }
 
-- 
2.43.0


From 0671df4453b1db17e6c649e24ca52e10ad5785d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:59:29 +0000
Subject: [PATCH 07/23] fix: return write errors for json and machine output

A failure to write the report was ignored and the exit status was 0.
---
 analyzer/scan.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/analyzer/scan.go b/analyzer/scan.go
index d603b75..2147e13 100644
--- a/analyzer/scan.go
+++ b/analyzer/scan.go
@@ -57,8 +57,8 @@ func RunCapslock(args []string, output string, pkgs []*packages.Package, queried
 		if err != nil {
 			return fmt.Errorf("internal error: couldn't marshal protocol buffer: %s", err.Error())
 		}
-		fmt.Println(string(b))
-		return nil
+		_, err = fmt.Println(string(b))
+		return err
 	} else if output == "m" || output == "machine" {
 		var cs []string
 		cil := GetCapabilityCounts(pkgs, queriedPackages, config)
@@ -67,7 +67,9 @@ func RunCapslock(args []string, output string, pkgs []*packages.Package, queried
 		}
 		sort.Strings(cs)
 		for _, c := range cs {
-			fmt.Println(c)
+			if _, err := fmt.Println(c); err != nil {
+				return err
+			}
 		}
 		return nil
 	} else if output == "v" || output == "verbose" {
-- 
2.43.0


From b117b809940d691bf64b781edbaa2c0a17c6ddba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:59:30 +0000
Subject: [PATCH 08/23] fix: compare at intermediate granularity when paths are
 omitted

The comparison only looked at the packages in call paths, so with -omit_paths
no difference was ever found.
---
 analyzer/compare.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/analyzer/compare.go b/analyzer/compare.go
index 2cc3c9e..dd3b6e2 100644
--- a/analyzer/compare.go
+++ b/analyzer/compare.go
@@ -87,6 +87,10 @@ func populateMap(cil *cpb.CapabilityInfoList, g Granularity) capabilitiesMap {
 				m[mk] = ci
 			}
 		case GranularityIntermediate:
+			// There is no path if the list was created with paths omitted.
+			if mk.key = ci.GetPackageDir(); mk.key != "" {
+				m[mk] = ci
+			}
 			for _, f := range ci.Path {
 				mk.key = f.GetPackage()
 				if mk.key != "" {
-- 
2.43.0


From 43402604b4c433e0e4ff97bece205006da340c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:59:31 +0000
Subject: [PATCH 09/23] fix: remove the temporary clones made by
 capslock-git-diff

---
 cmd/capslock-git-diff/main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/capslock-git-diff/main.go b/cmd/capslock-git-diff/main.go
index d2189e4..5333398 100644
--- a/cmd/capslock-git-diff/main.go
+++ b/cmd/capslock-git-diff/main.go
@@ -92,6 +92,7 @@ func AnalyzeAtRevision(rev, pkgname string) (cil *cpb.CapabilityInfoList, err er
 	if err != nil {
 		return nil, fmt.Errorf("creating temporary directory: %w", err)
 	}
+	defer os.RemoveAll(tmpdir)
 	// Get the location of the .git directory, so we can make a temporary clone.
 	var b bytes.Buffer
 	if err = run(&b, "git", "rev-parse", "--git-dir"); err != nil {
-- 
2.43.0


From f179f62a64641fa00050f94efc209e6762962fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:01:54 +0000
Subject: [PATCH 10/23] fix: find conversions of unsafe.Pointer values of type
 parameter type

In func f[P ~unsafe.Pointer](p P) *int { return (*int)(p) } the type of p is a
type parameter, so the conversion was not recognized.
---
 analyzer/util.go | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/analyzer/util.go b/analyzer/util.go
index 7d680e9..8d8c88d 100644
--- a/analyzer/util.go
+++ b/analyzer/util.go
@@ -500,6 +500,28 @@ func containsReflectValue(t types.Type) bool {
 	return rec(t)
 }
 
+// isUnsafePointer returns true if t is equivalent to unsafe.Pointer, or is a
+// type parameter whose type set explicitly includes such a type.
+func isUnsafePointer(t types.Type) bool {
+	switch u := t.Underlying().(type) {
+	case *types.Basic:
+		return u.Kind() == types.UnsafePointer
+	case *types.Union:
+		for i := 0; i < u.Len(); i++ {
+			if isUnsafePointer(u.Term(i).Type()) {
+				return true
+			}
+		}
+	case *types.Interface:
+		for i := 0; i < u.NumEmbeddeds(); i++ {
+			if isUnsafePointer(u.EmbeddedType(i)) {
+				return true
+			}
+		}
+	}
+	return false
+}
+
 func (v *visitor) Visit(node ast.Node) ast.Visitor {
 	if node == nil {
 		return v // the return value is ignored if node == nil.
@@ -539,7 +561,7 @@ func (v *visitor) Visit(node ast.Node) ast.Visitor {
 			// The argument has no type information.
 			break
 		}
-		if b, ok := argType.Underlying().(*types.Basic); !ok || b.Kind() != types.UnsafePointer {
+		if !isUnsafePointer(argType) {
 			// The argument's type is not equivalent to unsafe.Pointer.
 			break
 		}
-- 
2.43.0


From ebacd3e6067df8054bfcb3020d0caf82253b8954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:01:55 +0000
Subject: [PATCH 11/23] fix: do not list standard library packages of other
 platforms

The set of standard library packages was determined for the host platform, so
with -goos=windows the report listed packages like internal/syscall/windows.
---
 analyzer/load.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/analyzer/load.go b/analyzer/load.go
index 5f30575..5215051 100644
--- a/analyzer/load.go
+++ b/analyzer/load.go
@@ -10,6 +10,7 @@ import (
 	"go/types"
 	"os"
 	"path"
+	"path/filepath"
 	"sort"
 	"sync"
 
@@ -21,6 +22,7 @@ import (
 var (
 	standardLibraryPackagesOnce sync.Once
 	standardLibraryPackagesMap  map[string]struct{}
+	standardLibraryDirectory    string
 )
 
 // LoadConfig specifies the build tags, GOOS value, and GOARCH value to use
@@ -85,6 +87,9 @@ func standardLibraryPackages() map[string]struct{} {
 		standardLibraryPackagesMap = make(map[string]struct{})
 		for _, p := range pkgs {
 			standardLibraryPackagesMap[p.PkgPath] = struct{}{}
+			if p.PkgPath == "runtime" && len(p.GoFiles) > 0 {
+				standardLibraryDirectory = filepath.Dir(filepath.Dir(p.GoFiles[0]))
+			}
 		}
 	})
 	return standardLibraryPackagesMap
@@ -129,6 +134,11 @@ func collectPackageInfo(pkgs []*packages.Package) []*cpb.PackageInfo {
 			// Skip this package since it is part of the Go standard library.
 			return
 		}
+		if len(pkg.GoFiles) > 0 && filepath.Dir(pkg.GoFiles[0]) == filepath.Join(standardLibraryDirectory, filepath.FromSlash(pkg.PkgPath)) {
+			// This is also part of the standard library, but only for the GOOS and
+			// GOARCH values used to load pkgs.
+			return
+		}
 		pi := new(cpb.PackageInfo)
 		pi.Path = proto.String(pkg.PkgPath)
 		for _, i := range pkg.IgnoredFiles {
-- 
2.43.0


From a981b80d9c062919faf1ac06506f3f663da29ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:03:15 +0000
Subject: [PATCH 12/23] fix: do not modify the caller's Config

GetCapabilityInfo and the compare output mode stored their default granularity
in the Config passed to them.  The defaults differ, so the result of a later
call with the same Config depended on which of them was used first.
---
 analyzer/analyzer.go | 4 +++-
 analyzer/compare.go  | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/analyzer/analyzer.go b/analyzer/analyzer.go
index 6e24058..e8c55f2 100644
--- a/analyzer/analyzer.go
+++ b/analyzer/analyzer.go
@@ -84,7 +84,9 @@ func GetClassifier(excludeUnanalyzed bool) *interesting.Classifier {
 //     in pkgs to a function with a capability.
 func GetCapabilityInfo(pkgs []*packages.Package, queriedPackages map[*types.Package]struct{}, config *Config) *cpb.CapabilityInfoList {
 	if config.Granularity == GranularityUnset {
-		config.Granularity = GranularityFunction
+		c := *config
+		c.Granularity = GranularityFunction
+		config = &c
 	}
 	if config.Granularity == GranularityIntermediate {
 		return intermediatePackages(pkgs, queriedPackages, config)
diff --git a/analyzer/compare.go b/analyzer/compare.go
index dd3b6e2..0478031 100644
--- a/analyzer/compare.go
+++ b/analyzer/compare.go
@@ -45,7 +45,9 @@ func GranularityFromString(g string) (Granularity, error) {
 
 func compare(baselineFilename string, pkgs []*packages.Package, queriedPackages map[*types.Package]struct{}, config *Config) (different bool, err error) {
 	if config.Granularity == GranularityUnset {
-		config.Granularity = GranularityPackage
+		c := *config
+		c.Granularity = GranularityPackage
+		config = &c
 	}
 	compareData, err := os.ReadFile(baselineFilename)
 	if err != nil {
-- 
2.43.0


From 016e098615524b4fde3d6f7406227e60a3dd6c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:03:54 +0000
Subject: [PATCH 13/23] fix: resolve revisions in the original repository

capslock-git-diff looked up the revision names in its temporary clone, where
they can mean something else.  For example, origin/main in the clone is the
main branch of the original repository, so comparing origin/main with main
never found a difference.
---
 cmd/capslock-git-diff/main.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/cmd/capslock-git-diff/main.go b/cmd/capslock-git-diff/main.go
index 5333398..a70cfe7 100644
--- a/cmd/capslock-git-diff/main.go
+++ b/cmd/capslock-git-diff/main.go
@@ -108,6 +108,14 @@ func AnalyzeAtRevision(rev, pkgname string) (cil *cpb.CapabilityInfoList, err er
 	prefix := strings.TrimSuffix(b.String(), "\n")
 	vlog("current path in repository: %q", prefix)
 	b.Reset()
+	// Find which commit rev refers to.  The name can mean something else in the
+	// clone; for example, origin/main there is this repository's main branch.
+	if err = run(&b, "git", "rev-parse", "--verify", "--end-of-options", rev+"^{commit}"); err != nil {
+		return nil, err
+	}
+	commit := strings.TrimSuffix(b.String(), "\n")
+	vlog("commit: %q", commit)
+	b.Reset()
 	// Clone the repo.
 	if err = run(nil, "git", "clone", "--shared", "--no-checkout", "--", gitdir, tmpdir); err != nil {
 		return nil, err
@@ -130,7 +138,7 @@ func AnalyzeAtRevision(rev, pkgname string) (cil *cpb.CapabilityInfoList, err er
 	}
 	vlog("switched to directory %q", tmpdir)
 	// Checkout the revision.
-	if err = run(nil, "git", "checkout", rev, "--"); err != nil {
+	if err = run(nil, "git", "checkout", commit, "--"); err != nil {
 		return nil, err
 	}
 	// Go to the same directory in the clone.
-- 
2.43.0


From 3eddd52e352ffce70c8d462b749cb22613816236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:03:59 +0000
Subject: [PATCH 14/23] fix: do not modify the repository when git environment
 variables are set

Git sets variables like GIT_DIR and GIT_INDEX_FILE when it runs a hook.
capslock-git-diff passed them on to the commands it runs in its temporary
clone, so git checkout changed the index and HEAD of the original repository.
---
 cmd/capslock-git-diff/main.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cmd/capslock-git-diff/main.go b/cmd/capslock-git-diff/main.go
index a70cfe7..d91951b 100644
--- a/cmd/capslock-git-diff/main.go
+++ b/cmd/capslock-git-diff/main.go
@@ -116,6 +116,14 @@ func AnalyzeAtRevision(rev, pkgname string) (cil *cpb.CapabilityInfoList, err er
 	commit := strings.TrimSuffix(b.String(), "\n")
 	vlog("commit: %q", commit)
 	b.Reset()
+	// If these variables are set, for example because we were run by a git hook,
+	// they would cause the commands below to modify the original repository.
+	for _, v := range []string{"GIT_DIR", "GIT_WORK_TREE", "GIT_INDEX_FILE", "GIT_COMMON_DIR"} {
+		if old, ok := os.LookupEnv(v); ok {
+			os.Unsetenv(v)
+			defer os.Setenv(v, old)
+		}
+	}
 	// Clone the repo.
 	if err = run(nil, "git", "clone", "--shared", "--no-checkout", "--", gitdir, tmpdir); err != nil {
 		return nil, err
-- 
2.43.0


From 9433367a4fe7213ca25e833f0fb4e8ad185a5f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:22:51 +0000
Subject: [PATCH 15/23] fix: build packages in a fixed order

Identical types can have different names: os.DirEntry is an alias for
io/fs.DirEntry.  The name of an instance of a generic function uses the
name that was seen first.  Packages were built concurrently, so reports
for the same packages could name the same function differently.
---
 analyzer/util.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/analyzer/util.go b/analyzer/util.go
index 8d8c88d..0b892ab 100644
--- a/analyzer/util.go
+++ b/analyzer/util.go
@@ -12,6 +12,7 @@ import (
 	"go/types"
 	"os"
 	"path"
+	"sort"
 	"strings"
 
 	cpb "github.com/google/capslock/proto"
@@ -203,7 +204,17 @@ func buildGraph(pkgs []*packages.Package, populateSyntax bool) (*callgraph.Graph
 		ssaBuilderMode |= ssa.GlobalDebug
 	}
 	ssaProg, _ := ssautil.AllPackages(pkgs, ssaBuilderMode)
-	ssaProg.Build()
+	// Build the packages in a fixed order, one at a time.  The name of an
+	// instance of a generic function can depend on which package was built first,
+	// because identical types can have different names, such as io/fs.DirEntry
+	// and os.DirEntry.
+	ssaPkgs := ssaProg.AllPackages()
+	sort.Slice(ssaPkgs, func(i, j int) bool {
+		return ssaPkgs[i].Pkg.Path() < ssaPkgs[j].Pkg.Path()
+	})
+	for _, p := range ssaPkgs {
+		p.Build()
+	}
 	allFunctions := ssautil.AllFunctions(ssaProg)
 	addDeclaredMethods(ssaProg, pkgs, allFunctions)
 	graph := vta.CallGraph(allFunctions, nil)
-- 
2.43.0


From 1680aa0e0f2896676c4cec7f534781d1b7ff0908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:23:54 +0000
Subject: [PATCH 16/23] fix: order functions with the same name by the calls to
 them

Distinct functions can have the same name.  The search for call paths
visited such functions in a random order, so reports for the same packages
could contain different paths.
---
 analyzer/util.go | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/analyzer/util.go b/analyzer/util.go
index 0b892ab..64bdb22 100644
--- a/analyzer/util.go
+++ b/analyzer/util.go
@@ -12,6 +12,7 @@ import (
 	"go/types"
 	"os"
 	"path"
+	"slices"
 	"sort"
 	"strings"
 
@@ -96,8 +97,34 @@ func (s byCallee) Swap(i, j int) {
 	s[i], s[j] = s[j], s[i]
 }
 
+// nodeCompare orders by function, using the order defined by funcCompare, then
+// by the calls to the function.  Distinct functions can have the same name; for
+// example there is one function named "(*T).M$bound" for each place where the
+// method value M is used.
 func nodeCompare(a, b *callgraph.Node) int {
-	return funcCompare(a.Func, b.Func)
+	if c := funcCompare(a.Func, b.Func); c != 0 || a == b {
+		return c
+	}
+	return slices.CompareFunc(sortedCalls(a), sortedCalls(b), compareCalls)
+}
+
+// sortedCalls returns the edges that lead to v, in a deterministic order.
+func sortedCalls(v *callgraph.Node) []*callgraph.Edge {
+	return slices.SortedFunc(slices.Values(v.In), compareCalls)
+}
+
+// compareCalls orders by caller, then by callsite position.
+func compareCalls(a, b *callgraph.Edge) int {
+	if c := funcCompare(a.Caller.Func, b.Caller.Func); c != 0 {
+		return c
+	}
+	ap, bp := callsitePosition(a), callsitePosition(b)
+	if positionLess(ap, bp) {
+		return -1
+	} else if positionLess(bp, ap) {
+		return +1
+	}
+	return 0
 }
 
 // funcCompare orders by package path, then by whether the function is a
-- 
2.43.0


From 882cdf19824de87dda7dee2a4cc27f4532ed67e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:29:12 +0000
Subject: [PATCH 17/23] fix: categorise (*os.File).WriteTo as a file operation

The method was only covered by the entry for package os, so that copying
from a file with it was reported as OPERATING_SYSTEM and not as FILES.
---
 interesting/interesting.cm | 1 +
 1 file changed, 1 insertion(+)

diff --git a/interesting/interesting.cm b/interesting/interesting.cm
index abe70c4..8a6ba07 100644
--- a/interesting/interesting.cm
+++ b/interesting/interesting.cm
@@ -347,6 +347,7 @@ func (*os.File).Truncate CAPABILITY_FILES
 func (*os.File).Write CAPABILITY_FILES
 func (*os.File).WriteAt CAPABILITY_FILES
 func (*os.File).WriteString CAPABILITY_FILES
+func (*os.File).WriteTo CAPABILITY_FILES
 func (*os.LinkError).Error CAPABILITY_SAFE
 func (*os.LinkError).Unwrap CAPABILITY_SAFE
 func (*os.ProcessState).ExitCode CAPABILITY_SAFE
-- 
2.43.0


From 786e6097c710b8cc4ef9d991ecee336f0c1136fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:05:41 +0000
Subject: [PATCH 18/23] fix: allow revisions of the form ":/text"

Appending "^{commit}" to such a revision makes it part of the text that is
searched for.  The commit was therefore not found.
---
 cmd/capslock-git-diff/main.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cmd/capslock-git-diff/main.go b/cmd/capslock-git-diff/main.go
index d91951b..0fb5d26 100644
--- a/cmd/capslock-git-diff/main.go
+++ b/cmd/capslock-git-diff/main.go
@@ -110,7 +110,13 @@ func AnalyzeAtRevision(rev, pkgname string) (cil *cpb.CapabilityInfoList, err er
 	b.Reset()
 	// Find which commit rev refers to.  The name can mean something else in the
 	// clone; for example, origin/main there is this repository's main branch.
-	if err = run(&b, "git", "rev-parse", "--verify", "--end-of-options", rev+"^{commit}"); err != nil {
+	if err = run(&b, "git", "rev-parse", "--verify", "--end-of-options", rev); err != nil {
+		return nil, err
+	}
+	object := strings.TrimSuffix(b.String(), "\n")
+	b.Reset()
+	// If it is an annotated tag, find the commit it refers to.
+	if err = run(&b, "git", "rev-parse", "--verify", object+"^{commit}"); err != nil {
 		return nil, err
 	}
 	commit := strings.TrimSuffix(b.String(), "\n")
-- 
2.43.0


From 01fa68836b7467c5b0a8e2f58df5f972e1cd69bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:05:42 +0000
Subject: [PATCH 19/23] fix: list commits when a revision has the same name as
 a file

In that case "git log" failed, and capslock-git-diff printed an empty list of
commits.  It also ignored every other error of that command; it now exits with
status 2, as it does for the other git commands.
---
 cmd/capslock-git-diff/main.go | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/cmd/capslock-git-diff/main.go b/cmd/capslock-git-diff/main.go
index 0fb5d26..5ce0c2d 100644
--- a/cmd/capslock-git-diff/main.go
+++ b/cmd/capslock-git-diff/main.go
@@ -230,7 +230,11 @@ func main() {
 		log.Print(err)
 		os.Exit(2)
 	}
-	different := diffCapabilityInfoLists(cil1, cil2, revisions, pkgname)
+	different, err := diffCapabilityInfoLists(cil1, cil2, revisions, pkgname)
+	if err != nil {
+		log.Print(err)
+		os.Exit(2)
+	}
 	if different {
 		os.Exit(1)
 	}
@@ -367,12 +371,14 @@ func summarizeNewCapabilities(keys []mapKey, baselineMap, currentMap capabilitie
 	return newlyUsedCapabilities, existingCapabilitiesWithNewUses
 }
 
-func diffCapabilityInfoLists(baseline, current *cpb.CapabilityInfoList, revisions [2]string, pkgname string) (different bool) {
+func diffCapabilityInfoLists(baseline, current *cpb.CapabilityInfoList, revisions [2]string, pkgname string) (different bool, err error) {
 	fmt.Printf("Comparing capabilities in %q between revisions %q and %q\n\n",
 		pkgname, revisions[0], revisions[1])
 	if revisions[0] != "." && revisions[1] != "." {
 		fmt.Println("Commits between the two revisions:")
-		listCommits(revisions)
+		if err := listCommits(revisions); err != nil {
+			return false, err
+		}
 	}
 	granularityDescription := map[string]string{
 		"package":      "Package",
@@ -442,7 +448,7 @@ func diffCapabilityInfoLists(baseline, current *cpb.CapabilityInfoList, revision
 			}
 		}
 	}
-	return different
+	return different, nil
 }
 
 func printCallPath(fns []*cpb.Function) {
@@ -462,13 +468,16 @@ func printCallPath(fns []*cpb.Function) {
 	tw.Flush()
 }
 
-func listCommits(revisions [2]string) {
+func listCommits(revisions [2]string) error {
 	var b bytes.Buffer
-	run(&b, "git", "log", "--no-decorate", "--oneline", "^"+revisions[0], revisions[1])
+	// "--" is needed for revisions that have the same name as a file.
+	if err := run(&b, "git", "log", "--no-decorate", "--oneline", "^"+revisions[0], revisions[1], "--"); err != nil {
+		return err
+	}
 	lines := strings.Split(b.String(), "\n")
 	if len(lines) <= 120 {
 		os.Stdout.Write(b.Bytes())
-		return
+		return nil
 	}
 	for i := 0; i < 50; i++ {
 		fmt.Println(lines[i])
@@ -477,4 +486,5 @@ func listCommits(revisions [2]string) {
 	for i := -50; i < 0; i++ {
 		fmt.Println(lines[len(lines)+i])
 	}
+	return nil
 }
-- 
2.43.0


From 15ee595411b49f5d2d1aa3d4cc9e07747e79f983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:05:52 +0000
Subject: [PATCH 20/23] fix: accept a relative CAPSLOCKTOOLSTMPDIR

capslock-git-diff could not switch to the temporary clone if the name of the
temporary directory was a relative path.
---
 cmd/capslock-git-diff/main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/capslock-git-diff/main.go b/cmd/capslock-git-diff/main.go
index 5ce0c2d..ac77411 100644
--- a/cmd/capslock-git-diff/main.go
+++ b/cmd/capslock-git-diff/main.go
@@ -93,6 +93,10 @@ func AnalyzeAtRevision(rev, pkgname string) (cil *cpb.CapabilityInfoList, err er
 		return nil, fmt.Errorf("creating temporary directory: %w", err)
 	}
 	defer os.RemoveAll(tmpdir)
+	// The name can be relative, and we switch directories below.
+	if tmpdir, err = filepath.Abs(tmpdir); err != nil {
+		return nil, err
+	}
 	// Get the location of the .git directory, so we can make a temporary clone.
 	var b bytes.Buffer
 	if err = run(&b, "git", "rev-parse", "--git-dir"); err != nil {
-- 
2.43.0


From 3afa0d15b43a66f907f686fc88c40c8584f7849f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:05:52 +0000
Subject: [PATCH 21/23] fix: remove the temporary module if TMPDIR is a
 relative path

When "go get" failed, capslock was still in the temporary directory, and the
relative name did not lead to it.
---
 cmd/capslock/capslock.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmd/capslock/capslock.go b/cmd/capslock/capslock.go
index 5de09d4..334e79b 100644
--- a/cmd/capslock/capslock.go
+++ b/cmd/capslock/capslock.go
@@ -20,6 +20,7 @@ import (
 	"log"
 	"os"
 	"os/exec"
+	"path/filepath"
 	"runtime"
 	"runtime/pprof"
 	"strings"
@@ -229,6 +230,10 @@ func makeTemporaryModule(packageNames []string) (remove func(), err error) {
 	if err != nil {
 		return nil, fmt.Errorf("creating temporary directory: %w", err)
 	}
+	// The name can be relative, and we switch directories below.
+	if abs, err := filepath.Abs(tmpdir); err == nil {
+		tmpdir = abs
+	}
 	remove = func() { os.RemoveAll(tmpdir) }
 	if err = os.Chdir(tmpdir); err != nil {
 		return remove, fmt.Errorf("switching to temporary directory: %w", err)
-- 
2.43.0


From 9e46cf3f1d37b8f311d72d199863119e430e1082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:19:22 +0000
Subject: [PATCH 22/23] fix: fetch all requested packages with one go get
 command

In the temporary module, the packages were added by one "go get" per
package.  A later command could raise the version of a dependency of an
earlier package without adding its checksum to go.sum, so loading the
earlier package failed with "missing go.sum entry".
---
 cmd/capslock/capslock.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/cmd/capslock/capslock.go b/cmd/capslock/capslock.go
index 334e79b..5aea1d0 100644
--- a/cmd/capslock/capslock.go
+++ b/cmd/capslock/capslock.go
@@ -254,10 +254,11 @@ func makeTemporaryModule(packageNames []string) (remove func(), err error) {
 	if err = run("go", "mod", "init", "capslockmodule"); err != nil {
 		return remove, fmt.Errorf("creating temporary module: %w", err)
 	}
-	for _, p := range packageNames {
-		if err := run("go", "get", p); err != nil {
-			return remove, fmt.Errorf("calling `go get %q`: %w", p, err)
-		}
+	// Use a single command for all the packages.  A later `go get` could change
+	// the versions of dependencies of packages that were added earlier, without
+	// adding what is needed to load those packages to go.sum.
+	if err := run("go", append([]string{"get"}, packageNames...)...); err != nil {
+		return remove, fmt.Errorf("calling `go get %q`: %w", packageNames, err)
 	}
 	return remove, nil
 }
-- 
2.43.0


From 27bbaa9517ae6e1386c44a4871ea9ba1ef265422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:46:31 +0000
Subject: [PATCH 23/23] fix: do not modify the repository when
 GIT_OBJECT_DIRECTORY is set

---
 cmd/capslock-git-diff/main.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/cmd/capslock-git-diff/main.go b/cmd/capslock-git-diff/main.go
index ac77411..1b2a2bb 100644
--- a/cmd/capslock-git-diff/main.go
+++ b/cmd/capslock-git-diff/main.go
@@ -128,12 +128,27 @@ func AnalyzeAtRevision(rev, pkgname string) (cil *cpb.CapabilityInfoList, err er
 	b.Reset()
 	// If these variables are set, for example because we were run by a git hook,
 	// they would cause the commands below to modify the original repository.
-	for _, v := range []string{"GIT_DIR", "GIT_WORK_TREE", "GIT_INDEX_FILE", "GIT_COMMON_DIR"} {
+	objectDirectory := os.Getenv("GIT_OBJECT_DIRECTORY")
+	for _, v := range []string{"GIT_DIR", "GIT_WORK_TREE", "GIT_INDEX_FILE", "GIT_COMMON_DIR", "GIT_OBJECT_DIRECTORY"} {
 		if old, ok := os.LookupEnv(v); ok {
 			os.Unsetenv(v)
 			defer os.Setenv(v, old)
 		}
 	}
+	if objectDirectory != "" {
+		// Objects should still be read from this directory.
+		const v = "GIT_ALTERNATE_OBJECT_DIRECTORIES"
+		if objectDirectory, err = filepath.Abs(objectDirectory); err != nil {
+			return nil, err
+		}
+		if old, ok := os.LookupEnv(v); ok {
+			objectDirectory += string(filepath.ListSeparator) + old
+			defer os.Setenv(v, old)
+		} else {
+			defer os.Unsetenv(v)
+		}
+		os.Setenv(v, objectDirectory)
+	}
 	// Clone the repo.
 	if err = run(nil, "git", "clone", "--shared", "--no-checkout", "--", gitdir, tmpdir); err != nil {
 		return nil, err
-- 
2.43.0

