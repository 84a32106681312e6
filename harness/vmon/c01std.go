package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"
)

// A callbackForm is a way of having the standard library call a function.  In
// the code, hit() executes a categorised function; Run is the function under
// observation.
type callbackForm struct {
	name    string
	imports string
	decls   string
	body    string
}

// The forms avoid functions that the built-in map categorises itself, which by
// the map's choice hide what they call.
var callbackForms = []callbackForm{
	{"sort.Slice", "sort", "", `x := []int{2, 1}; sort.Slice(x, func(i, j int) bool { hit(); return x[i] < x[j] })`},
	{"sort.SliceStable", "sort", "", `x := []int{2, 1}; sort.SliceStable(x, func(i, j int) bool { hit(); return x[i] < x[j] })`},
	{"sort.SliceIsSorted", "sort", "", `x := []int{2, 1}; sort.SliceIsSorted(x, func(i, j int) bool { hit(); return x[i] < x[j] })`},
	{"sort.Sort Less", "sort", sortType("hit()", "", ""), `sort.Sort(S{2, 1})`},
	{"sort.Sort Swap", "sort", sortType("", "hit()", ""), `sort.Sort(S{2, 1})`},
	{"sort.Sort Len", "sort", sortType("", "", "hit()"), `sort.Sort(S{2, 1})`},
	{"sort.Stable Less", "sort", sortType("hit()", "", ""), `sort.Stable(S{2, 1})`},
	{"sort.IsSorted", "sort", sortType("hit()", "", ""), `_ = sort.IsSorted(S{2, 1})`},
	{"sort.Sort sort.Reverse", "sort", sortType("hit()", "", ""), `sort.Sort(sort.Reverse(S{1, 2}))`},
	{"sort.Sort interface value", "sort", sortType("hit()", "", ""), `var i sort.Interface = S{1, 2}; sort.Sort(i)`},
	{"sort.Sort as value", "sort", sortType("hit()", "", ""), `f := sort.Sort; f(S{1, 2})`},
	{"sort.Sort deferred", "sort", sortType("hit()", "", ""), `defer sort.Sort(S{1, 2})`},
	{"sort.Search", "sort", "", `sort.Search(10, func(i int) bool { hit(); return i > 3 })`},
	{"sort.Find", "sort", "", `sort.Find(10, func(i int) int { hit(); return 3 - i })`},
	{"sort.Slice in if", "sort", "", `x := []int{2, 1}; if len(x) > 1 { sort.Slice(x, func(i, j int) bool { hit(); return x[i] < x[j] }) }`},
	{"sort.Slice in case", "sort", "", `x := []int{2, 1}; switch len(x) { case 2: sort.Slice(x, func(i, j int) bool { hit(); return x[i] < x[j] }) }`},
	{"sort.Slice in select", "sort", "", `x := []int{2, 1}; select { default: sort.Slice(x, func(i, j int) bool { hit(); return x[i] < x[j] }) }`},
	{"sort.Slice labelled", "sort", "", `x := []int{2, 1}; n := 0
loop:
	sort.Slice(x, func(i, j int) bool { hit(); return x[i] < x[j] })
	if n++; n < 2 { goto loop }`},
	{"sort.Slice less variable", "sort", "", `x := []int{2, 1}; less := func(i, j int) bool { hit(); return x[i] < x[j] }; sort.Slice(x, less)`},
	{"sort.Slice parenthesised", "sort", "", `x := []int{2, 1}; (sort.Slice)(x, func(i, j int) bool { hit(); return x[i] < x[j] })`},
	{"slices.SortFunc", "slices", "", `slices.SortFunc([]int{2, 1}, func(a, b int) int { hit(); return a - b })`},
	{"slices.SortStableFunc", "slices", "", `slices.SortStableFunc([]int{2, 1}, func(a, b int) int { hit(); return a - b })`},
	{"slices.IndexFunc", "slices", "", `slices.IndexFunc([]int{2, 1}, func(a int) bool { hit(); return false })`},
	{"slices.ContainsFunc", "slices", "", `slices.ContainsFunc([]int{2, 1}, func(a int) bool { hit(); return false })`},
	{"slices.BinarySearchFunc", "slices", "", `slices.BinarySearchFunc([]int{2, 1}, 1, func(a, b int) int { hit(); return a - b })`},
	{"slices.DeleteFunc", "slices", "", `slices.DeleteFunc([]int{2, 1}, func(a int) bool { hit(); return false })`},
	{"slices.Collect", "slices", "", `slices.Collect(func(y func(int) bool) { hit(); y(1) })`},
	{"slices.All", "slices", "", `slices.All([]int{1})(func(int, int) bool { hit(); return true })`},
	{"maps.DeleteFunc", "maps", "", `maps.DeleteFunc(map[int]int{1: 1}, func(a, b int) bool { hit(); return false })`},
	{"maps.EqualFunc", "maps", "", `maps.EqualFunc(map[int]int{1: 1}, map[int]int{1: 1}, func(a, b int) bool { hit(); return false })`},
	{"strings.Map", "strings", "", `strings.Map(func(r rune) rune { hit(); return r }, "abc")`},
	{"strings.FieldsFunc", "strings", "", `strings.FieldsFunc("abc", func(r rune) bool { hit(); return false })`},
	{"strings.TrimFunc", "strings", "", `strings.TrimFunc("abc", func(r rune) bool { hit(); return false })`},
	{"strings.IndexFunc", "strings", "", `strings.IndexFunc("abc", func(r rune) bool { hit(); return false })`},
	{"bytes.Map", "bytes", "", `bytes.Map(func(r rune) rune { hit(); return r }, []byte("abc"))`},
	{"bytes.FieldsFunc", "bytes", "", `bytes.FieldsFunc([]byte("abc"), func(r rune) bool { hit(); return false })`},
	{"bytes.ContainsFunc", "bytes", "", `bytes.ContainsFunc([]byte("abc"), func(r rune) bool { hit(); return false })`},
	{"bytes.Buffer.ReadFrom", "bytes io", readerType, `var b bytes.Buffer; b.ReadFrom(R{})`},
	{"bytes.Buffer.WriteTo", "bytes", writerType, `b := bytes.NewBufferString("x"); b.WriteTo(W{})`},
	{"strings.Reader.WriteTo", "strings", writerType, `strings.NewReader("x").WriteTo(W{})`},
	{"strings.Replacer.WriteString", "strings", writerType, `strings.NewReplacer("a", "b").WriteString(W{}, "abc")`},
	{"io.Copy reader", "io", readerType, `io.Copy(io.Discard, R{})`},
	{"io.Copy writer", "io strings", writerType, `io.Copy(W{}, io.LimitReader(strings.NewReader("x"), 1))`},
	{"io.Copy WriterTo", "io", readerType + `func (R) WriteTo(io.Writer) (int64, error) { hit(); return 0, nil }`, `io.Copy(io.Discard, R{})`},
	{"io.ReadAll", "io", readerType, `io.ReadAll(R{})`},
	{"io.ReadFull", "io", readerType, `io.ReadFull(R{}, make([]byte, 1))`},
	{"io.WriteString", "io", writerType + `func (W) WriteString(string) (int, error) { hit(); return 0, nil }`, `io.WriteString(W{}, "x")`},
	{"io.MultiWriter", "io", writerType, `io.MultiWriter(W{}, io.Discard).Write([]byte("x"))`},
	{"io.MultiReader", "io", readerType, `io.MultiReader(R{}).Read(make([]byte, 1))`},
	{"io.TeeReader", "io strings", writerType, `io.TeeReader(strings.NewReader("x"), W{}).Read(make([]byte, 1))`},
	{"io.Pipe", "io", "", `r, w := io.Pipe(); go func() { hit(); w.Close() }(); io.ReadAll(r)`},
	{"io.NopCloser", "io", readerType, `c := io.NopCloser(R{}); c.Read(make([]byte, 1))`},
	{"io.SectionReader", "io", `type A struct{}
func (A) ReadAt(p []byte, off int64) (int, error) { hit(); return 0, io.EOF }`, `io.NewSectionReader(A{}, 0, 5).Read(make([]byte, 3))`},
	{"bufio.Scanner", "bufio io", readerType, `s := bufio.NewScanner(R{}); s.Scan()`},
	{"bufio.Scanner split", "bufio strings", "", `s := bufio.NewScanner(strings.NewReader("a b")); s.Split(func(d []byte, e bool) (int, []byte, error) { hit(); return bufio.ScanWords(d, e) }); s.Scan()`},
	{"bufio.Reader", "bufio io", readerType, `bufio.NewReader(R{}).ReadByte()`},
	{"bufio.Writer", "bufio", writerType, `b := bufio.NewWriter(W{}); b.WriteString("x"); b.Flush()`},
	{"errors.Is", "errors", `type E struct{}
func (E) Error() string { return "" }
func (E) Is(error) bool { hit(); return true }`, `errors.Is(E{}, errors.New("x"))`},
	{"errors.As", "errors", `type E struct{}
func (E) Error() string { return "" }
func (E) As(any) bool { hit(); return false }`, `var t interface{ Foo(); error }; errors.As(E{}, &t)`},
	{"errors.Unwrap", "errors", `type E struct{}
func (E) Error() string { return "" }
func (E) Unwrap() error { hit(); return nil }`, `errors.Unwrap(E{})`},
	{"errors.Join", "errors", `type E struct{}
func (E) Error() string { hit(); return "" }`, `_ = errors.Join(E{}).Error()`},
	{"sync.Once.Do", "sync", "", `var o sync.Once; o.Do(func() { hit() })`},
	{"sync.Once.Do named", "sync", "", `var o sync.Once; o.Do(hit)`},
	{"sync.Once.Do field", "sync", "type T struct{ o sync.Once; n int }\nfunc (t *T) f() { hit() }", `t := &T{}; t.o.Do(t.f)`},
	{"sync.Once.Do embedded", "sync", "type T struct{ sync.Once }", `t := &T{}; t.Do(func() { hit() })`},
	{"sync.Once.Do as value", "sync", "", `var o sync.Once; f := o.Do; f(func() { hit() })`},
	{"sync.Once.Do expression", "sync", "", `var o sync.Once; (*sync.Once).Do(&o, func() { hit() })`},
	{"sync.Once.Do deferred", "sync", "", `var o sync.Once; defer o.Do(func() { hit() })`},
	{"sync.OnceFunc", "sync", "", `sync.OnceFunc(func() { hit() })()`},
	{"sync.OnceValue", "sync", "", `sync.OnceValue(func() int { hit(); return 1 })()`},
	{"sync.OnceValues", "sync", "", `sync.OnceValues(func() (int, int) { hit(); return 1, 1 })()`},
	{"sync.Pool.New", "sync", "", `p := sync.Pool{New: func() any { hit(); return 1 }}; p.Get()`},
	{"sync.Cond", "sync", `type L struct{}
func (L) Lock() {}
func (L) Unlock() { hit() }`, `c := sync.NewCond(L{}); go func() { for { c.Broadcast(); runtime.Gosched() } }(); c.Wait()`},
	{"context.AfterFunc", "context", "", `ctx, cancel := context.WithCancel(context.Background()); context.AfterFunc(ctx, func() { hit() }); cancel(); waitHit()`},
	{"context value", "context", "", `ctx := context.WithValue(context.Background(), 1, func() { hit() }); ctx.Value(1).(func())()`},
	{"container/heap", "container/heap", sortType("hit()", "", "") + `
func (s *S) Push(x any) { *s = append(*s, x.(int)) }
func (s *S) Pop() any { x := (*s)[0]; *s = (*s)[1:]; return x }`, `s := &S{2, 1}; heap.Init(s)`},
	{"container/heap Push", "container/heap", sortType("", "", "") + `
func (s *S) Push(x any) { hit(); *s = append(*s, x.(int)) }
func (s *S) Pop() any { x := (*s)[0]; *s = (*s)[1:]; return x }`, `s := &S{2, 1}; heap.Push(s, 3)`},
	{"container/list value", "container/list", "", `l := list.New(); l.PushBack(func() { hit() }); l.Front().Value.(func())()`},
	{"container/ring Do", "container/ring", "", `ring.New(1).Do(func(any) { hit() })`},
	{"regexp.ReplaceAllStringFunc", "regexp", "", `regexp.MustCompile("a").ReplaceAllStringFunc("aa", func(string) string { hit(); return "" })`},
	{"regexp.ReplaceAllFunc", "regexp", "", `regexp.MustCompile("a").ReplaceAllFunc([]byte("aa"), func([]byte) []byte { hit(); return nil })`},
	{"regexp.MatchReader", "regexp", `type R struct{}
func (R) ReadRune() (rune, int, error) { hit(); return 'a', 1, nil }`, `regexp.MustCompile("^a").MatchReader(R{})`},
	{"filepath.Walk", "path/filepath os", "", `filepath.Walk("/dev/null", func(string, os.FileInfo, error) error { hit(); return nil })`},
	{"filepath.WalkDir", "path/filepath io/fs", "", `filepath.WalkDir("/dev/null", func(string, fs.DirEntry, error) error { hit(); return nil })`},
	{"fs.WalkDir", "io/fs testing/fstest", "", `fs.WalkDir(fstest.MapFS{}, ".", func(string, fs.DirEntry, error) error { hit(); return nil })`},
	{"fs.ReadFile", "io/fs", `type F struct{}
func (F) Open(string) (fs.File, error) { hit(); return nil, fs.ErrNotExist }`, `fs.ReadFile(F{}, "x")`},
	{"fs.Sub", "io/fs", `type F struct{}
func (F) Open(string) (fs.File, error) { hit(); return nil, fs.ErrNotExist }`, `s, _ := fs.Sub(F{}, "d"); s.Open("x")`},
	{"ast.Inspect", "go/ast", "", `ast.Inspect(&ast.Ident{}, func(ast.Node) bool { hit(); return false })`},
	{"ast.Walk", "go/ast", `type V struct{}
func (V) Visit(ast.Node) ast.Visitor { hit(); return nil }`, `ast.Walk(V{}, &ast.Ident{})`},
	{"flag.Func", "flag", "", `f := flag.NewFlagSet("x", flag.ContinueOnError); f.Func("a", "", func(string) error { hit(); return nil }); f.Parse([]string{"-a", "1"})`},
	{"flag.Var", "flag", `type V struct{}
func (V) String() string { return "" }
func (V) Set(string) error { hit(); return nil }`, `f := flag.NewFlagSet("x", flag.ContinueOnError); f.Var(V{}, "a", ""); f.Parse([]string{"-a", "1"})`},
	{"flag.Usage", "flag io", "", `f := flag.NewFlagSet("x", flag.ContinueOnError); f.SetOutput(io.Discard); f.Usage = func() { hit() }; f.Parse([]string{"-zz"})`},
	{"flag.Visit", "flag", "", `f := flag.NewFlagSet("x", flag.ContinueOnError); f.Int("a", 1, ""); f.VisitAll(func(*flag.Flag) { hit() })`},
	{"json.Marshal", "encoding/json", `type M struct{}
func (M) MarshalJSON() ([]byte, error) { hit(); return []byte("1"), nil }`, `json.Marshal(M{})`},
	{"json.Marshal field", "encoding/json", `type M struct{}
func (M) MarshalJSON() ([]byte, error) { hit(); return []byte("1"), nil }`, `json.Marshal(struct{ A []M }{[]M{{}}})`},
	{"json.Unmarshal", "encoding/json", `type M struct{}
func (*M) UnmarshalJSON([]byte) error { hit(); return nil }`, `var m M; json.Unmarshal([]byte("1"), &m)`},
	{"json.Marshal text", "encoding/json", `type M struct{}
func (M) MarshalText() ([]byte, error) { hit(); return []byte("1"), nil }`, `json.Marshal(M{})`},
	{"json.Encoder", "encoding/json", writerType, `json.NewEncoder(W{}).Encode(1)`},
	{"json.Decoder", "encoding/json io", readerType, `var x any; json.NewDecoder(R{}).Decode(&x)`},
	{"xml.Marshal", "encoding/xml", `type M struct{}
func (M) MarshalText() ([]byte, error) { hit(); return []byte("1"), nil }`, `xml.Marshal(M{})`},
	{"gob.Encode", "encoding/gob bytes", `type M struct{ X int }
func (M) GobEncode() ([]byte, error) { hit(); return []byte("1"), nil }`, `gob.NewEncoder(&bytes.Buffer{}).Encode(M{})`},
	{"csv.Reader", "encoding/csv io", readerType, `csv.NewReader(R{}).Read()`},
	{"csv.Writer", "encoding/csv", writerType, `w := csv.NewWriter(W{}); w.Write([]string{"x"}); w.Flush()`},
	{"base64.NewEncoder", "encoding/base64", writerType, `w := base64.NewEncoder(base64.StdEncoding, W{}); w.Write([]byte("abcdef")); w.Close()`},
	{"hex.Dumper", "encoding/hex", writerType, `w := hex.Dumper(W{}); w.Write([]byte("abcdef")); w.Close()`},
	{"binary.Read", "encoding/binary io", readerType, `var x uint32; binary.Read(R{}, binary.LittleEndian, &x)`},
	{"gzip.NewReader", "compress/gzip io", readerType, `gzip.NewReader(R{})`},
	{"gzip.Writer", "compress/gzip", writerType, `w := gzip.NewWriter(W{}); w.Write([]byte("x")); w.Close()`},
	{"flate.NewReader", "compress/flate io", readerType, `flate.NewReader(R{}).Read(make([]byte, 1))`},
	{"tar.Reader", "archive/tar io", readerType, `tar.NewReader(R{}).Next()`},
	{"zip.Writer", "archive/zip", writerType, `w := zip.NewWriter(W{}); w.Create("x"); w.Close()`},
	{"template function", "text/template io", "", `template.Must(template.New("").Funcs(template.FuncMap{"f": func() string { hit(); return "" }}).Parse("{{f}}")).Execute(io.Discard, nil)`},
	{"template method", "text/template io", "type T struct{}\nfunc (T) M() string { hit(); return \"\" }", `template.Must(template.New("").Parse("{{.M}}")).Execute(io.Discard, T{})`},
	{"template writer", "text/template", writerType, `template.Must(template.New("").Parse("x")).Execute(W{}, nil)`},
	{"html/template method", "html/template io", "type T struct{}\nfunc (T) M() string { hit(); return \"\" }", `template.Must(template.New("").Parse("{{.M}}")).Execute(io.Discard, T{})`},
	{"tabwriter", "text/tabwriter", writerType, `w := tabwriter.NewWriter(W{}, 1, 1, 1, ' ', 0); w.Write([]byte("x\n")); w.Flush()`},
	{"text/scanner", "text/scanner io", readerType, `var s scanner.Scanner; s.Init(R{}); s.Scan()`},
	{"reflect Call", "reflect", "", `reflect.ValueOf(func() { hit() }).Call(nil)`},
	{"reflect Method", "reflect", "type T struct{}\nfunc (T) M() { hit() }", `reflect.ValueOf(T{}).Method(0).Call(nil)`},
	{"reflect MakeFunc", "reflect", "", `f := reflect.MakeFunc(reflect.TypeOf(func() {}), func([]reflect.Value) []reflect.Value { hit(); return nil }); f.Interface().(func())()`},
	{"reflect field", "reflect", "", `x := struct{ F func() }{func() { hit() }}; reflect.ValueOf(x).Field(0).Interface().(func())()`},
	{"log/slog handler", "log/slog context", `type H struct{}
func (H) Enabled(context.Context, slog.Level) bool { return true }
func (H) Handle(context.Context, slog.Record) error { hit(); return nil }
func (h H) WithAttrs([]slog.Attr) slog.Handler { return h }
func (h H) WithGroup(string) slog.Handler { return h }`, `slog.New(H{}).Info("x")`},
	{"slog.LogValuer", "log/slog", `type V struct{}
func (V) LogValue() slog.Value { hit(); return slog.IntValue(1) }`, `slog.AnyValue(V{}).Resolve()`},
	{"expvar.Do", "expvar", "", `expvar.Do(func(expvar.KeyValue) { hit() })`},
	{"image.Decode", "image io bufio", readerType + "\nfunc init() { image.RegisterFormat(\"zz\", \"\", func(io.Reader) (image.Image, error) { hit(); return nil, nil }, nil) }", `image.Decode(R2{}); _ = bufio.NewReader`},
	{"png.Encode", "image image/png", writerType, `png.Encode(W{}, image.NewGray(image.Rect(0, 0, 1, 1)))`},
	{"image.At", "image image/color image/jpeg io", `type I struct{}
func (I) ColorModel() color.Model { return color.GrayModel }
func (I) Bounds() image.Rectangle { return image.Rect(0, 0, 1, 1) }
func (I) At(int, int) color.Color { hit(); return color.Black }`, `jpeg.Encode(io.Discard, I{}, nil)`},
	{"draw.Draw", "image image/color image/draw", `type I struct{}
func (I) ColorModel() color.Model { return color.GrayModel }
func (I) Bounds() image.Rectangle { return image.Rect(0, 0, 1, 1) }
func (I) At(int, int) color.Color { hit(); return color.Black }`, `draw.Draw(image.NewGray(image.Rect(0, 0, 1, 1)), image.Rect(0, 0, 1, 1), I{}, image.Point{}, draw.Src)`},
	{"rand source", "math/rand", `type S struct{}
func (S) Int63() int64 { hit(); return 1 }
func (S) Seed(int64) {}`, `rand.New(S{}).Int()`},
	{"rand.Shuffle", "math/rand", "", `rand.Shuffle(2, func(i, j int) { hit() })`},
	{"rand/v2 source", "math/rand/v2", `type S struct{}
func (S) Uint64() uint64 { hit(); return 1 }`, `rand.New(S{}).Int()`},
	{"two imports", "suffixarray:index/suffixarray regexp", "", `suffixarray.New([]byte("x")); regexp.MustCompile("a").ReplaceAllStringFunc("a", func(string) string { hit(); return "" })`},
	{"os/signal", "os os/signal syscall", "", `c := make(chan os.Signal, 1); signal.Notify(c, syscall.SIGUSR1); syscall.Kill(os.Getpid(), syscall.SIGUSR1); <-c; hit()`},
	{"net.Pipe", "net", "", `a, b := net.Pipe(); go func() { hit(); a.Close() }(); b.Read(make([]byte, 1))`},
	{"mime/multipart", "mime/multipart", writerType, `multipart.NewWriter(W{}).CreateFormField("x")`},
	{"net/textproto", "net/textproto bufio io", readerType, `textproto.NewReader(bufio.NewReader(R{})).ReadLine()`},
	{"net/mail", "net/mail io", readerType, `mail.ReadMessage(R{})`},
	{"printer.Fprint", "go/printer go/ast go/token", writerType, `printer.Fprint(W{}, token.NewFileSet(), &ast.Ident{Name: "x"})`},
	{"types.Importer", "go/types go/ast go/parser go/token errors", `type I struct{}
func (I) Import(string) (*types.Package, error) { hit(); return nil, errors.New("x") }`, `fs := token.NewFileSet(); f, _ := parser.ParseFile(fs, "x.go", "package x; import \"y\"", 0); c := types.Config{Importer: I{}, Error: func(error) {}}; c.Check("x", fs, []*ast.File{f}, nil)`},
	{"types.Config.Error", "go/types go/ast go/parser go/token", "", `fs := token.NewFileSet(); f, _ := parser.ParseFile(fs, "x.go", "package x; var y = z", 0); c := types.Config{Error: func(error) { hit() }}; c.Check("x", fs, []*ast.File{f}, nil)`},
}

const readerType = `type R struct{}
func (R) Read(p []byte) (int, error) { hit(); return 0, io.EOF }
type R2 struct{}
func (R2) Read(p []byte) (int, error) { p[0] = 'a'; return 1, nil }
`

const writerType = `type W struct{}
func (W) Write(p []byte) (int, error) { hit(); return len(p), nil }
`

func sortType(less, swap, length string) string {
	return fmt.Sprintf(`type S []int
func (s S) Len() int { %s; return len(s) }
func (s S) Less(i, j int) bool { %s; return s[i] < s[j] }
func (s S) Swap(i, j int) { %s; s[i], s[j] = s[j], s[i] }`, length, less, swap)
}

// stdCallbacks executes each form and compares what ran with the report.
func (r *Run) stdCallbacks() {
	rnd := r.rng("forms")
	order := rnd.Perm(len(callbackForms))
	per := r.pick(5, 2)
	rounds := (len(order) + per - 1) / per
	r.parallel(rounds, 8, func(i int) {
		var group []int
		for k := i; k < len(order); k += rounds {
			group = append(group, order[k])
		}
		files := map[string]string{
			"go.mod": "module ex.com/m\n\ngo 1.23\n",
			"sink/sink.go": `package sink

import "sync/atomic"

var n atomic.Int64

func S()        { n.Add(1) }
func N() int64  { return n.Load() }
`,
		}
		main := "package main\n\nimport (\n\t\"encoding/json\"\n\t\"os\"\n\t\"ex.com/m/sink\"\n"
		body := ""
		for _, g := range group {
			f := callbackForms[g]
			p := fmt.Sprintf("f%d", g)
			src := "package " + p + "\n\nimport (\n\t\"runtime\"\n\t\"ex.com/m/sink\"\n"
			for _, im := range strings.Fields(f.imports) {
				name, path, ok := strings.Cut(im, ":")
				if !ok {
					path, name = im, ""
				}
				if path != "runtime" {
					src += fmt.Sprintf("\t%s %q\n", name, path)
				}
			}
			src += ")\n\nfunc hit() { sink.S() }\nfunc done() bool { runtime.Gosched(); return sink.N() > 0 }\nfunc waitHit() { for sink.N() == 0 { runtime.Gosched() } }\n\n" + f.decls + "\n\nfunc Run() {\n\t" + f.body + "\n}\n"
			files[p+"/"+p+".go"] = src
			main += fmt.Sprintf("\t%q\n", "ex.com/m/"+p)
			body += fmt.Sprintf("\tif len(os.Args) > 2 && os.Args[2] == %q { %s.Run() }\n", p, p)
		}
		files["cmd/main.go"] = main + ")\n\nfunc main() {\n\tbefore := sink.N()\n" + body + "\tb, _ := json.Marshal(sink.N() - before)\n\tos.WriteFile(os.Args[1], b, 0o644)\n}\n"
		s := r.srcSubject(fmt.Sprintf("forms%d", i), files, "./...")
		bin := filepath.Join(r.tmp("bin"), "prog")
		if b := runCmd(CmdOpt{Dir: s.Dir}, "go", "build", "-o", bin, "./cmd"); b.Code != 0 {
			r.inconclusive("callback forms do not build: %s", clip(b.Err, 2000))
		}
		m := newCapMap()
		m.Func["ex.com/m/sink.S"] = "EXEC"
		c := &Case{S: s, Name: "forms", User: m}
		rep, args := r.report(c)
		if rep == nil {
			return
		}
		got := rep.pairs()
		for _, g := range group {
			f := callbackForms[g]
			p := fmt.Sprintf("f%d", g)
			out := filepath.Join(r.tmp("out"), "n")
			x := runCmd(CmdOpt{Dir: s.Dir, Timeout: 60 * time.Second}, bin, out, p)
			n := 0
			if x.Code == 0 {
				b, err := os.ReadFile(out)
				r.must(err)
				r.must(json.Unmarshal(b, &n))
			}
			if n == 0 {
				r.Count("callback forms not executed", 1)
				r.Sample(map[string]any{"not executed": f.name, "exit": x.Code, "stderr": clip(x.Err, 300)})
				continue
			}
			r.Count("callback forms executed", 1)
			r.Eval("form " + f.name)
			fn := "ex.com/m/" + p + ".Run "
			kind := ""
			for _, k := range []string{"EXEC", "UNANALYZED", "REFLECT"} {
				if got[fn+k] > 0 {
					kind = k
					break
				}
			}
			if kind == "" {
				r.Violate("callback/"+f.name, fmt.Sprintf("%s: Run was seen to execute a function with capability EXEC %d times, but is reported with none of EXEC, UNANALYZED and REFLECT", f.name, n), c.replay(r, args, nil), c.replayDir())
				continue
			}
			r.Count("callback forms reported as "+kind, 1)
			if (f.name == "sort.Slice" || f.name == "regexp.ReplaceAllStringFunc") && kind != "" {
				r.Sample(map[string]any{"form": f.name, "executions": n, "reported": kind})
			}
			// The callback itself is always reported.
			if k := got["ex.com/m/"+p+".hit EXEC"]; k == 0 {
				r.Violate("callback/hit", f.name+": the function that calls the categorised function is not reported", c.replay(r, args, nil), c.replayDir())
			}
		}
	})
}
