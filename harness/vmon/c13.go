package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"time"
)

func init() { checks["C13"] = checkC13 }

// apiTable gives, for exported operations of the standard library, the
// capability that follows from their documentation.  Lines are: packages
// analysed together (first line of a block), then package, capability and
// operations.  "*" stands for all enumerated operations except those listed
// with "-".
const apiTable = `
os os/exec os/signal os/user syscall reflect runtime runtime/cgo runtime/debug runtime/pprof runtime/metrics path/filepath io/ioutil plugin sync/atomic
os FILES (*File).Chdir (*File).Chmod (*File).Chown (*File).Close (*File).Fd (*File).Read (*File).ReadAt (*File).ReadDir (*File).ReadFrom (*File).Readdir (*File).Readdirnames (*File).Seek (*File).SetDeadline (*File).SetReadDeadline (*File).SetWriteDeadline (*File).Stat (*File).Sync (*File).SyscallConn (*File).Truncate (*File).Write (*File).WriteAt (*File).WriteString (*File).WriteTo Chmod Chown Chtimes CopyFS Create CreateTemp DirFS Lchown Link Lstat Mkdir MkdirAll MkdirTemp NewFile Open OpenFile Pipe ReadDir ReadFile Readlink Remove RemoveAll Rename Stat Symlink Truncate WriteFile
os EXEC StartProcess
os MODIFY_SYSTEM_STATE Chdir Clearenv Setenv Unsetenv
os READ_SYSTEM_STATE Environ Executable ExpandEnv FindProcess Getegid Getenv Geteuid Getgid Getgroups Getpagesize Getpid Getppid Getuid Getwd Hostname LookupEnv TempDir UserCacheDir UserConfigDir UserHomeDir
os OPERATING_SYSTEM (*Process).Kill (*Process).Release (*Process).Signal (*Process).Wait
os NONE IsExist IsNotExist IsPathSeparator IsPermission IsTimeout NewSyscallError (*LinkError).Error (*SyscallError).Error (*ProcessState).ExitCode (*ProcessState).String
os/exec EXEC (*Cmd).CombinedOutput (*Cmd).Output (*Cmd).Run (*Cmd).Start (*Cmd).Wait (*Cmd).StderrPipe (*Cmd).StdinPipe (*Cmd).StdoutPipe (*Cmd).Environ Command CommandContext
os/exec FILES LookPath
os/signal MODIFY_SYSTEM_STATE Ignore Notify NotifyContext Reset Stop
os/signal READ_SYSTEM_STATE Ignored
os/user READ_SYSTEM_STATE (*User).GroupIds Current Lookup LookupGroup LookupGroupId LookupId
syscall SYSTEM_CALLS Accept Accept4 Access Acct Adjtimex AllThreadsSyscall AllThreadsSyscall6 Bind BindToDevice Chdir Chmod Chown Chroot Clearenv Close CloseOnExec Connect Creat Dup Dup2 Dup3 Environ EpollCreate EpollCreate1 EpollCtl EpollWait Exec Exit Faccessat Fallocate Fchdir Fchmod Fchmodat Fchown Fchownat FcntlFlock Fdatasync Flock ForkExec Fstat Fstatfs Fsync Ftruncate Futimes Futimesat Getcwd Getdents Getegid Geteuid Getgid Getgroups Getpeername Getpgid Getpgrp Getpid Getppid Getpriority Getrlimit Getrusage Getsockname GetsockoptInt Gettid Gettimeofday Getuid Getwd Getxattr InotifyAddWatch InotifyInit InotifyInit1 InotifyRmWatch Ioperm Iopl Kill Klogctl Lchown Link Listen Listxattr Lstat Madvise Mkdir Mkdirat Mkfifo Mknod Mknodat Mlock Mlockall Mmap Mount Mprotect Munlock Munlockall Munmap Nanosleep Open Openat Pause Pipe Pipe2 PivotRoot Pread PtraceAttach PtraceCont PtraceDetach PtracePeekData PtracePokeData Pwrite RawSyscall RawSyscall6 Read ReadDirent Readlink Reboot Recvfrom Recvmsg Removexattr Rename Renameat Rmdir Seek Select Sendfile Sendmsg SendmsgN Sendto SetNonblock Setdomainname Setegid Setenv Seteuid Setfsgid Setfsuid Setgid Setgroups Sethostname Setpgid Setpriority Setregid Setresgid Setresuid Setreuid Setrlimit Setsid SetsockoptInt Settimeofday Setuid Setxattr Shutdown Socket Socketpair Splice StartProcess Stat Statfs Symlink Sync SyncFileRange Syscall Syscall6 Sysinfo Tee Tgkill Time Times Truncate Umask Uname Unlink Unlinkat Unmount Unsetenv Unshare Ustat Utime Utimes UtimesNano Wait4 Write
syscall READ_SYSTEM_STATE Getenv
reflect REFLECT Append AppendSlice Copy MakeFunc MakeMap MakeSlice New NewAt Select SliceAt Swapper Value.Call Value.CallSlice Value.Clear Value.Convert Value.Grow Value.Interface Value.InterfaceData Value.MapIndex Value.MapKeys Value.MapRange Value.Recv Value.Send Value.Set Value.SetCap Value.SetIterKey Value.SetIterValue Value.SetLen Value.SetMapIndex Value.SetPointer Value.SetZero Value.Slice Value.Slice3 Value.TryRecv Value.TrySend (*MapIter).Key (*MapIter).Value
runtime RUNTIME (*Pinner).Pin (*Pinner).Unpin Breakpoint CPUProfile Goexit SetCgoTraceback SetFinalizer UnlockOSThread
runtime READ_SYSTEM_STATE GOROOT
runtime/cgo RUNTIME Handle.Delete Handle.Value NewHandle
runtime/debug RUNTIME SetCrashOutput SetGCPercent SetMaxStack SetMaxThreads SetMemoryLimit SetPanicOnFault
runtime/debug FILES WriteHeapDump
runtime/debug READ_SYSTEM_STATE ReadBuildInfo
runtime/metrics RUNTIME Read
runtime/pprof RUNTIME (*Profile).Add (*Profile).Remove (*Profile).WriteTo Do Lookup NewProfile Profiles SetGoroutineLabels StartCPUProfile StopCPUProfile WriteHeapProfile
path/filepath FILES EvalSymlinks Glob Walk WalkDir
path/filepath READ_SYSTEM_STATE Abs
path/filepath NONE Base Clean Dir Ext FromSlash IsAbs IsLocal Join Match Rel Split SplitList ToSlash VolumeName
reflect NONE TypeOf ValueOf DeepEqual Kind.String Value.Kind Value.Int Value.Len StructTag.Get
io/ioutil FILES ReadDir ReadFile TempDir TempFile WriteFile
plugin EXEC Open
sync/atomic UNSAFE_POINTER CompareAndSwapPointer StorePointer SwapPointer

net net/http
net NETWORK (*Buffers).Read (*Buffers).WriteTo (*Dialer).Dial (*Dialer).DialContext (*IPConn).Close (*IPConn).File (*IPConn).LocalAddr (*IPConn).Read (*IPConn).ReadFrom (*IPConn).ReadFromIP (*IPConn).ReadMsgIP (*IPConn).RemoteAddr (*IPConn).SetDeadline (*IPConn).SetReadBuffer (*IPConn).SetWriteBuffer (*IPConn).Write (*IPConn).WriteMsgIP (*IPConn).WriteTo (*IPConn).WriteToIP (*ListenConfig).Listen (*ListenConfig).ListenPacket (*Resolver).LookupAddr (*Resolver).LookupCNAME (*Resolver).LookupHost (*Resolver).LookupIP (*Resolver).LookupIPAddr (*Resolver).LookupMX (*Resolver).LookupNS (*Resolver).LookupNetIP (*Resolver).LookupPort (*Resolver).LookupSRV (*Resolver).LookupTXT (*TCPConn).Close (*TCPConn).CloseRead (*TCPConn).CloseWrite (*TCPConn).File (*TCPConn).Read (*TCPConn).ReadFrom (*TCPConn).SetDeadline (*TCPConn).SetKeepAlive (*TCPConn).SetKeepAliveConfig (*TCPConn).SetLinger (*TCPConn).SetNoDelay (*TCPConn).SetReadBuffer (*TCPConn).SetWriteBuffer (*TCPConn).SyscallConn (*TCPConn).Write (*TCPConn).WriteTo (*TCPListener).Accept (*TCPListener).AcceptTCP (*TCPListener).Close (*TCPListener).File (*TCPListener).SetDeadline (*TCPListener).SyscallConn (*UDPConn).Close (*UDPConn).File (*UDPConn).Read (*UDPConn).ReadFrom (*UDPConn).ReadFromUDP (*UDPConn).ReadFromUDPAddrPort (*UDPConn).ReadMsgUDP (*UDPConn).ReadMsgUDPAddrPort (*UDPConn).SyscallConn (*UDPConn).Write (*UDPConn).WriteMsgUDP (*UDPConn).WriteMsgUDPAddrPort (*UDPConn).WriteTo (*UDPConn).WriteToUDP (*UDPConn).WriteToUDPAddrPort (*UnixConn).Close (*UnixConn).CloseRead (*UnixConn).CloseWrite (*UnixConn).File (*UnixConn).Read (*UnixConn).ReadFrom (*UnixConn).ReadFromUnix (*UnixConn).ReadMsgUnix (*UnixConn).Write (*UnixConn).WriteMsgUnix (*UnixConn).WriteTo (*UnixConn).WriteToUnix (*UnixListener).Accept (*UnixListener).AcceptUnix (*UnixListener).Close (*UnixListener).File (*UnixListener).SetDeadline (*UnixListener).SyscallConn Dial DialIP DialTCP DialTimeout DialUDP DialUnix FileConn FileListener FilePacketConn Listen ListenIP ListenMulticastUDP ListenPacket ListenTCP ListenUDP ListenUnix ListenUnixgram LookupAddr LookupCNAME LookupHost LookupIP LookupMX LookupNS LookupPort LookupSRV LookupTXT ResolveIPAddr ResolveTCPAddr ResolveUDPAddr
net NONE ParseIP ParseCIDR ParseMAC JoinHostPort SplitHostPort CIDRMask IPv4 IPv4Mask IP.Equal IP.IsLoopback IP.IsPrivate IP.Mask IP.String IP.To16 IP.To4 IPMask.Size IPMask.String HardwareAddr.String (*IPNet).Contains (*IPNet).String (*AddrError).Error (*DNSError).Error
net/http NONE CanonicalHeaderKey DetectContentType Header.Add Header.Clone Header.Del Header.Get Header.Set Header.Values ParseHTTPVersion ParseTime StatusText (*Cookie).String
net READ_SYSTEM_STATE InterfaceAddrs InterfaceByIndex InterfaceByName Interfaces
net/http NETWORK (*Client).CloseIdleConnections (*Client).Do (*Client).Get (*Client).Head (*Client).Post (*Client).PostForm (*Request).Write (*Request).WriteProxy (*Response).Write (*ResponseController).Flush (*ResponseController).Hijack (*ServeMux).ServeHTTP (*Server).Close (*Server).ListenAndServe (*Server).ListenAndServeTLS (*Server).Serve (*Server).ServeTLS (*Server).Shutdown (*Transport).CloseIdleConnections (*Transport).RoundTrip Error FileServer Get Handle HandleFunc HandlerFunc.ServeHTTP Head ListenAndServe ListenAndServeTLS NotFound Post PostForm Redirect Serve ServeContent ServeFile ServeTLS

text/template
text/template FILES (*Template).ParseFiles (*Template).ParseGlob ParseFiles ParseGlob
text/template NONE New Must HTMLEscapeString JSEscapeString (*Template).Parse (*Template).Lookup (*Template).Funcs
text/template REFLECT (*Template).Execute (*Template).ExecuteTemplate

html/template
html/template FILES (*Template).ParseFiles (*Template).ParseGlob ParseFiles ParseGlob
html/template REFLECT (*Template).Execute (*Template).ExecuteTemplate

mime
mime NONE FormatMediaType ParseMediaType WordEncoder.Encode
mime FILES AddExtensionType ExtensionsByType TypeByExtension

go/parser
go/parser FILES ParseDir ParseFile

go/build
go/build FILES (*Context).Import (*Context).ImportDir (*Context).SrcDirs (*Context).MatchFile Import ImportDir

archive/zip
archive/zip FILES OpenReader (*ReadCloser).Close

debug/elf
debug/elf FILES Open (*File).Close

debug/macho
debug/macho FILES Open OpenFat (*File).Close

debug/pe
debug/pe FILES Open (*File).Close

debug/buildinfo
debug/buildinfo FILES ReadFile

crypto/tls
crypto/tls NETWORK (*Dialer).Dial (*Dialer).DialContext Dial DialWithDialer Listen (*Conn).Close (*Conn).SetDeadline (*Conn).Write (*Conn).Read
crypto/tls FILES LoadX509KeyPair

net/smtp
net/smtp NETWORK Dial SendMail (*Client).Close (*Client).Quit

net/rpc
net/rpc NETWORK Dial DialHTTP DialHTTPPath Accept

net/rpc/jsonrpc
net/rpc/jsonrpc NETWORK Dial

net/textproto
net/textproto NETWORK Dial (*Conn).Close

log/syslog
log/syslog NETWORK Dial New NewLogger (*Writer).Write (*Writer).Err (*Writer).Close

log log/slog
log MODIFY_SYSTEM_STATE SetOutput SetFlags
log/slog MODIFY_SYSTEM_STATE SetDefault

net/http/httptest
net/http/httptest NETWORK NewServer NewTLSServer (*Server).Start (*Server).Close

net/http/cgi
net/http/cgi EXEC (*Handler).ServeHTTP
net/http/cgi READ_SYSTEM_STATE Request

fmt time
fmt NONE Sprint Sprintf Sprintln Errorf Sscan Sscanf Sscanln Append Appendf
time NONE After AfterFunc Date Duration.Round Duration.String FixedZone Month.String NewTicker NewTimer Now Parse ParseDuration ParseInLocation Since Sleep Time.Add Time.AddDate Time.Format Time.In Time.String Time.Sub Time.Unix Time.MarshalJSON Unix Until Weekday.String (*Timer).Stop (*Ticker).Reset

mime/multipart
mime/multipart FILES (*FileHeader).Open (*Form).RemoveAll (*Reader).ReadForm

encoding/json encoding/xml encoding/gob
encoding/json REFLECT Marshal MarshalIndent Unmarshal (*Decoder).Decode (*Encoder).Encode
encoding/xml REFLECT Marshal MarshalIndent Unmarshal (*Decoder).Decode (*Encoder).Encode
encoding/gob REFLECT (*Decoder).Decode (*Encoder).Encode
`

// Packages all of whose enumerated operations are computations.
var computational = []string{"bufio", "bytes", "compress/bzip2", "compress/flate", "compress/gzip", "compress/lzw", "compress/zlib", "container/heap", "container/list", "container/ring", "context",
	"crypto/aes", "crypto/cipher", "crypto/des", "crypto/ecdh", "crypto/ecdsa", "crypto/ed25519", "crypto/elliptic", "crypto/hmac", "crypto/md5", "crypto/rc4", "crypto/rsa", "crypto/sha1", "crypto/sha256", "crypto/sha512", "crypto/subtle",
	"debug/dwarf", "debug/gosym", "embed", "encoding/ascii85", "encoding/asn1", "encoding/base32", "encoding/base64", "encoding/binary", "encoding/csv", "encoding/gob", "encoding/hex", "encoding/json", "encoding/pem", "encoding/xml", "errors",
	"go/ast", "go/build/constraint", "go/constant", "go/doc/comment", "go/printer", "go/scanner", "go/token", "go/types", "go/version", "hash/adler32", "hash/crc32", "hash/crc64", "hash/fnv", "hash/maphash", "html",
	"image", "image/color", "image/draw", "image/gif", "image/jpeg", "image/png", "index/suffixarray", "io", "io/fs", "math", "math/big", "math/bits", "math/cmplx", "math/rand", "math/rand/v2", "net/netip", "net/url", "path",
	"regexp", "regexp/syntax", "sort", "strconv", "strings", "sync", "sync/atomic", "text/scanner", "text/tabwriter", "text/template/parse", "unicode", "unicode/utf16", "unicode/utf8", "mime/quotedprintable"}

var privileged = map[string]bool{"FILES": true, "NETWORK": true, "EXEC": true, "READ_SYSTEM_STATE": true, "MODIFY_SYSTEM_STATE": true, "SYSTEM_CALLS": true, "OPERATING_SYSTEM": true, "CGO": true}

// An execOp is a statement that is executed under observation.
type execOp struct {
	setup string // executed before
	call  string
	kind  string // expected capability, or "" for computations
}

// execOps are grouped so that operations of one group do not pollute the call
// graph of another.
func execOps() map[string][]execOp {
	x := func(kind string, lines ...string) (out []execOp) {
		for _, l := range lines {
			setup, call, ok := strings.Cut(l, " ## ")
			if !ok {
				setup, call = "", l
			}
			out = append(out, execOp{setup, call, kind})
		}
		return
	}
	files := x("FILES",
		`os.ReadFile(D("a"))`, `os.WriteFile(D("w"), B, 0o600)`, `os.Create(D("c"))`, `os.Open(D("a"))`, `os.OpenFile(D("of"), os.O_CREATE|os.O_RDWR, 0o600)`,
		`os.Mkdir(D("d1"), 0o700)`, `os.MkdirAll(D("d2/x/y"), 0o700)`, `os.MkdirTemp(D("."), "t")`, `os.CreateTemp(D("."), "t")`, `os.WriteFile(D("rm"), B, 0o600) ## os.Remove(D("rm"))`,
		`os.MkdirAll(D("ra/x"), 0o700) ## os.RemoveAll(D("ra"))`, `os.WriteFile(D("r1"), B, 0o600) ## os.Rename(D("r1"), D("r2"))`, `os.Link(D("a"), D("ln"))`, `os.Symlink("a", D("sl"))`, `os.Symlink("a", D("rl")) ## os.Readlink(D("rl"))`,
		`os.Stat(D("a"))`, `os.Lstat(D("a"))`, `os.Chmod(D("a"), 0o600)`, `os.Chown(D("a"), os.Getuid(), -1)`, `os.Lchown(D("a"), os.Getuid(), -1)`, `os.Chtimes(D("a"), T, T)`, `os.WriteFile(D("tr"), B, 0o600) ## os.Truncate(D("tr"), 1)`, `os.ReadDir(D("."))`,
		`os.CopyFS(D("cp"), E)`, `F.Read(B)`, `F.Write(B)`, `F.WriteString("x")`, `F.ReadAt(B, 0)`, `F.WriteAt(B, 0)`, `F.Seek(0, 0)`, `F.Sync()`, `F.Truncate(3)`, `F.Stat()`, `F.Chmod(0o600)`, `DF.Readdirnames(1)`, `DF.ReadDir(1)`, `DF.Readdir(1)`, `F.ReadFrom(R)`, `F.Seek(0, 0) ## F.WriteTo(W)`,
		`filepath.Walk(D("."), func(string, os.FileInfo, error) error { return nil })`, `filepath.WalkDir(D("."), func(string, fs.DirEntry, error) error { return nil })`, `filepath.Glob(D("*"))`, `filepath.EvalSymlinks(D("a"))`,
		`ioutil.ReadFile(D("a"))`, `ioutil.WriteFile(D("iw"), B, 0o600)`, `ioutil.ReadDir(D("."))`, `ioutil.TempFile(D("."), "x")`, `ioutil.TempDir(D("."), "x")`, `exec.LookPath("true")`,
		`template.ParseFiles(D("a"))`, `template.ParseGlob(D("a*"))`, `parser.ParseFile(token.NewFileSet(), D("a.go"), nil, 0)`, `parser.ParseDir(token.NewFileSet(), D("src"), nil, 0)`, `elf.Open(os.Args[0])`, `zip.OpenReader(D("a"))`, `buildinfo.ReadFile(os.Args[0])`, `mime.TypeByExtension(".xyzzy")`, `build.ImportDir(D("src"), 0)`, `debug.WriteHeapDump(F.Fd())`,
		`V.Open("a")`, `fs.ReadFile(V, "a")`, `fs.ReadDir(V, ".")`, `fs.Stat(V, "a")`, `fs.Glob(V, "*")`, `V.(fs.ReadFileFS).ReadFile("a")`, `V.(fs.ReadDirFS).ReadDir(".")`, `V.(fs.StatFS).Stat("a")`, `DE[0].Info()`, `VF.Stat()`, `VF.Read(B)`)
	files = append(files, x("EXEC", `exec.Command("true").Run()`, `exec.Command("true").Output()`, `exec.Command("true").CombinedOutput()`, `exec.Command("true").Start()`, `os.StartProcess("/bin/true", []string{"true"}, &os.ProcAttr{})`)...)
	files = append(files, x("READ_SYSTEM_STATE", `os.Getpid()`, `os.Getppid()`, `os.Getuid()`, `os.Getgid()`, `os.Hostname()`, `os.Getwd()`, `os.Executable()`, `os.Getenv("HOME")`, `os.LookupEnv("HOME")`, `os.Environ()`, `os.TempDir()`, `os.UserHomeDir()`, `os.ExpandEnv("$HOME")`, `os.Getgroups()`, `filepath.Abs("x")`, `user.Current()`)...)
	files = append(files, x("MODIFY_SYSTEM_STATE", `os.Setenv("XYZZY", "1")`, `os.Unsetenv("XYZZY")`, `os.Chdir(D("."))`, `signal.Ignore(syscall.SIGWINCH)`)...)
	files = append(files, x("SYSTEM_CALLS", `syscall.Getpid()`, `syscall.Stat(D("a"), &ST)`, `syscall.Open(D("a"), 0, 0)`, `syscall.Mkdir(D("sd"), 0o700)`, `syscall.Access(D("a"), 0)`, `syscall.Uname(&UN)`, `syscall.Syscall(syscall.SYS_GETPID, 0, 0, 0)`, `syscall.RawSyscall(syscall.SYS_GETPID, 0, 0, 0)`, `syscall.Read(int(F.Fd()), B)`, `syscall.Umask(0o22)`)...)
	net := x("NETWORK", `net.Listen("tcp", "127.0.0.1:0")`, `net.ListenTCP("tcp", &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1)})`, `net.ListenPacket("udp", "127.0.0.1:0")`, `net.ListenUDP("udp", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1)})`, `net.Dial("tcp", Addr)`, `net.DialTimeout("tcp", Addr, time.Second)`, `net.DialTCP("tcp", nil, TCP)`, `net.Dial("udp", "127.0.0.1:9")`, `net.Listen("unix", D("sock"))`,
		`http.Get("http://" + Addr)`, `http.Head("http://" + Addr)`, `http.Post("http://"+Addr, "text/plain", nil)`, `http.DefaultClient.Get("http://" + Addr)`, `TC.Write(B)`, `TC.SetNoDelay(true)`, `TC.CloseWrite()`, `UC.WriteToUDP(B, UC.LocalAddr().(*net.UDPAddr))`, `UC.ReadFromUDP(B)`, `textproto.Dial("tcp", Addr)`, `tls.Listen("tcp", "127.0.0.1:0", TLS)`, `syslog.Dial("udp", "127.0.0.1:9", 0, "x")`, `httptest.NewServer(nil)`, `net.LookupHost("localhost")`)
	net = append(net, x("READ_SYSTEM_STATE", `net.Interfaces()`, `net.InterfaceAddrs()`)...)
	comp := x("", `strings.Split("a b", " ")`, `strings.NewReplacer("a", "b").Replace("abc")`, `strings.Fields(" a b ")`, `strings.ToUpper("a")`, `bytes.Repeat(B, 3)`, `strconv.Itoa(12)`, `strconv.ParseFloat("1.5", 64)`, `strconv.Quote("x")`, `sha256.Sum256(B)`, `md5.Sum(B)`, `sha1.Sum(B)`, `sha512.Sum512(B)`, `crc32.ChecksumIEEE(B)`, `adler32.Checksum(B)`,
		`base64.StdEncoding.EncodeToString(B)`, `hex.DecodeString("00ff")`, `json.Valid(B)`, `regexp.MustCompile("a+").FindString("baa")`, `regexp.MatchString("a", "b")`, `fmt.Sprintf("%d %s %v", 1, "x", 2.5)`, `fmt.Sprint(1, 2)`, `fmt.Errorf("x %d", 1)`, `fmt.Sscanf("1 2", "%d %d", &I, &I)`, `sort.Ints([]int{2, 1})`, `sort.Strings([]string{"b", "a"})`, `new(big.Int).Exp(big.NewInt(3), big.NewInt(5), nil)`,
		`math.Sqrt(2)`, `bits.OnesCount(3)`, `cmplx.Abs(1i)`, `rand.Intn(3)`, `rand.New(rand.NewSource(1)).Perm(4)`, `time.Date(2020, 1, 1, 0, 0, 0, 0, time.UTC)`, `time.Unix(0, 0).UTC().Format("2006")`, `time.ParseDuration("1s")`, `time.Now()`, `MU.Lock()`, `OnceV.Do(func() {})`, `context.WithCancel(context.Background())`, `list.New().PushBack(1)`, `ring.New(3).Len()`, `path.Join("a", "b")`, `path.Match("*", "x")`, `filepath.Join("a", "b")`, `filepath.Base("a/b")`,
		`url.Parse("http://x/y?z")`, `url.QueryEscape("a b")`, `netip.ParseAddr("1.2.3.4")`, `html.EscapeString("<")`, `utf8.RuneCountInString("x")`, `utf16.Encode([]rune("x"))`, `unicode.IsUpper('A')`, `errors.New("x")`, `errors.Join(nil, nil)`, `binary.LittleEndian.Uint64(make([]byte, 8))`, `binary.PutUvarint(make([]byte, 10), 3)`, `hmac.New(sha256.New, B).Sum(nil)`, `aes.NewCipher(make([]byte, 16))`, `subtle.ConstantTimeCompare(B, B)`, `maphash.String(maphash.MakeSeed(), "x")`, `fnv.New64().Sum64()`,
		`slices.Sort([]int{2, 1})`, `slices.Contains([]int{1}, 1)`, `maps.Keys(map[int]int{1: 1})`, `cmp.Compare(1, 2)`, `atomic.AddInt64(&I64, 1)`, `image.NewRGBA(image.Rect(0, 0, 1, 1))`, `color.RGBA{}.RGBA()`, `csv.NewReader(strings.NewReader("a,b"))`, `pem.Decode(B)`, `parse.Parse("x", "y", "", "")`, `token.NewFileSet().AddFile("x", -1, 3)`, `constant.MakeInt64(1)`, `quotedprintable.NewReader(strings.NewReader("x"))`, `suffixarray.New(B).Lookup(B, 1)`, `unique.Make("x")`)
	return map[string][]execOp{"files": files, "net": net, "comp": comp}
}

var stdPaths = map[string]string{"template": "text/template", "parser": "go/parser", "token": "go/token", "elf": "debug/elf", "zip": "archive/zip", "buildinfo": "debug/buildinfo", "build": "go/build", "exec": "os/exec", "filepath": "path/filepath", "ioutil": "io/ioutil", "fs": "io/fs", "user": "os/user", "signal": "os/signal", "debug": "runtime/debug",
	"http": "net/http", "textproto": "net/textproto", "tls": "crypto/tls", "syslog": "log/syslog", "httptest": "net/http/httptest", "sha256": "crypto/sha256", "md5": "crypto/md5", "sha1": "crypto/sha1", "sha512": "crypto/sha512", "crc32": "hash/crc32", "adler32": "hash/adler32", "base64": "encoding/base64", "hex": "encoding/hex", "json": "encoding/json", "big": "math/big", "bits": "math/bits", "cmplx": "math/cmplx", "rand": "math/rand",
	"list": "container/list", "ring": "container/ring", "url": "net/url", "netip": "net/netip", "utf8": "unicode/utf8", "utf16": "unicode/utf16", "binary": "encoding/binary", "hmac": "crypto/hmac", "aes": "crypto/aes", "subtle": "crypto/subtle", "maphash": "hash/maphash", "fnv": "hash/fnv", "atomic": "sync/atomic", "color": "image/color", "csv": "encoding/csv", "pem": "encoding/pem", "parse": "text/template/parse", "constant": "go/constant", "quotedprintable": "mime/quotedprintable", "suffixarray": "index/suffixarray"}

var identDot = regexp.MustCompile(`\b([a-z][a-z0-9]*)\.[A-Z]`)

func importsOf(src string) string {
	m := map[string]bool{}
	for _, x := range identDot.FindAllStringSubmatch(src, -1) {
		p := x[1]
		if q, ok := stdPaths[p]; ok {
			p = q
		}
		m[p] = true
	}
	var b strings.Builder
	b.WriteString("import (\n")
	for _, p := range sortedKeys(m) {
		fmt.Fprintf(&b, "\t%q\n", p)
	}
	b.WriteString(")\n\n")
	return b.String()
}

// execProgram writes a module with a package ops, one function per operation,
// and a program that executes them one after another, with a recognisable
// system call in between.
func execProgram(group string, ops []execOp) map[string]string {
	var body, run strings.Builder
	for i, o := range ops {
		fmt.Fprintf(&body, "func Op%d() { %s }\n", i, o.call)
		fmt.Fprintf(&run, "\tstep(%d, func() { %s }, ops.Op%d)\n", i, qualifyVars(o.setup), i)
	}
	vars := map[string]string{
		"files": "var F, DF *os.File\nvar V fs.FS\nvar VF fs.File\nvar DE []fs.DirEntry\n\nfunc Setup() {\n\tV = os.DirFS(Dir)\n\tVF, _ = V.Open(\"a\")\n\tDE, _ = os.ReadDir(Dir)\n}\n\nvar W io.Writer = io.Discard\nvar R io.Reader = strings.NewReader(\"abc\")\nvar E fs.FS\nvar T = time.Unix(1000, 0)\nvar ST syscall.Stat_t\nvar UN syscall.Utsname\n",
		"net":   "var Addr string\nvar TCP *net.TCPAddr\nvar TC *net.TCPConn\nvar UC *net.UDPConn\nvar TLS *tls.Config\n",
		"comp":  "var I int\nvar I64 int64\nvar MU sync.Mutex\nvar OnceV sync.Once\n",
	}[group]
	common := "var Dir string\nvar B = []byte(\"hello\")\n\nfunc D(s string) string { return Dir + \"/\" + s }\n\n"
	src := vars + common + body.String()
	start := map[string]string{
		"files": `	os.WriteFile(ops.D("a"), []byte("hello"), 0o600)
	os.WriteFile(ops.D("a.go"), []byte("package a"), 0o600)
	os.MkdirAll(ops.D("src"), 0o700)
	os.WriteFile(ops.D("src/s.go"), []byte("package s"), 0o600)
	ops.F, _ = os.OpenFile(ops.D("f"), os.O_CREATE|os.O_RDWR, 0o600)
	ops.DF, _ = os.Open(ops.Dir)
	ops.E = fstest.MapFS{"x": &fstest.MapFile{}}
	ops.Setup()
`,
		"net": `	Lis, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		os.Exit(3)
	}
	go http.Serve(Lis, http.NotFoundHandler())
	ops.Addr = Lis.Addr().String()
	ops.TCP = Lis.Addr().(*net.TCPAddr)
	ops.TC, _ = net.DialTCP("tcp", nil, ops.TCP)
	ops.UC, _ = net.ListenUDP("udp", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1)})
	ops.TLS = &tls.Config{Certificates: []tls.Certificate{{Certificate: [][]byte{{1}}}}}
`,
		"comp": "",
	}[group]
	mainBody := `var mark = make([]byte, 0)

func step(i int, setup, op func()) {
	setup()
	time.Sleep(time.Millisecond)
	syscall.Access("/vmon-begin/"+strconv.Itoa(i), 0)
	func() {
		defer func() { recover() }()
		op()
	}()
	syscall.Access("/vmon-end/"+strconv.Itoa(i), 0)
}

func main() {
	runtime.LockOSThread()
	ops.Dir = os.Args[1]
` + start + run.String() + "\tos.Exit(0)\n}\n"
	im := strings.Replace(importsOf(mainBody), "\t\"ops\"\n", "\t\"ex.com/m/ops\"\n", 1)
	im = strings.Replace(im, "\"fstest\"", "\"testing/fstest\"", 1)
	return map[string]string{
		"go.mod":       "module ex.com/m\n\ngo 1.23\n",
		"ops/ops.go":   "package ops\n\n" + importsOf(src) + src,
		"main/main.go": "package main\n\n" + im + mainBody,
	}
}

// qualifyVars makes a setup statement usable in package main.
func qualifyVars(s string) string {
	s = regexp.MustCompile(`\b(D\(|B\b|F\.)`).ReplaceAllString(s, "ops.$1")
	return s
}

var (
	syscallLine = regexp.MustCompile(`^(?:\[pid +\d+\] |\d+ +)?([a-z0-9_]+)\((.*)`)
	resumedLine = regexp.MustCompile(`<\.\.\. ([a-z0-9_]+) resumed>`)
)

var fileCalls = map[string]bool{"open": true, "openat": true, "creat": true, "stat": true, "lstat": true, "newfstatat": true, "statx": true, "unlink": true, "unlinkat": true, "mkdir": true, "mkdirat": true, "rmdir": true, "rename": true, "renameat": true, "renameat2": true, "link": true, "linkat": true, "symlink": true, "symlinkat": true, "readlink": true, "readlinkat": true, "chmod": true, "fchmodat": true, "fchmod": true, "chown": true, "fchown": true, "lchown": true, "fchownat": true, "utimensat": true, "truncate": true, "ftruncate": true, "access": true, "faccessat": true, "faccessat2": true, "getdents64": true, "fsync": true, "read": true, "write": true, "pread64": true, "pwrite64": true, "lseek": true, "fstat": true, "copy_file_range": true, "sendfile": true, "splice": true}
var netCalls = map[string]bool{"socket": true, "connect": true, "bind": true, "listen": true, "accept": true, "accept4": true, "sendto": true, "recvfrom": true, "sendmsg": true, "recvmsg": true, "setsockopt": true, "shutdown": true}

// observe classifies the system calls between the markers of each operation.
func observe(trace, dir string) map[int]map[string]bool {
	out := map[int]map[string]bool{}
	cur := -1
	for _, l := range strings.Split(trace, "\n") {
		if i := strings.Index(l, `"/vmon-begin/`); i >= 0 {
			fmt.Sscanf(l[i:], `"/vmon-begin/%d`, &cur)
			out[cur] = map[string]bool{}
			continue
		}
		if strings.Contains(l, `"/vmon-end/`) {
			cur = -1
			continue
		}
		if cur < 0 {
			continue
		}
		m := syscallLine.FindStringSubmatch(l)
		if m == nil {
			continue
		}
		name, rest := m[1], m[2]
		switch {
		case netCalls[name]:
			out[cur]["NETWORK"] = true
		case name == "execve" || name == "execveat":
			out[cur]["EXEC"] = true
		case fileCalls[name]:
			// Either a path, or a descriptor of a file in the scratch directory.
			if strings.Contains(rest, dir) || strings.Contains(rest, "/etc/") {
				out[cur]["FILES"] = true
			}
		case name == "chdir" || name == "fchdir":
			out[cur]["MODIFY_SYSTEM_STATE"] = true
		case name == "getpid" || name == "getppid" || name == "getuid" || name == "getgid" || name == "getgroups" || name == "getcwd" || name == "uname":
			out[cur]["READ_SYSTEM_STATE"] = true
		}
	}
	return out
}

func checkC13(r *Run) {
	r.rule = "one evaluation = one exported standard-library operation whose calling function's reported capabilities are compared with the documentation table and with the system calls seen when it runs; non-trivial = distinct operation"
	// Static table.
	type block struct {
		pkgs []string
		want map[string]map[string]string // package → operation → capability
		comp bool
	}
	var blocks []*block
	var cur *block
	for _, l := range strings.Split(apiTable, "\n") {
		f := strings.Fields(l)
		switch {
		case len(f) == 0:
			cur = nil
		case cur == nil:
			cur = &block{pkgs: f, want: map[string]map[string]string{}}
			blocks = append(blocks, cur)
		default:
			if cur.want[f[0]] == nil {
				cur.want[f[0]] = map[string]string{}
			}
			for _, op := range f[2:] {
				cur.want[f[0]][op] = f[1]
			}
		}
	}
	// Computations, in groups.
	nc := r.pick(4, len(computational))
	for i := 0; i < nc; i++ {
		b := &block{comp: true}
		for k := i; k < len(computational); k += nc {
			b.pkgs = append(b.pkgs, computational[k])
		}
		blocks = append(blocks, b)
	}
	all := map[string]bool{}
	for _, b := range blocks {
		for _, p := range b.pkgs {
			all[p] = true
		}
	}
	src, ops, err := loadAPI(sortedKeys(all)...)
	if err != nil {
		r.inconclusive("%v", err)
	}
	by := map[string][]APIOp{}
	for _, o := range ops {
		by[o.Pkg] = append(by[o.Pkg], o)
	}
	r.parallel(len(blocks), 5, func(i int) {
		b := blocks[i]
		files := map[string]string{}
		for k, p := range b.pkgs {
			files[fmt.Sprintf("q%d/ops.go", k)] = src[p]
		}
		s := r.srcSubject(fmt.Sprintf("api%d", i), files, "./...")
		c := &Case{S: s, Name: "builtin"}
		rep, args := r.report(c)
		if rep == nil {
			return
		}
		got := map[string]map[string]bool{}
		for _, e := range rep.CapabilityInfo {
			if got[e.fn()] == nil {
				got[e.fn()] = map[string]bool{}
			}
			got[e.fn()][strings.TrimPrefix(e.Capability, "CAPABILITY_")] = true
		}
		for k, p := range b.pkgs {
			have := map[string]bool{}
			for _, o := range by[p] {
				have[o.Name] = true
			}
			for op := range b.want[p] {
				if !have[op] {
					r.inconclusive("package %s has no operation %s", p, op)
				}
			}
			for _, o := range by[p] {
				g := got[fmt.Sprintf("ex.com/m/q%d.%s", k, o.Fn)]
				if b.comp {
					// Readers, writers and the like may be files.
					if o.Via || o.Pkg == "bufio" || o.String() == "go/types.Eval" {
						continue
					}
					for c := range g {
						if privileged[c] {
							r.Violate("computation/"+o.String(), fmt.Sprintf("a function that only calls %s is reported with %v", o, sortedKeys(g)), map[string]string{"command.txt": strings.Join(args, " "), "op.txt": o.String() + " called by " + o.Fn}, s.Dir)
						}
					}
					r.Count("computational operations", 1)
					r.Eval(o.String())
					continue
				}
				w := b.want[p][o.Name]
				if w == "" {
					continue
				}
				if w == "NONE" {
					for c := range g {
						if privileged[c] {
							r.Violate("computation/"+o.String(), fmt.Sprintf("a function that only calls %s is reported with %v", o, sortedKeys(g)), map[string]string{"command.txt": strings.Join(args, " "), "op.txt": o.String() + " called by " + o.Fn}, s.Dir)
						}
					}
					r.Count("computational operations", 1)
					r.Eval(o.String())
					continue
				}
				if !g[w] {
					r.Violate("table/"+o.String(), fmt.Sprintf("a function that only calls %s is reported with %v, not with %s", o, sortedKeys(g), w), map[string]string{"command.txt": strings.Join(args, " "), "op.txt": o.String() + " called by " + o.Fn}, s.Dir)
				}
				r.Count("privileged operations", 1)
				r.Eval(o.String())
			}
		}
		r.Sample(map[string]any{"packages": b.pkgs, "functions": len(got)})
	})
	// Executed operations.
	groups := execOps()
	strace := r.haveStrace()
	keys := sortedKeys(groups)
	r.parallel(len(keys), 3, func(i int) {
		g := keys[i]
		ops := groups[g]
		s := r.srcSubject("exec-"+g, execProgram(g, ops), "./ops")
		bin := filepath.Join(s.Dir, "prog")
		if b := runCmd(CmdOpt{Dir: s.Dir}, "go", "build", "-o", bin, "./main"); b.Code != 0 {
			r.inconclusive("executed program does not build: %s", clip(b.Err, 2000))
		}
		rep, args := r.report(&Case{S: s, Name: "builtin"})
		if rep == nil {
			return
		}
		got := map[string]map[string]bool{}
		for _, e := range rep.CapabilityInfo {
			if got[e.fn()] == nil {
				got[e.fn()] = map[string]bool{}
			}
			got[e.fn()][strings.TrimPrefix(e.Capability, "CAPABILITY_")] = true
		}
		var seen map[int]map[string]bool
		if strace {
			dir := r.tmp("exec")
			tr := filepath.Join(r.tmp("trace"), "t")
			res := runCmd(CmdOpt{Dir: dir, Timeout: 100 * time.Second, Env: []string{"HOME=" + dir, "TMPDIR=" + dir}}, "strace", "-f", "-y", "-s", "300", "-o", tr, bin, dir)
			text, _ := os.ReadFile(tr)
			if res.Code != 0 {
				r.inconclusive("observed program failed: exit %d %s", res.Code, clip(res.Err, 500))
			}
			seen = observe(string(text), dir)
		}
		for k, o := range ops {
			caps := got[fmt.Sprintf("ex.com/m/ops.Op%d", k)]
			file := map[string]string{"command.txt": strings.Join(args, " "), "op.txt": o.call, "observed.txt": strings.Join(sortedKeys(seen[k]), " ")}
			if o.kind == "" {
				for c := range caps {
					if privileged[c] {
						r.Violate("executed/"+o.call, fmt.Sprintf("computation %s is reported with %v (system calls seen: %v)", o.call, sortedKeys(caps), sortedKeys(seen[k])), file, s.Dir)
					}
				}
				if len(seen[k]) > 0 {
					r.Count("computations with privileged system calls", 1)
				}
				r.Count("computations executed", 1)
				r.Eval("executed " + o.call)
				continue
			}
			if !caps[o.kind] {
				r.Violate("executed/"+o.call, fmt.Sprintf("%s is reported with %v, not with %s (system calls seen: %v)", o.call, sortedKeys(caps), o.kind, sortedKeys(seen[k])), file, s.Dir)
			}
			// System calls seen must be accounted for.  Operations of net also
			// read configuration files, and raw system calls have their own
			// capability.
			for c := range seen[k] {
				ok := caps[c] || caps["SYSTEM_CALLS"] || o.kind == "NETWORK" || o.kind == "EXEC" || o.kind == "READ_SYSTEM_STATE" || o.kind == "FILES" && c == "READ_SYSTEM_STATE" || o.kind == "MODIFY_SYSTEM_STATE"
				if !ok {
					r.Violate("observed/"+o.call, fmt.Sprintf("%s was seen to use %s but is reported with %v", o.call, c, sortedKeys(caps)), file, s.Dir)
				}
			}
			if seen[k][o.kind] {
				r.Count("capabilities confirmed by system calls", 1)
			}
			r.Count("privileged operations executed", 1)
			r.Eval("executed " + o.call)
		}
		r.Sample(map[string]any{"group": g, "operation": ops[len(ops)/2].call, "observed": sortedKeys(seen[len(ops)/2]), "reported": sortedKeys(got[fmt.Sprintf("ex.com/m/ops.Op%d", len(ops)/2)])})
	})
	r.Require("privileged operations", 300)
	r.Require("computational operations", 1000)
	r.Require("privileged operations executed", 80)
	if strace {
		r.Require("capabilities confirmed by system calls", 40)
	}
}
