package world

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"sort"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"simverif/rt"
)

// World is the simulated machine.
type World struct {
	smapsOf  map[uint64]string
	Args     []string
	Env      map[string]string
	Host     string
	Group    *rt.Group // the process under test
	Pid      int
	Exited   bool
	ExitCode int
	ExitSig  syscall.Signal
	ExitAt   time.Duration
	ExitSeq  uint64
	exitQ    rt.WaitQ

	Stdin  *File
	Stdout *File
	Stderr *File

	FS    *Files
	files []*File // descriptors of the process under test

	Programs map[string]*Script
	Procs    []*Proc
	nextPid  int
	PipeCap  int

	handlers []*sigHandler
	ignored  map[syscall.Signal]bool

	// fault rates
	ShortRead  float64
	SinkErr    float64
	SinkShort  float64
	SinkSlow   float64
	SinkStall  time.Duration
	SmapsErr   float64
	StatErr    float64
	ForkErr    float64
	PipeErr    float64
	HostErr    bool
	StdinStat  bool // Stat on stdin fails
	StdinErr   float64
	RollbarErr float64
	// RollbarHang: error reports are never answered
	RollbarHang bool
	SigDropped  int
	// OnExit runs when the process under test ends, in no task.
	OnExit []func()
}

// Node is a file of the simulated file system.
type Node struct {
	Data  []byte
	Mode  fs.FileMode
	Mtime time.Time
	Gen   func() ([]byte, error) // content generated on open
	Link  string                 // a symbolic link to there
	Size  int64                  // how long it says it is, unless zero
}

// Len is the size of a file.
func (n *Node) Len() int64 {
	if n.Size > 0 {
		return n.Size
	}
	return int64(len(n.Data))
}

// W is the current world.
func W() *World {
	if rt.S == nil {
		return nil
	}
	w, _ := rt.S.Local["world"].(*World)
	if w == nil {
		w = New()
	}
	return w
}

// New installs a fresh world in the current simulation.
func New() *World {
	w := &World{Args: []string{"monny"}, Env: map[string]string{"SHELL": "/bin/sh", "HOME": "/home/user"}, Host: "simhost",
		FS: &Files{map[string]*Node{"/": {Mode: fs.ModeDir | 0o755}, Cwd: {Mode: fs.ModeDir | 0o755}, "/tmp": {Mode: fs.ModeDir | 0o1777}}}, Programs: map[string]*Script{}, nextPid: 1000, Pid: 999, PipeCap: 65536,
		ignored: map[syscall.Signal]bool{}, Group: rt.NewGroup("monny")}
	w.Stdin = &File{Nm: "/dev/stdin", kind: kNull, mode: fs.ModeDevice | fs.ModeCharDevice}
	w.Stdout = w.newSink("/dev/stdout")
	w.Stderr = w.newSink("/dev/stderr")
	rt.S.Local["world"] = w
	return w
}

type fkind int

const (
	kNull fkind = iota
	kPipeR
	kPipeW
	kSink
	kMem
	kTTY
)

// Chunk is one write to a recorded stream.
type Chunk struct {
	Data []byte
	At   time.Duration
	Seq  uint64
	By   string
}

// File is an open file description of the process under test.
type File struct {
	Nm     string
	kind   fkind
	pipe   *Pipe
	closed bool
	mode   fs.FileMode
	// sinks
	Chunks   []Chunk
	Tried    []byte // everything that writes were asked to write, failed or not
	WriteErr int    // failed writes
	AfterCl  int    // writes after it was closed
	accepted int
	Torn     int // writes that failed after a prefix
	Closes   int
	Broken   bool // writes fail with EPIPE: nobody reads any more
	BreakAt  int  // becomes so once this many bytes were accepted; 0 never
	// memory files
	node *Node
	data []byte
	off  int
	eof  error
}

func (w *World) newSink(name string) *File {
	return &File{Nm: name, kind: kSink, mode: fs.ModeDevice | fs.ModeCharDevice | 0o620}
}

// PipeStdin makes monny's standard input a pipe and returns it.
func (w *World) PipeStdin(capacity int) *Pipe {
	p := NewPipe("stdin", capacity)
	w.Stdin = &File{Nm: "/dev/stdin", kind: kPipeR, pipe: p, mode: fs.ModeNamedPipe | 0o600}
	return p
}

// TerminalStdin makes monny's standard input a terminal at which nobody types.
func (w *World) TerminalStdin() {
	w.Stdin = &File{Nm: "/dev/tty", kind: kTTY, mode: fs.ModeDevice | fs.ModeCharDevice | 0o620}
}

// FileStdin makes monny's standard input a regular file.
func (w *World) FileStdin(data []byte) {
	w.Stdin = &File{Nm: "/dev/stdin", kind: kMem, node: &Node{Data: data, Mode: 0o644}, mode: 0o644, data: data}
}

// WriteAll writes to a pipe from an environment task.
func (p *Pipe) WriteAll(b []byte) (int, error) { f := false; return p.write(b, &f) }

// ReadSome reads from a pipe from an environment task.
func (p *Pipe) ReadSome(b []byte) (int, error) { f := false; return p.read(b, &f) }

// CloseW closes an environment-held write end.
func (p *Pipe) CloseW() { p.closeWriter() }

// CloseR closes an environment-held read end.
func (p *Pipe) CloseR() { p.closeReader() }

// Bytes is everything a sink accepted, in order.
func (f *File) Bytes() []byte {
	var b []byte
	for _, c := range f.Chunks {
		b = append(b, c.Data...)
	}
	return b
}

// Closed reports whether the process closed it.
func (f *File) Closed() bool { return f.closed }

func (f *File) Read(b []byte) (int, error) {
	switch f.kind {
	case kNull:
		rt.Sync("file.read", unsafe.Pointer(f))
		if f.closed {
			return 0, errClosed
		}
		return 0, io.EOF
	case kTTY:
		rt.BlockForever()
	case kPipeR:
		if w := W(); f == w.Stdin && w.StdinErr > 0 {
			if rt.Fault("stdin-error", w.StdinErr, 1) > 0 {
				return 0, syscall.EIO
			}
		}
		return f.pipe.read(b, &f.closed)
	case kMem:
		rt.Sync("file.read", unsafe.Pointer(f))
		if f.closed {
			return 0, errClosed
		}
		if f.off >= len(f.data) {
			if f.eof != nil {
				return 0, f.eof
			}
			return 0, io.EOF
		}
		n := copy(b, f.data[f.off:])
		f.off += n
		return n, nil
	}
	return 0, syscall.EBADF
}

func (f *File) Write(b []byte) (int, error) {
	switch f.kind {
	case kPipeW:
		return f.pipe.write(b, &f.closed)
	case kSink:
		rt.Sync("sink.write", unsafe.Pointer(f))
		if f.closed {
			f.AfterCl++
			return 0, errClosed
		}
		w := W()
		if d := rt.Fault("slow-sink", w.SinkSlow, 64); d > 0 {
			rt.Sleep(w.SinkStall * time.Duration(d) / 64)
			if f.closed {
				f.AfterCl++
				return 0, errClosed
			}
		}
		f.Tried = append(f.Tried, b...)
		if f.Broken && len(b) > 0 {
			f.WriteErr++
			rt.Stat("fault.broken-pipe")
			rt.Logf("%s: write of %q meets a broken pipe", f.Nm, clip(b))
			return 0, syscall.EPIPE
		}
		if len(b) > 0 {
			if rt.Fault("sink-error", w.SinkErr, 1) > 0 {
				f.WriteErr++
				rt.Logf("%s: write of %q fails", f.Nm, clip(b))
				return 0, syscall.ENOSPC
			}
			if len(b) > 1 {
				if k := rt.Fault("sink-torn", w.SinkShort, 64); k > 0 {
					n := (len(b) - 1) * k / 64
					f.WriteErr++
					f.Torn++
					f.rec(b[:n])
					rt.Logf("%s: write of %q torn after %d", f.Nm, clip(b), n)
					return n, syscall.ENOSPC
				}
			}
		}
		f.rec(b)
		return len(b), nil
	case kNull:
		return len(b), nil
	case kMem:
		rt.Sync("file.write", unsafe.Pointer(f))
		if f.closed {
			return 0, errClosed
		}
		f.node.Data = append(f.node.Data, b...)
		f.node.Mtime = rt.Now()
		return len(b), nil
	}
	return 0, syscall.EBADF
}

func (f *File) rec(b []byte) {
	who := ""
	if c := rt.Cur(); c != nil {
		who = c.Name
	}
	f.accepted += len(b)
	if f.BreakAt > 0 && f.accepted >= f.BreakAt {
		f.Broken = true
	}
	f.Chunks = append(f.Chunks, Chunk{Data: append([]byte{}, b...), At: rt.Elapsed(), Seq: rt.Seq(), By: who})
	rt.Logf("%s <- %q", f.Nm, clip(b))
}

func clip(b []byte) string {
	if len(b) > 60 {
		return string(b[:50]) + fmt.Sprintf("...(%d bytes)", len(b))
	}
	return string(b)
}

// Close closes the descriptor.
func (f *File) Close() error {
	rt.Sync("file.close", unsafe.Pointer(f))
	return f.close()
}

func (f *File) close() error {
	if f.closed {
		return errClosed
	}
	f.closed = true
	f.Closes++
	switch f.kind {
	case kPipeR:
		f.pipe.closeReader()
	case kPipeW:
		f.pipe.closeWriter()
	}
	return nil
}

// Mode is the file's type and permissions.
func (f *File) Mode() fs.FileMode { return f.mode }

// Len is the file's size.
func (f *File) Len() int64 {
	if f.node != nil {
		return int64(len(f.node.Data))
	}
	return 0
}

// Mtime is the modification time.
func (f *File) Mtime() time.Time {
	if f.node != nil {
		return f.node.Mtime
	}
	return time.Time{}
}

// PipeReader/PipeWriter make descriptors of the process under test.
func (w *World) PipeReader(p *Pipe) *File {
	f := &File{Nm: "|0", kind: kPipeR, pipe: p, mode: fs.ModeNamedPipe}
	w.files = append(w.files, f)
	return f
}

func (w *World) PipeWriter(p *Pipe) *File {
	f := &File{Nm: "|1", kind: kPipeW, pipe: p, mode: fs.ModeNamedPipe}
	w.files = append(w.files, f)
	return f
}

// ErrFault is an injected I/O error.
var ErrFault = errors.New("input/output error")

// Open opens a file for the process under test.
func (w *World) Open(path string, flag int) (*File, error) {
	rt.Sync("open", nil)
	if strings.HasPrefix(path, "/proc/") {
		return w.openProc(path)
	}
	n := w.FS.Get(path)
	if n == nil {
		if flag&os.O_CREATE == 0 {
			return nil, syscall.ENOENT
		}
		n = &Node{Mode: 0o644, Mtime: rt.Now()}
		w.FS.Put(path, n)
	}
	if flag&os.O_TRUNC != 0 {
		n.Data = nil
	}
	f := &File{Nm: path, kind: kMem, node: n, mode: n.Mode, data: n.Data}
	if n.Gen != nil {
		b, err := n.Gen()
		if err != nil {
			return nil, err
		}
		f.data = b
	}
	w.files = append(w.files, f)
	return f, nil
}

// Stat looks a path up.
func (w *World) Stat(path string) (*Node, error) {
	rt.Sync("stat", nil)
	if k := rt.Fault("stat-error", w.StatErr, 5); k > 0 {
		return nil, []error{syscall.EIO, syscall.EACCES, syscall.ENOTDIR, syscall.ENAMETOOLONG, syscall.ELOOP}[k-1]
	}
	return w.Follow(path)
}

// Follow looks a path up through symbolic links.
func (w *World) Follow(path string) (*Node, error) {
	return w.FS.walk(path, true)
}

// Lstat looks a path up and does not follow it.
func (w *World) Lstat(path string) (*Node, error) {
	rt.Sync("lstat", nil)
	if k := rt.Fault("stat-error", w.StatErr, 5); k > 0 {
		return nil, []error{syscall.EIO, syscall.EACCES, syscall.ENOTDIR, syscall.ENAMETOOLONG, syscall.ELOOP}[k-1]
	}
	n, err := w.FS.walk(path, false)
	if err != nil {
		return nil, err
	}
	if n.Link != "" {
		return &Node{Data: []byte(n.Link), Mode: fs.ModeSymlink | 0o777, Mtime: n.Mtime}, nil
	}
	return n, nil
}

func (w *World) openProc(path string) (*File, error) {
	var pid int
	var what string
	if _, err := fmt.Sscanf(path, "/proc/%d/%s", &pid, &what); err != nil {
		return nil, syscall.ENOENT
	}
	if rt.Fault("smaps-error", w.SmapsErr, 3) > 0 {
		return nil, syscall.EACCES
	}
	p := w.FindProc(pid)
	if p == nil || p.Reaped {
		return nil, syscall.ENOENT
	}
	f := &File{Nm: path, kind: kMem, node: &Node{}, mode: 0o444}
	switch what {
	case "smaps", "smaps_rollup":
		if !p.Done {
			f.data = []byte(w.smaps(p.Mem))
			if k := rt.Fault("smaps-cut", w.SmapsErr/2, 64); k > 0 {
				f.data = f.data[:len(f.data)*k/80]
				f.eof = syscall.ESRCH
				rt.Logf("smaps of %d: reading fails after %d bytes", pid, len(f.data))
				break
			}
			p.Samples = append(p.Samples, Sample{At: rt.Elapsed(), KB: p.Mem})
			rt.Logf("smaps of %d read: %d kB", pid, p.Mem)
		}
	case "status", "statm", "stat":
		f.data = []byte(fmt.Sprintf("VmRSS: %d kB\n", p.Mem))
	default:
		return nil, syscall.ENOENT
	}
	w.files = append(w.files, f)
	return f, nil
}

func (w *World) smaps(kb uint64) string {
	if w.smapsOf == nil {
		w.smapsOf = map[uint64]string{}
	}
	if w.smapsOf[kb] == "" {
		w.smapsOf[kb] = smaps(kb)
	}
	return w.smapsOf[kb]
}

func smaps(kb uint64) string {
	var b strings.Builder
	parts := []uint64{kb / 2, 0, kb / 3, kb - kb/2 - kb/3}
	if kb%2 == 1 { // many small mappings
		parts = nil
		rest := kb
		for i := uint64(0); i < 40 && rest > 0; i++ {
			n := rest/7 + i%2
			if n > rest || i == 39 {
				n = rest
			}
			parts = append(parts, n)
			rest -= n
		}
	}
	if kb > 1<<32 { // all in one
		parts = []uint64{0, kb}
	}
	if kb%4 == 3 { // so many that there is more to read than a pipe or a page would hold
		parts = nil
		for i := uint64(0); i < 260; i++ {
			parts = append(parts, kb/600)
		}
		parts = append(parts, kb-260*(kb/600))
	}
	names := []string{"/bin/prog", "[heap]", "", "/usr/lib/Pss: 77 kB.so", "[stack]"}
	for i, p := range parts {
		fmt.Fprintf(&b, "%x-%x r-xp 00000000 08:01 %d %s\n", 0x400000*(i+1), 0x400000*(i+1)+4096, 1000+i, names[i%len(names)])
		fmt.Fprintf(&b, "Size:           %8d kB\nKernelPageSize:        4 kB\nMMUPageSize:           4 kB\nRss:            %8d kB\nPss:            %8d kB\nPss_Dirty:      %8d kB\n", p*4+8, p*2, p, p/2)
		fmt.Fprintf(&b, "Shared_Clean:   %8d kB\nAnonymous:      %8d kB\nSwap:           %8d kB\nSwapPss:        %8d kB\nLocked:         %8d kB\nVmFlags: rd ex mr mw me\n", p, p+1, p+5, p+3, p)
	}
	return b.String()
}

// --- the process under test -------------------------------------------------------

// Start runs main as the process under test.
func (w *World) Start(main func()) {
	rt.GoIn(w.Group, "monny", func() {
		main()
		w.Exit(0)
	})
}

// Exit ends the process under test: called from its tasks, it does not return.
func (w *World) Exit(code int) {
	w.end(code, 0)
	rt.KillSelf()
}

func (w *World) end(code int, sig syscall.Signal) {
	if w.Exited {
		return
	}
	w.Exited = true
	w.ExitCode = code
	w.ExitSig = sig
	w.ExitAt = rt.Elapsed()
	w.ExitSeq = rt.Seq()
	w.Group.Kill()
	if sig != 0 {
		rt.Logf("monny killed by %v", sig)
	} else {
		rt.Logf("monny exits %d", code)
	}
	for _, f := range w.files {
		f.close()
	}
	w.Stdin.close()
	for _, f := range w.OnExit {
		f()
	}
	w.exitQ.WakeAll()
}

// WaitExit waits until the process under test has ended, or for d.
func (w *World) WaitExit(d time.Duration) bool {
	if w.Exited {
		return true
	}
	w.exitQ.WaitTimeout("monny exit", d)
	return w.Exited
}

// --- signals -----------------------------------------------------------------------

type sigHandler struct {
	c    chan<- os.Signal
	sigs map[os.Signal]bool
	all  bool
}

// Notify is signal.Notify.
func (w *World) Notify(c chan<- os.Signal, sigs ...os.Signal) {
	rt.Sync("notify", nil)
	var h *sigHandler
	for _, x := range w.handlers {
		if x.c == c {
			h = x
		}
	}
	if h == nil {
		h = &sigHandler{c: c, sigs: map[os.Signal]bool{}}
		w.handlers = append(w.handlers, h)
	}
	if len(sigs) == 0 {
		h.all = true
	}
	for _, s := range sigs {
		h.sigs[s] = true
	}
}

// BrokenStd is what the runtime does when a write to a standard stream meets a
// broken pipe: the process dies of SIGPIPE unless it catches or ignores it. It
// reports whether the process goes on.
func (w *World) BrokenStd() bool {
	if w.ignored[syscall.SIGPIPE] {
		return true
	}
	if w.Handles(syscall.SIGPIPE) {
		for _, h := range w.handlers {
			if h.all || h.sigs[syscall.SIGPIPE] {
				rt.TrySend(h.c, os.Signal(syscall.SIGPIPE))
			}
		}
		return true
	}
	w.end(-1, syscall.SIGPIPE)
	return false
}

// StopNotify is signal.Stop.
func (w *World) StopNotify(c chan<- os.Signal) {
	for i, x := range w.handlers {
		if x.c == c {
			w.handlers = append(w.handlers[:i:i], w.handlers[i+1:]...)
			return
		}
	}
}

// ResetSignals is signal.Reset.
func (w *World) ResetSignals(sigs ...os.Signal) {
	for _, h := range w.handlers {
		if len(sigs) == 0 {
			h.sigs, h.all = map[os.Signal]bool{}, false
		}
		for _, s := range sigs {
			delete(h.sigs, s)
		}
	}
}

// IgnoreSignals is signal.Ignore.
func (w *World) IgnoreSignals(sigs ...os.Signal) {
	w.ResetSignals(sigs...)
	for _, s := range sigs {
		w.ignored[s.(syscall.Signal)] = true
	}
}

// Handles reports whether the process under test catches sig.
func (w *World) Handles(sig syscall.Signal) bool {
	for _, h := range w.handlers {
		if h.all || h.sigs[sig] {
			return true
		}
	}
	return false
}

// Signal delivers a signal to the process under test.
func (w *World) Signal(sig syscall.Signal) {
	if w.Exited {
		return
	}
	rt.Stat("fault.signal")
	rt.Logf("signal %v to monny", sig)
	if sig == syscall.SIGKILL {
		w.end(-1, sig)
		return
	}
	caught := false
	for _, h := range w.handlers {
		if h.all || h.sigs[sig] {
			caught = true
			if !rt.TrySend(h.c, os.Signal(sig)) {
				w.SigDropped++
			}
		}
	}
	if caught || w.ignored[sig] {
		return
	}
	switch sig {
	case syscall.SIGCHLD, syscall.SIGURG, syscall.SIGWINCH, syscall.SIGCONT:
		return
	}
	w.end(-1, sig)
}

// --- child processes ----------------------------------------------------------------

// Op is one step of a scripted program.
type Op struct {
	Kind string // out err sleep mem read readall create remove exit die closeout closeerr closein hold
	Data []byte
	D    time.Duration
	N    int
	Path string
}

// Script is a simulated program.
type Script struct {
	Ops        []Op
	IgnorePipe bool // SIGPIPE ignored: EPIPE is survived
	// OnInt: 0 default (dies), 1 ignored, 2 exits with IntCode after IntDelay
	OnInt    int
	IntCode  int
	IntDelay time.Duration
	Mem      uint64
}

// Sample is one reading of a process's memory.
type Sample struct {
	At time.Duration
	KB uint64
}

// SigRec is a signal a process received.
type SigRec struct {
	Sig syscall.Signal
	At  time.Duration
	By  string
}

// Proc is a simulated process.
type Proc struct {
	Pid     int
	Argv    []string
	Script  *Script
	group   *rt.Group
	Mem     uint64
	MaxMem  uint64
	Done    bool
	Reaped  bool
	Status  syscall.WaitStatus
	DoneAt  time.Duration
	DoneSeq uint64
	StartAt time.Duration
	Signals []SigRec
	Wrote   [2][]byte // bytes accepted by the stream, per stream
	WriteAt [2][]Mark
	Got     []byte // stdin
	GotEOF  bool
	SigPipe bool
	Ops     int // ops completed
	Samples []Sample
	MemLog  []Sample
	out     [2]*Pipe
	outFile [2]*File // stream inherited from the process under test
	outOpen [2]bool
	in      *Pipe
	inOpen  bool
	waitQ   rt.WaitQ
	holders int
}

// Mark is a position in an output stream and when it was reached.
type Mark struct {
	End   int
	Begun time.Duration
	At    time.Duration
}

// FindProc looks a process up by pid.
func (w *World) FindProc(pid int) *Proc {
	for _, p := range w.Procs {
		if p.Pid == pid {
			return p
		}
	}
	return nil
}

// Spawn starts a process with the given streams (nil: /dev/null).
func (w *World) Spawn(argv []string, s *Script, in, out, errp *Pipe) *Proc {
	w.nextPid++
	p := &Proc{Pid: w.nextPid, Argv: argv, Script: s, group: &rt.Group{Name: "child"}, Mem: s.Mem, MaxMem: s.Mem,
		in: in, inOpen: in != nil, out: [2]*Pipe{out, errp}, outOpen: [2]bool{out != nil, errp != nil}, StartAt: rt.Elapsed()}
	p.MemLog = append(p.MemLog, Sample{rt.Elapsed(), s.Mem})
	w.Procs = append(w.Procs, p)
	rt.Logf("process %d starts: %s", p.Pid, strings.Join(argv, " "))
	rt.GoIn(p.group, "child", func() { p.run() })
	return p
}

func (p *Proc) run() {
	for _, op := range p.Script.Ops {
		rt.Sync("child", unsafe.Pointer(p))
		switch op.Kind {
		case "out", "err":
			i := 0
			if op.Kind == "err" {
				i = 1
			}
			if !p.write(i, op.Data) {
				return
			}
		case "sleep":
			rt.Sleep(op.D)
		case "mem":
			p.Mem = uint64(op.N)
			p.MemLog = append(p.MemLog, Sample{rt.Elapsed(), p.Mem})
			if p.Mem > p.MaxMem {
				p.MaxMem = p.Mem
			}
			rt.Logf("process %d memory %d kB", p.Pid, op.N)
		case "read":
			p.read(op.N)
		case "readall":
			for p.read(4096) {
			}
		case "create":
			W().FS.Put(op.Path, &Node{Data: op.Data, Mode: 0o644, Mtime: rt.Now()})
			rt.Logf("process %d creates %s", p.Pid, op.Path)
		case "remove":
			W().FS.Del(op.Path)
		case "closeout":
			p.closeOut(0)
		case "closeerr":
			p.closeOut(1)
		case "closein":
			p.closeIn()
		case "hold":
			p.hold(op.D)
		case "die":
			p.finish(syscall.WaitStatus(op.N))
			return
		case "exit":
			p.finish(syscall.WaitStatus(op.N << 8))
			return
		}
		p.Ops++
	}
	p.finish(0)
}

// hold starts a background grandchild that keeps the output streams open.
func (p *Proc) hold(d time.Duration) {
	for i := range p.out {
		if p.out[i] != nil && p.outOpen[i] {
			p.out[i].AddWriter()
			q := p.out[i]
			p.holders++
			rt.GoEnv("grandchild", func() { rt.Sleep(d); q.closeWriter(); p.holders-- })
		}
	}
}

func (p *Proc) write(i int, b []byte) bool {
	if p.out[i] == nil || !p.outOpen[i] {
		return true
	}
	closed := false
	begun := rt.Elapsed()
	n, err := p.out[i].write(b, &closed)
	p.Wrote[i] = append(p.Wrote[i], b[:n]...)
	p.WriteAt[i] = append(p.WriteAt[i], Mark{len(p.Wrote[i]), begun, rt.Elapsed()})
	if err != nil {
		if err == syscall.EPIPE && !p.Script.IgnorePipe {
			p.SigPipe = true
			p.Signals = append(p.Signals, SigRec{syscall.SIGPIPE, rt.Elapsed(), "kernel"})
			p.finish(syscall.WaitStatus(syscall.SIGPIPE))
			return false
		}
		p.SigPipe = true
	}
	return true
}

func (p *Proc) read(n int) bool {
	if p.in == nil || !p.inOpen {
		p.GotEOF = true
		return false
	}
	b := make([]byte, n)
	closed := false
	k, err := p.in.read(b, &closed)
	p.Got = append(p.Got, b[:k]...)
	if err != nil {
		p.GotEOF = true
		return false
	}
	return true
}

func (p *Proc) closeOut(i int) {
	if p.outOpen[i] {
		p.outOpen[i] = false
		p.out[i].closeWriter()
	}
}

func (p *Proc) closeIn() {
	if p.inOpen {
		p.inOpen = false
		p.in.closeReader()
	}
}

func (p *Proc) finish(st syscall.WaitStatus) {
	if p.Done {
		return
	}
	p.Done = true
	p.Status = st
	p.DoneAt = rt.Elapsed()
	p.DoneSeq = rt.Seq()
	p.Mem = 0
	p.closeOut(0)
	p.closeOut(1)
	p.closeIn()
	rt.Logf("process %d ends, status %#x", p.Pid, uint32(st))
	p.waitQ.WakeAll()
}

// Signal delivers sig to p.
func (p *Proc) Signal(sig syscall.Signal, by string) {
	if p.Done {
		return
	}
	p.Signals = append(p.Signals, SigRec{sig, rt.Elapsed(), by})
	rt.Logf("signal %v to process %d", sig, p.Pid)
	switch {
	case sig == 0:
		return
	case sig == syscall.SIGKILL:
	case sig == syscall.SIGINT || sig == syscall.SIGTERM || sig == syscall.SIGHUP:
		switch p.Script.OnInt {
		case 1:
			return
		case 2:
			p.group.Kill()
			p.group = &rt.Group{Name: "child"}
			rt.GoIn(p.group, "child-handler", func() {
				rt.Sleep(p.Script.IntDelay)
				p.write(0, []byte("interrupted\n"))
				p.finish(syscall.WaitStatus(p.Script.IntCode << 8))
			})
			return
		}
	default:
		return
	}
	p.group.Kill()
	p.finish(syscall.WaitStatus(sig))
}

// Wait waits for the process to end.
func (p *Proc) Wait() syscall.WaitStatus {
	rt.Sync("waitpid", unsafe.Pointer(p))
	for !p.Done {
		p.waitQ.Wait("waitpid")
	}
	p.Reaped = true
	return p.Status
}

// WaitFor waits at most d for the end.
func (p *Proc) WaitFor(d time.Duration) bool {
	if !p.Done {
		p.waitQ.WaitTimeout("child exit", d)
	}
	return p.Done
}

// Lookup finds a program.
func (w *World) Lookup(name string) (*Script, bool) {
	s, ok := w.Programs[name]
	return s, ok
}

// ProgramNames lists programs in order.
func (w *World) ProgramNames() []string {
	var out []string
	for k := range w.Programs {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// SharePipe gives a child the same pipe this descriptor reads from.
func (f *File) SharePipe() *Pipe {
	if f.kind != kPipeR || f.closed {
		return nil
	}
	f.pipe.readers++
	return f.pipe
}
