package kern

import (
	"fmt"
	"hash/fnv"
	"os"
	"sync"
	"syscall"
	"time"
	"unsafe"

	"verifsim/rt"
)

// Fault is one planned fault. At counts system calls from the moment the
// kernel was armed (or calls of kind Op, when set), from 1.
type Fault struct {
	At   int    `json:"at"`
	Op   string `json:"op,omitempty"`
	Kind string `json:"kind"` // err, short, eintr, crash, power, full
	Sel  int    `json:"sel,omitempty"`
}

// Mutation is one change to the file system made by the code under test.
type Mutation struct {
	Op   string
	Path string
	Dir  int // directory whose entry (or whose file) is changed
	Ino  int
	dir  *inode
}

// Call is one traced system call.
type Call struct {
	Op   string
	Path string
	Err  syscall.Errno
	Ret  int
}

type desc struct {
	ino    *inode
	dir    *inode
	path   string
	pos    int64
	flags  int
	wrote  bool
	before []byte // contents when opened, for lost write-back at close
	names  []string
}

// Unsupported is the panic value for a system call the kernel does not model.
type Unsupported struct{ What string }

// Hang is the panic value for a call that would block for ever.
type Hang struct{ What string }

type metaOp struct{ undo func() }

// Kernel is one simulated machine.
type Kernel struct {
	mu      sync.Mutex
	root    *inode
	cwd     *inode
	home    *inode // the working directory that processes start in
	mask    uint32 // and their umask
	nextIno int
	nextFd  int
	gen     int
	fds     map[int]*desc
	umask   uint32

	// faults
	armed   bool
	Faults  []Fault
	calls   int
	opCalls map[string]int
	full    bool
	dead    bool
	Crashed bool
	ReadCap []int // sizes of successive reads, cyclic
	readN   int

	// clock
	Now    int64
	Tick   int64
	jumps  map[int]int64 // reading of the clock -> change just before it
	looks  int
	lo, hi int64

	// observation
	Trace     []Call
	KeepTrace bool
	hash      uint64
	Fired     map[string]int
	HardFired int
	OnMutate  func(Mutation)
	AfterCall func(op string)
	inHook    bool

	meta        []metaOp
	durableMeta int
	stdout      *os.File
}

const fdBase = 0x10000000

var generation int

// New makes an empty machine.
func New() *Kernel {
	generation++
	k := &Kernel{gen: generation & 0xfff, fds: map[int]*desc{}, opCalls: map[string]int{}, Fired: map[string]int{},
		umask: 022, Now: 1_500_000_000_000_000_000, Tick: 20_000, hash: 14695981039346656037}
	k.root = k.newInode(kDir, 0755)
	k.root.parent = k.root
	k.cwd, k.home, k.mask = k.root, k.root, k.umask
	return k
}

// current is the machine whose kernel serves this process's system calls.
var current *Kernel

func init() {
	// settle process-wide lazy state before any run
	_ = time.Now().Local().String()
	_ = time.Local.String()
	syscall.SimHook = hook
}

// Boot makes k the running kernel.
func (k *Kernel) Boot() {
	current = k
	time.SimNow = func() (int64, int64) {
		k.look()
		return k.Now / 1e9, k.Now % 1e9
	}
}

// WatchClock starts recording the interval the wall clock moves in. The clock
// jumps by the given amounts just before it is read for the n'th time.
func (k *Kernel) WatchClock(jumps map[int]int64) {
	k.jumps, k.looks = jumps, 0
	k.lo, k.hi = k.Now, k.Now
}

// ClockSeen returns the interval since WatchClock.
func (k *Kernel) ClockSeen() (int64, int64) {
	return min(k.lo, k.Now), max(k.hi, k.Now)
}

func (k *Kernel) look() {
	k.looks++
	if by, ok := k.jumps[k.looks]; ok {
		k.fire("clock-jump")
		k.lo, k.hi = min(k.lo, k.Now), max(k.hi, k.Now)
		k.Now += by
	}
	k.lo, k.hi = min(k.lo, k.Now), max(k.hi, k.Now)
}

// Halt gives the process back to the real kernel.
func (k *Kernel) Halt() {
	current = nil
	time.SimNow = nil
}

// Arm starts counting calls for the fault plan.
func (k *Kernel) Arm() {
	k.armed = true
	k.calls = 0
	k.opCalls = map[string]int{}
}

// Disarm stops fault injection (and brings a killed machine back).
func (k *Kernel) Disarm() {
	k.armed = false
	k.dead = false
	k.full = false
}

// Restart is a process restart: descriptors are gone, the disk remains.
func (k *Kernel) Restart() {
	k.Disarm()
	k.fds = map[int]*desc{}
	k.cwd, k.umask = k.home, k.mask
}

// Moved says what the process has changed about itself: where it works, or the
// mode of the files it makes.
func (k *Kernel) Moved() string {
	switch {
	case k.cwd != k.home:
		return "the working directory is " + k.pathOf(k.cwd) + ", not " + k.pathOf(k.home)
	case k.umask != k.mask:
		return fmt.Sprintf("the umask is %03o, not %03o", k.umask, k.mask)
	}
	return ""
}

// Chdir sets the working directory.
func (k *Kernel) Chdir(path string) {
	l, e := k.resolve(k.root, path, true)
	if e != 0 || l.ino == nil || !l.ino.isDir() {
		panic("kern: chdir " + path)
	}
	k.cwd, k.home = l.ino, l.ino
}

// SetUmask sets the file creation mask.
func (k *Kernel) SetUmask(m uint32) { k.umask, k.mask = m, m }

// Calls returns the number of calls since Arm.
func (k *Kernel) Calls() int { return k.calls }

// OpenFds lists the paths of open descriptors.
func (k *Kernel) OpenFds() []string {
	var out []string
	for fd := fdBase | k.gen<<16; fd <= fdBase|k.gen<<16+k.nextFd; fd++ {
		if d := k.fds[fd]; d != nil {
			out = append(out, d.path)
		}
	}
	return out
}

// Log mixes an event into the run's hash.
func (k *Kernel) Log(format string, a ...any) {
	h := fnv.New64a()
	fmt.Fprintf(h, format, a...)
	k.hash = (k.hash ^ h.Sum64()) * 1099511628211
}

// Hash identifies the sequence of events so far.
func (k *Kernel) Hash() uint64 { return k.hash }

// Inside reports whether a mutation happened in the directory (by inode
// number) or below it.
func (k *Kernel) Inside(m Mutation, ino int) bool {
	for d := m.dir; d != nil; d = d.parent {
		if d.id == ino {
			return true
		}
		if d.parent == d {
			break
		}
	}
	return false
}

func (k *Kernel) mutate(op, path string, dir, ino *inode) {
	m := Mutation{Op: op, Path: path, dir: dir}
	if dir != nil {
		m.Dir = dir.id
	}
	if ino != nil {
		m.Ino = ino.id
	}
	if k.OnMutate != nil {
		k.OnMutate(m)
	}
}

func (k *Kernel) metaChange(undo func()) {
	k.meta = append(k.meta, metaOp{undo})
}

var errnos = map[string][]syscall.Errno{
	"open":     {syscall.EMFILE, syscall.EACCES, syscall.EIO, syscall.ENOMEM},
	"creat":    {syscall.ENOSPC, syscall.EMFILE, syscall.EACCES, syscall.EROFS, syscall.EDQUOT, syscall.EIO},
	"read":     {syscall.EIO},
	"write":    {syscall.ENOSPC, syscall.EIO, syscall.EDQUOT, syscall.EFBIG},
	"close":    {syscall.EIO, syscall.ENOSPC, syscall.EDQUOT},
	"stat":     {syscall.EIO, syscall.EACCES, syscall.ENOMEM},
	"mkdir":    {syscall.ENOSPC, syscall.EACCES, syscall.EROFS, syscall.EMLINK, syscall.EDQUOT},
	"unlink":   {syscall.EPERM, syscall.EROFS, syscall.EBUSY, syscall.EIO},
	"rename":   {syscall.ENOSPC, syscall.EACCES, syscall.EIO, syscall.EROFS},
	"link":     {syscall.EMLINK, syscall.ENOSPC, syscall.EPERM, syscall.EACCES},
	"symlink":  {syscall.ENOSPC, syscall.EACCES, syscall.EROFS, syscall.EDQUOT},
	"mknod":    {syscall.ENOSPC, syscall.EPERM, syscall.EACCES},
	"chmod":    {syscall.EPERM, syscall.EROFS, syscall.EIO},
	"chown":    {syscall.EPERM, syscall.EIO},
	"utimes":   {syscall.EPERM, syscall.EIO},
	"fsync":    {syscall.EIO, syscall.ENOSPC},
	"truncate": {syscall.EIO, syscall.ENOSPC},
	"readlink": {syscall.EIO, syscall.EACCES},
	"getdents": {syscall.EIO},
	"copy":     {syscall.ENOSPC, syscall.EIO, syscall.EDQUOT},
}

// what a full disk refuses
var needsSpace = map[string]bool{"creat": true, "write": true, "mkdir": true, "symlink": true, "mknod": true, "copy": true, "link": true}

// CanFail reports whether calls of this kind have an error to inject.
func CanFail(op string) bool { return len(errnos[op]) > 0 }

type verdict struct {
	errno syscall.Errno // fail before any effect
	short int           // >=0: transfer at most this many bytes (per mille of request)
	crash string        // die: "before", "after", "during"
	sel   int
	loses bool
}

// enter counts a call and looks up the fault planned for it.
func (k *Kernel) enter(op string) verdict {
	v := verdict{short: -1}
	k.Now += k.Tick
	if !k.armed {
		return v
	}
	k.calls++
	k.opCalls[op]++
	for _, f := range k.Faults {
		if f.Op != "" && (f.Op != op || f.At != k.opCalls[op]) || f.Op == "" && f.At != k.calls {
			continue
		}
		sel := f.Sel
		if sel < 0 {
			sel = -sel
		}
		switch f.Kind {
		case "err":
			if list := errnos[op]; len(list) > 0 {
				v.errno = list[sel%len(list)]
				v.loses = op == "close"
				k.fire("errno:" + op)
				k.HardFired++
			}
		case "full":
			k.full = true
			k.fire("disk-full")
		case "eintr":
			switch op {
			case "open", "creat", "read", "write":
				v.errno = syscall.EINTR
				k.fire("eintr:" + op)
			}
		case "short":
			switch op {
			case "read", "write", "copy":
				v.short = sel % 1000
				k.fire("short:" + op)
			}
		case "crash", "power":
			v.sel = sel
			v.crash = "before"
			if op == "write" || op == "copy" {
				v.crash = [...]string{"before", "during", "after"}[sel%3]
			} else if sel%2 == 1 {
				v.crash = "after"
			}
			k.fire(f.Kind + ":" + op)
		}
	}
	if k.full && needsSpace[op] && v.errno == 0 {
		v.errno = syscall.ENOSPC
		k.HardFired++
	}
	return v
}

func (k *Kernel) fire(what string) { k.Fired[what]++ }

func (k *Kernel) die() {
	k.dead = true
	k.Crashed = true
	rt.Kill()
	if rt.Foreign() {
		return
	}
	panic(rt.Crashed{})
}

func ptr(a uintptr) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&a)) }

func cstr(a uintptr) string {
	if a == 0 {
		return ""
	}
	p := (*byte)(ptr(a))
	n := 0
	for *(*byte)(unsafe.Add(unsafe.Pointer(p), n)) != 0 {
		n++
	}
	return string(unsafe.Slice(p, n))
}

func bytesAt(a uintptr, n int) []byte {
	if n == 0 {
		return nil
	}
	return unsafe.Slice((*byte)(ptr(a)), n)
}

func hook(trap, a1, a2, a3, a4, a5, a6 uintptr) (uintptr, uintptr, syscall.Errno, bool) {
	k := current
	if k == nil {
		if fd := int(int32(a1)); fd >= fdBase && trap == syscall.SYS_CLOSE {
			return 0, 0, 0, true
		}
		return 0, 0, 0, false
	}
	return k.dispatch(trap, a1, a2, a3, a4, a5, a6)
}
