package kern

import (
	"fmt"
	"os"
	"sort"
	"syscall"
	"unsafe"
	"verifsim/stream"

	"verifsim/rt"
)

const (
	sysCopyFileRange = 326
	sysRenameat2     = 316
	sysStatx         = 332
	sysFaccessat2    = 439
	sysSyncfs        = 306
	sysOpenat2       = 437
	sysFchmodat2     = 452
	atEmptyPath      = 0x1000
	atSymlinkNofol   = 0x100
	atRemovedir      = 0x200
	atSymlinkFollow  = 0x400
)

func (k *Kernel) desc(fd uintptr) (*desc, bool) {
	n := int(int32(fd))
	if n < fdBase {
		return nil, false
	}
	return k.fds[n], true
}

// at resolves the directory argument of an *at call.
func (k *Kernel) at(fd uintptr) (*inode, syscall.Errno) {
	n := int(int32(fd))
	if n == -100 {
		return k.cwd, 0
	}
	d := k.fds[n]
	if d == nil {
		return nil, syscall.EBADF
	}
	return d.ino, 0
}

const atFdcwd = ^uintptr(99) // -100

func (k *Kernel) dispatch(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, errno syscall.Errno, handled bool) {
	switch trap {
	case syscall.SYS_READ, syscall.SYS_WRITE, syscall.SYS_CLOSE, syscall.SYS_LSEEK, syscall.SYS_FSTAT, syscall.SYS_PREAD64,
		syscall.SYS_PWRITE64, syscall.SYS_FSYNC, syscall.SYS_FDATASYNC, syscall.SYS_FTRUNCATE, syscall.SYS_FCHMOD,
		syscall.SYS_FCHOWN, syscall.SYS_FCNTL, syscall.SYS_GETDENTS64, syscall.SYS_FLOCK, syscall.SYS_READV,
		syscall.SYS_WRITEV, syscall.SYS_IOCTL, syscall.SYS_FSTATFS, syscall.SYS_FALLOCATE, syscall.SYS_FCHDIR, sysSyncfs:
		if int(int32(a1)) < fdBase {
			return 0, 0, 0, false // a real descriptor of the simulator's own
		}
		if int(int32(a1))>>16&0xfff != k.gen {
			return 0, 0, 0, true // left over from an earlier run
		}
		if trap == syscall.SYS_CLOSE {
			k.mu.Lock()
			bad := k.fds[int(int32(a1))] == nil
			k.mu.Unlock()
			if bad && k.dead {
				return 0, 0, 0, true
			}
			if bad {
				return 0, 0, syscall.EBADF, true
			}
		}
	case syscall.SYS_FUTEX, syscall.SYS_EPOLL_WAIT, syscall.SYS_EPOLL_PWAIT, syscall.SYS_UNAME,
		syscall.SYS_EPOLL_CTL, syscall.SYS_NANOSLEEP, 318 /* getrandom */, syscall.SYS_MADVISE, syscall.SYS_MMAP, syscall.SYS_MUNMAP,
		syscall.SYS_PRLIMIT64, syscall.SYS_GETRLIMIT, syscall.SYS_SCHED_GETAFFINITY:
		return 0, 0, 0, false
	}
	if trap == syscall.SYS_GETPID {
		return 4242, 0, 0, true
	}
	if k.dead {
		return 0, 0, syscall.EIO, true
	}
	rt.Yield()
	if k.dead {
		return 0, 0, syscall.EIO, true
	}
	k.mu.Lock()
	locked := true
	defer func() {
		if locked {
			k.mu.Unlock()
		}
	}()
	op, path, ret, e := k.call(trap, a1, a2, a3, a4, a5, a6)
	if k.KeepTrace {
		k.Trace = append(k.Trace, Call{Op: op, Path: path, Err: e, Ret: ret})
	}
	k.Log("%s %s %d %d", op, path, ret, int(e))
	k.mu.Unlock()
	locked = false
	if k.AfterCall != nil {
		k.AfterCall(op)
	}
	if e != 0 {
		return ^uintptr(0), 0, e, true
	}
	return uintptr(ret), 0, 0, true
}

// do runs one call under its fault verdict: effect is applied unless the
// verdict is an error or a crash before it.
func (k *Kernel) do(op string, effect func(v verdict) (int, syscall.Errno)) (int, syscall.Errno) {
	v := k.enter(op)
	if v.crash == "before" {
		k.die()
		return 0, syscall.EIO
	}
	if v.errno != 0 && !v.loses {
		return 0, v.errno
	}
	n, e := effect(v)
	if v.crash != "" {
		k.die()
		return 0, syscall.EIO
	}
	if v.errno != 0 {
		return 0, v.errno
	}
	return n, e
}

func (k *Kernel) call(trap, a1, a2, a3, a4, a5, a6 uintptr) (op, path string, ret int, e syscall.Errno) {
	switch trap {
	case syscall.SYS_OPEN:
		return k.open(atFdcwd, cstr(a1), int(a2), uint32(a3))
	case syscall.SYS_CREAT:
		return k.open(atFdcwd, cstr(a1), syscall.O_CREAT|syscall.O_WRONLY|syscall.O_TRUNC, uint32(a2))
	case syscall.SYS_OPENAT:
		return k.open(a1, cstr(a2), int(a3), uint32(a4))
	case sysOpenat2, sysFaccessat2, sysFchmodat2, sysStatx:
		return "other", "", 0, syscall.ENOSYS
	case syscall.SYS_CLOSE:
		d, _ := k.desc(a1)
		path = d.path
		wrote := false
		ret, e = k.do("close", func(v verdict) (int, syscall.Errno) {
			delete(k.fds, int(int32(a1)))
			wrote = d.wrote
			if v.loses && d.wrote && d.ino.kind == kFile && len(d.ino.dirty) > 0 {
				// the write-back that close was waiting for failed: the second
				// half of what this descriptor changed is gone
				if len(d.before) >= len(d.ino.data) {
					d.ino.data = append([]byte(nil), d.before[:len(d.ino.data)]...)
					d.ino.dirty = nil
					return 0, 0
				}
				half := (len(d.before) + len(d.ino.data)) / 2
				if half < len(d.before) {
					half = len(d.before)
				}
				if half >= len(d.ino.data) {
					half = len(d.ino.data) / 2
				}
				d.ino.data = append([]byte(nil), d.ino.data[:half]...)
			}
			return 0, 0
		})
		if wrote {
			ret = 1 // marks it in the trace; callers look at the error only
		}
		return "close", path, ret, e
	case syscall.SYS_READ, syscall.SYS_PREAD64:
		d, _ := k.desc(a1)
		if d == nil {
			return "read", "", 0, syscall.EBADF
		}
		ret, e = k.do("read", func(v verdict) (int, syscall.Errno) {
			if d.ino.isDir() {
				return 0, syscall.EISDIR
			}
			if d.flags&3 == syscall.O_WRONLY {
				return 0, syscall.EBADF
			}
			n := int(a3)
			if n > 0 && v.short >= 0 {
				n = n*v.short/1000 + 1
				if n > int(a3) {
					n = int(a3)
				}
			}
			if k.armed && len(k.ReadCap) > 0 && n > 0 {
				c := stream.Coarse(k.ReadCap[k.readN%len(k.ReadCap)], d.pos, int64(len(d.ino.data)))
				k.readN++
				if c > 0 && c < n {
					n = c
					k.fire("short:read")
				}
			}
			pos := d.pos
			if trap == syscall.SYS_PREAD64 {
				pos = int64(a4)
			}
			if d.ino.kind == kFifo {
				panic(Hang{"read from an empty pipe " + d.path})
			}
			if pos >= int64(len(d.ino.data)) {
				return 0, 0
			}
			c := copy(bytesAt(a2, n), d.ino.data[pos:])
			if trap == syscall.SYS_READ {
				d.pos += int64(c)
			}
			return c, 0
		})
		return "read", d.path, ret, e
	case syscall.SYS_WRITE, syscall.SYS_PWRITE64:
		d, _ := k.desc(a1)
		if d == nil {
			return "write", "", 0, syscall.EBADF
		}
		ret, e = k.do("write", func(v verdict) (int, syscall.Errno) {
			pos := int64(-1)
			if trap == syscall.SYS_PWRITE64 {
				pos = int64(a4)
			}
			return k.write(d, bytesAt(a2, int(a3)), pos, v)
		})
		return "write", d.path, ret, e
	case syscall.SYS_READV, syscall.SYS_WRITEV:
		panic(Unsupported{"readv/writev"})
	case sysCopyFileRange:
		in, ok1 := k.desc(a1)
		out, ok2 := k.desc(a3)
		if !ok1 || !ok2 || in == nil || out == nil || a2 != 0 || a4 != 0 {
			return "copy", "", 0, syscall.EINVAL
		}
		if in.ino.kind != kFile || out.ino.kind != kFile {
			return "copy", out.path, 0, syscall.EINVAL
		}
		ret, e = k.do("copy", func(v verdict) (int, syscall.Errno) {
			if in.pos >= int64(len(in.ino.data)) {
				return 0, 0
			}
			n := int64(a5)
			if rem := int64(len(in.ino.data)) - in.pos; n > rem {
				n = rem
			}
			src := append([]byte(nil), in.ino.data[in.pos:in.pos+n]...)
			c, e := k.write(out, src, -1, v)
			in.pos += int64(c)
			return c, e
		})
		return "copy", out.path, ret, e
	case syscall.SYS_SENDFILE, syscall.SYS_SPLICE, syscall.SYS_TEE:
		return "other", "", 0, syscall.EINVAL
	case syscall.SYS_LSEEK:
		d, _ := k.desc(a1)
		if d == nil {
			return "lseek", "", 0, syscall.EBADF
		}
		ret, e = k.do("lseek", func(verdict) (int, syscall.Errno) {
			if d.ino.kind == kFifo {
				return 0, syscall.ESPIPE
			}
			var base int64
			switch int(a3) {
			case 0:
			case 1:
				base = d.pos
			case 2:
				base = int64(len(d.ino.data))
			default:
				return 0, syscall.EINVAL
			}
			n := base + int64(a2)
			if n < 0 {
				return 0, syscall.EINVAL
			}
			d.pos = n
			if d.ino.isDir() {
				d.names = nil
			}
			return int(n), 0
		})
		return "lseek", d.path, ret, e
	case syscall.SYS_FSTAT:
		d, _ := k.desc(a1)
		if d == nil {
			return "stat", "", 0, syscall.EBADF
		}
		ret, e = k.do("stat", func(verdict) (int, syscall.Errno) {
			k.fill(d.ino, a2)
			return 0, 0
		})
		return "stat", d.path, ret, e
	case syscall.SYS_STAT, syscall.SYS_LSTAT:
		path = cstr(a1)
		return k.stat(k.cwd, path, a2, trap == syscall.SYS_STAT)
	case syscall.SYS_NEWFSTATAT:
		path = cstr(a2)
		if path == "" && a4&atEmptyPath != 0 {
			d, _ := k.desc(a1)
			if d == nil {
				return "stat", "", 0, syscall.EBADF
			}
			ret, e = k.do("stat", func(verdict) (int, syscall.Errno) {
				k.fill(d.ino, a3)
				return 0, 0
			})
			return "stat", d.path, ret, e
		}
		dir, e := k.at(a1)
		if e != 0 {
			return "stat", path, 0, e
		}
		return k.stat(dir, path, a3, a4&atSymlinkNofol == 0)
	case syscall.SYS_MKDIR:
		return k.mkdir(atFdcwd, cstr(a1), uint32(a2))
	case syscall.SYS_MKDIRAT:
		return k.mkdir(a1, cstr(a2), uint32(a3))
	case syscall.SYS_UNLINK:
		return k.unlink(atFdcwd, cstr(a1), false)
	case syscall.SYS_RMDIR:
		return k.unlink(atFdcwd, cstr(a1), true)
	case syscall.SYS_UNLINKAT:
		return k.unlink(a1, cstr(a2), a3&atRemovedir != 0)
	case syscall.SYS_RENAME:
		return k.rename(atFdcwd, cstr(a1), atFdcwd, cstr(a2), 0)
	case syscall.SYS_RENAMEAT:
		return k.rename(a1, cstr(a2), a3, cstr(a4), 0)
	case sysRenameat2:
		return k.rename(a1, cstr(a2), a3, cstr(a4), a5)
	case syscall.SYS_LINK:
		return k.link(atFdcwd, cstr(a1), atFdcwd, cstr(a2), 0)
	case syscall.SYS_LINKAT:
		return k.link(a1, cstr(a2), a3, cstr(a4), a5)
	case syscall.SYS_SYMLINK:
		return k.symlink(cstr(a1), atFdcwd, cstr(a2))
	case syscall.SYS_SYMLINKAT:
		return k.symlink(cstr(a1), a2, cstr(a3))
	case syscall.SYS_READLINK:
		return k.readlink(atFdcwd, cstr(a1), a2, int(a3))
	case syscall.SYS_READLINKAT:
		return k.readlink(a1, cstr(a2), a3, int(a4))
	case syscall.SYS_MKNOD:
		return k.mknod(atFdcwd, cstr(a1), uint32(a2))
	case syscall.SYS_MKNODAT:
		return k.mknod(a1, cstr(a2), uint32(a3))
	case syscall.SYS_FCHMOD:
		d, _ := k.desc(a1)
		if d == nil {
			return "chmod", "", 0, syscall.EBADF
		}
		ret, e = k.do("chmod", func(verdict) (int, syscall.Errno) { return k.chmod(d.ino, d.dir, d.path, uint32(a2)) })
		return "chmod", d.path, ret, e
	case syscall.SYS_CHMOD, syscall.SYS_FCHMODAT:
		dir, mode := k.cwd, uint32(a2)
		path = ""
		if trap == syscall.SYS_CHMOD {
			path = cstr(a1)
		} else {
			if dir, e = k.at(a1); e != 0 {
				return "chmod", "", 0, e
			}
			path, mode = cstr(a2), uint32(a3)
		}
		ret, e = k.do("chmod", func(verdict) (int, syscall.Errno) {
			l, e := k.resolve(dir, path, true)
			if e == 0 && l.ino == nil {
				e = syscall.ENOENT
			}
			if e != 0 {
				return 0, e
			}
			return k.chmod(l.ino, l.dir, path, mode)
		})
		return "chmod", path, ret, e
	case syscall.SYS_CHOWN, syscall.SYS_LCHOWN, syscall.SYS_FCHOWNAT, syscall.SYS_FCHOWN:
		// ownership is not modelled, but changing it is still a mutation
		var l lookup
		follow := trap == syscall.SYS_CHOWN
		switch trap {
		case syscall.SYS_FCHOWN:
			d, _ := k.desc(a1)
			if d == nil {
				return "chown", "", 0, syscall.EBADF
			}
			l = lookup{dir: d.dir, ino: d.ino}
			path = d.path
		case syscall.SYS_FCHOWNAT:
			dir, e := k.at(a1)
			if e != 0 {
				return "chown", "", 0, e
			}
			path = cstr(a2)
			l, e = k.resolve(dir, path, a5&atSymlinkNofol == 0)
			if e != 0 {
				return "chown", path, 0, e
			}
		default:
			path = cstr(a1)
			if l, e = k.resolve(k.cwd, path, follow); e != 0 {
				return "chown", path, 0, e
			}
		}
		if l.ino == nil {
			return "chown", path, 0, syscall.ENOENT
		}
		ret, e = k.do("chown", func(verdict) (int, syscall.Errno) {
			k.mutate("chown", path, l.dir, l.ino)
			return 0, 0
		})
		return "chown", path, ret, e
	case syscall.SYS_UTIMENSAT:
		dir, e := k.at(a1)
		if e != 0 {
			return "utimes", "", 0, e
		}
		path = cstr(a2)
		ret, e = k.do("utimes", func(verdict) (int, syscall.Errno) {
			l, e := k.resolve(dir, path, a4&atSymlinkNofol == 0)
			if e == 0 && l.ino == nil {
				e = syscall.ENOENT
			}
			if e != 0 {
				return 0, e
			}
			k.mutate("utimes", path, l.dir, l.ino)
			return 0, 0
		})
		return "utimes", path, ret, e
	case syscall.SYS_TRUNCATE:
		path = cstr(a1)
		ret, e = k.do("truncate", func(verdict) (int, syscall.Errno) {
			l, e := k.resolve(k.cwd, path, true)
			if e == 0 && l.ino == nil {
				e = syscall.ENOENT
			}
			if e != 0 {
				return 0, e
			}
			return k.truncate(l.ino, l.dir, path, int(a2))
		})
		return "truncate", path, ret, e
	case syscall.SYS_FTRUNCATE:
		d, _ := k.desc(a1)
		if d == nil {
			return "truncate", "", 0, syscall.EBADF
		}
		ret, e = k.do("truncate", func(verdict) (int, syscall.Errno) {
			d.wrote = true
			return k.truncate(d.ino, d.dir, d.path, int(a2))
		})
		return "truncate", d.path, ret, e
	case syscall.SYS_FALLOCATE:
		return "other", "", 0, syscall.EOPNOTSUPP
	case syscall.SYS_FSYNC, syscall.SYS_FDATASYNC, sysSyncfs:
		d, _ := k.desc(a1)
		if d == nil {
			return "fsync", "", 0, syscall.EBADF
		}
		ret, e = k.do("fsync", func(verdict) (int, syscall.Errno) {
			if d.ino.kind == kFifo {
				return 0, syscall.EINVAL
			}
			d.ino.durable = append([]byte(nil), d.ino.data...)
			d.ino.dirty = nil
			k.durableMeta = len(k.meta)
			return 0, 0
		})
		return "fsync", d.path, ret, e
	case syscall.SYS_SYNC:
		ret, e = k.do("fsync", func(verdict) (int, syscall.Errno) {
			k.syncAll()
			return 0, 0
		})
		return "fsync", "", ret, e
	case syscall.SYS_GETDENTS64:
		d, _ := k.desc(a1)
		if d == nil {
			return "getdents", "", 0, syscall.EBADF
		}
		ret, e = k.do("getdents", func(verdict) (int, syscall.Errno) { return k.getdents(d, bytesAt(a2, int(a3))) })
		return "getdents", d.path, ret, e
	case syscall.SYS_FCNTL:
		return "fcntl", "", 0, 0
	case syscall.SYS_IOCTL:
		return "other", "", 0, syscall.ENOTTY
	case syscall.SYS_FLOCK:
		return "other", "", 0, 0
	case syscall.SYS_GETCWD:
		p := k.pathOf(k.cwd) + "\x00"
		if len(p) > int(a2) {
			return "getcwd", "", 0, syscall.ERANGE
		}
		copy(bytesAt(a1, int(a2)), p)
		return "getcwd", "", len(p), 0
	case syscall.SYS_FACCESSAT, syscall.SYS_ACCESS:
		dir := k.cwd
		path = cstr(a1)
		if trap == syscall.SYS_FACCESSAT {
			if dir, e = k.at(a1); e != 0 {
				return "stat", "", 0, e
			}
			path = cstr(a2)
		}
		ret, e = k.do("stat", func(verdict) (int, syscall.Errno) {
			l, e := k.resolve(dir, path, true)
			if e == 0 && l.ino == nil {
				e = syscall.ENOENT
			}
			return 0, e
		})
		return "stat", path, ret, e
	case syscall.SYS_CHDIR, syscall.SYS_FCHDIR:
		dir := k.cwd
		if trap == syscall.SYS_FCHDIR {
			d, _ := k.desc(a1)
			if d == nil {
				return "chdir", "", 0, syscall.EBADF
			}
			dir, path = d.ino, "."
		} else {
			path = cstr(a1)
		}
		ret, e = k.do("chdir", func(verdict) (int, syscall.Errno) {
			l, e := k.resolve(dir, path, true)
			switch {
			case e != 0:
				return 0, e
			case l.ino == nil:
				return 0, syscall.ENOENT
			case !l.ino.isDir():
				return 0, syscall.ENOTDIR
			}
			k.cwd = l.ino
			return 0, 0
		})
		return "chdir", path, ret, e
	case syscall.SYS_UMASK:
		ret, k.umask = int(k.umask), uint32(a1)&0777
		return "umask", "", ret, 0
	case syscall.SYS_SETXATTR, syscall.SYS_LSETXATTR, syscall.SYS_FSETXATTR, syscall.SYS_GETXATTR, syscall.SYS_LGETXATTR,
		syscall.SYS_FGETXATTR, syscall.SYS_STATFS, syscall.SYS_FSTATFS:
		return "other", "", 0, syscall.EOPNOTSUPP
	}
	panic(Unsupported{fmt.Sprintf("system call %d", trap)})
}

// join lets the reader of a pipe show up when it is time.
func (k *Kernel) join(f *fifo) {
	if s := f.sink; !s.joined && k.calls >= s.joinAt {
		s.joined = true
		s.Got = append(s.Got, f.buf...)
		f.buf = nil
	}
}

// reads tells if the process has a pipe open for reading.
func (k *Kernel) reads(ino *inode) bool {
	for _, d := range k.fds {
		if d != nil && d.ino == ino && d.flags&3 != syscall.O_WRONLY {
			return true
		}
	}
	return false
}

func (k *Kernel) write(d *desc, p []byte, pos int64, v verdict) (int, syscall.Errno) {
	if d.flags&3 == syscall.O_RDONLY {
		return 0, syscall.EBADF
	}
	n := len(p)
	if n > 0 && v.short >= 0 {
		n = n*v.short/1000 + 1
		if n > len(p) {
			n = len(p)
		}
	}
	if v.crash == "during" {
		n = n * (v.sel / 3 % 97) / 97
	}
	p = p[:n]
	if d.ino.kind == kFifo {
		f := d.ino.fifo
		if f.sink == nil {
			if len(f.buf)+n > 65536 {
				panic(Hang{"write to a pipe nobody reads: " + d.path})
			}
			f.buf = append(f.buf, p...)
			return n, 0
		}
		s := f.sink
		k.join(f)
		if !s.joined {
			if len(f.buf)+n <= 65536 {
				f.buf = append(f.buf, p...)
				d.wrote = true
				return n, 0
			}
			k.fire("wait:reader")
			s.joinAt = 0
			k.join(f)
		}
		if s.CloseAt >= 0 && len(s.Got) >= s.CloseAt {
			if k.reads(d.ino) {
				// the process keeps the pipe open for reading itself
				if len(f.buf)+n > 65536 {
					panic(Hang{"write to a pipe nobody reads any more: " + d.path})
				}
				f.buf = append(f.buf, p...)
				return n, 0
			}
			k.fire("epipe")
			k.HardFired++
			return 0, syscall.EPIPE
		}
		if len(s.Chunks) > 0 {
			c := s.Chunks[s.n%len(s.Chunks)]
			s.n++
			if c > 0 && c < n {
				n = c
				k.fire("short:write")
			}
		}
		s.Got = append(s.Got, p[:n]...)
		d.wrote = true
		return n, 0
	}
	if d.ino.kind != kFile {
		return 0, syscall.EINVAL
	}
	at := d.pos
	if pos >= 0 {
		at = pos
	} else if d.flags&syscall.O_APPEND != 0 {
		at = int64(len(d.ino.data))
	}
	end := at + int64(n)
	// never change bytes in place: snapshots hold them
	if at == int64(len(d.ino.data)) {
		d.ino.data = append(d.ino.data, p...)
	} else if n > 0 {
		nd := make([]byte, max(int(end), len(d.ino.data)))
		copy(nd, d.ino.data)
		copy(nd[at:], p)
		d.ino.data = nd
	}
	d.ino.dirty = append(d.ino.dirty, extent{off: int(at), data: append([]byte(nil), p...), trun: -1})
	if pos < 0 {
		d.pos = end
	}
	d.wrote = true
	k.mutate("write", d.path, d.dir, d.ino)
	return n, 0
}

func (k *Kernel) truncate(ino, dir *inode, path string, size int) (int, syscall.Errno) {
	if ino.isDir() {
		return 0, syscall.EISDIR
	}
	if ino.kind != kFile || size < 0 {
		return 0, syscall.EINVAL
	}
	nd := make([]byte, size)
	copy(nd, ino.data)
	ino.data = nd
	ino.dirty = append(ino.dirty, extent{trun: size})
	k.mutate("truncate", path, dir, ino)
	return 0, 0
}

func (k *Kernel) chmod(ino, dir *inode, path string, mode uint32) (int, syscall.Errno) {
	old := ino.perm
	ino.perm = mode & 07777
	k.metaChange(func() { ino.perm = old })
	k.mutate("chmod", path, dir, ino)
	return 0, 0
}

func (k *Kernel) open(dfd uintptr, path string, flags int, mode uint32) (string, string, int, syscall.Errno) {
	op := "open"
	if flags&syscall.O_CREAT != 0 {
		op = "creat"
	}
	dir, e := k.at(dfd)
	if e != 0 {
		return op, path, 0, e
	}
	ret, e := k.do(op, func(verdict) (int, syscall.Errno) {
		follow := flags&syscall.O_NOFOLLOW == 0 && !(flags&syscall.O_CREAT != 0 && flags&syscall.O_EXCL != 0)
		l, e := k.resolve(dir, path, follow)
		if e != 0 {
			return 0, e
		}
		if l.ino == nil {
			if flags&syscall.O_CREAT == 0 {
				return 0, syscall.ENOENT
			}
			if l.must {
				return 0, syscall.EISDIR
			}
			ino := k.newInode(kFile, mode&^k.umask)
			d, name := l.dir, l.name
			d.ents[name] = ino
			k.metaChange(func() { delete(d.ents, name) })
			k.mutate("create", path, d, ino)
			l.ino = ino
		} else {
			if flags&syscall.O_CREAT != 0 && flags&syscall.O_EXCL != 0 {
				return 0, syscall.EEXIST
			}
			if l.ino.kind == kLink {
				if flags&0x200000 == 0 { // O_PATH
					return 0, syscall.ELOOP
				}
			}
			if l.ino.isDir() && (flags&3 != syscall.O_RDONLY || flags&syscall.O_CREAT != 0) {
				return 0, syscall.EISDIR
			}
			if (flags&syscall.O_DIRECTORY != 0 || l.must) && !l.ino.isDir() {
				return 0, syscall.ENOTDIR
			}
			if l.ino.kind == kChr || l.ino.kind == kBlk || l.ino.kind == kSock {
				return 0, syscall.ENXIO
			}
			if l.ino.kind == kFifo && flags&3 != syscall.O_RDWR && flags&syscall.O_NONBLOCK == 0 {
				if flags&3 == syscall.O_RDONLY || l.ino.fifo.sink == nil {
					panic(Hang{"open of a pipe with nobody at the other end: " + path})
				}
			}
			if s := (*Sink)(nil); l.ino.kind == kFifo && l.ino.fifo.sink != nil {
				open := false
				for _, d := range k.fds {
					open = open || d != nil && d.ino == l.ino
				}
				s = l.ino.fifo.sink
				if !open {
					l.ino.fifo.buf = nil // gone when the last one closed it
					s.joined = false
					s.joinAt = k.calls + s.Late
				}
				if flags&3 == syscall.O_WRONLY && flags&syscall.O_NONBLOCK == 0 {
					if !s.joined && s.Late > 0 {
						k.fire("wait:reader")
					}
					s.joinAt = 0 // waits for the reader
				}
				k.join(l.ino.fifo)
			}
			if flags&syscall.O_TRUNC != 0 && l.ino.kind == kFile && flags&3 != syscall.O_RDONLY && len(l.ino.data) > 0 {
				k.truncate(l.ino, l.dir, path, 0)
			}
		}
		k.nextFd++
		fd := fdBase | k.gen<<16 + k.nextFd
		k.fds[fd] = &desc{ino: l.ino, dir: l.dir, path: path, flags: flags, before: l.ino.data[:len(l.ino.data):len(l.ino.data)]}
		return fd, 0
	})
	logged := ret
	if e == 0 {
		logged = ret
	}
	return op, path, logged, e
}

func (k *Kernel) fill(ino *inode, out uintptr) {
	st := (*syscall.Stat_t)(ptr(out))
	*st = syscall.Stat_t{}
	st.Dev = 1
	st.Ino = uint64(ino.id)
	st.Nlink = uint64(ino.nlink)
	mode := ino.perm
	switch ino.kind {
	case kFile:
		mode |= syscall.S_IFREG
		st.Size = int64(len(ino.data))
	case kDir:
		mode |= syscall.S_IFDIR
		st.Size = 4096
	case kLink:
		mode |= syscall.S_IFLNK
		st.Size = int64(len(ino.target))
	case kFifo:
		mode |= syscall.S_IFIFO
	case kChr:
		mode |= syscall.S_IFCHR
	case kBlk:
		mode |= syscall.S_IFBLK
	case kSock:
		mode |= syscall.S_IFSOCK
	}
	st.Mode = mode
	st.Blksize = 4096
	st.Blocks = (st.Size + 511) / 512
	st.Mtim.Sec = k.Now / 1e9
}

func (k *Kernel) stat(dir *inode, path string, out uintptr, follow bool) (string, string, int, syscall.Errno) {
	ret, e := k.do("stat", func(verdict) (int, syscall.Errno) {
		l, e := k.resolve(dir, path, follow)
		if e != 0 {
			return 0, e
		}
		if l.ino == nil {
			return 0, syscall.ENOENT
		}
		if l.must && !l.ino.isDir() {
			return 0, syscall.ENOTDIR
		}
		k.fill(l.ino, out)
		return 0, 0
	})
	return "stat", path, ret, e
}

func (k *Kernel) mkdir(dfd uintptr, path string, mode uint32) (string, string, int, syscall.Errno) {
	dir, e := k.at(dfd)
	if e != 0 {
		return "mkdir", path, 0, e
	}
	ret, e := k.do("mkdir", func(verdict) (int, syscall.Errno) {
		l, e := k.resolve(dir, path, false)
		if e != 0 {
			return 0, e
		}
		if l.ino != nil {
			return 0, syscall.EEXIST
		}
		ino := k.newInode(kDir, mode&^k.umask&01777)
		d, name := l.dir, l.name
		ino.parent = d
		d.ents[name] = ino
		d.nlink++
		k.metaChange(func() { delete(d.ents, name); d.nlink-- })
		k.mutate("mkdir", path, d, ino)
		return 0, 0
	})
	return "mkdir", path, ret, e
}

func (k *Kernel) unlink(dfd uintptr, path string, rmdir bool) (string, string, int, syscall.Errno) {
	op := "unlink"
	dir, e := k.at(dfd)
	if e != 0 {
		return op, path, 0, e
	}
	ret, e := k.do(op, func(verdict) (int, syscall.Errno) {
		l, e := k.resolve(dir, path, false)
		if e != 0 {
			return 0, e
		}
		if l.ino == nil {
			return 0, syscall.ENOENT
		}
		if l.name == "" || l.name == "." || l.name == ".." {
			return 0, syscall.EINVAL
		}
		if rmdir {
			if !l.ino.isDir() {
				return 0, syscall.ENOTDIR
			}
			if len(l.ino.ents) > 0 {
				return 0, syscall.ENOTEMPTY
			}
		} else if l.ino.isDir() {
			return 0, syscall.EISDIR
		} else if l.must {
			return 0, syscall.ENOTDIR
		}
		d, name, ino := l.dir, l.name, l.ino
		delete(d.ents, name)
		ino.nlink--
		k.metaChange(func() { d.ents[name] = ino; ino.nlink++ })
		k.mutate(op, path, d, ino)
		return 0, 0
	})
	return op, path, ret, e
}

func (k *Kernel) rename(ofd uintptr, opath string, nfd uintptr, npath string, flags uintptr) (string, string, int, syscall.Errno) {
	od, e := k.at(ofd)
	if e != 0 {
		return "rename", opath, 0, e
	}
	nd, e := k.at(nfd)
	if e != 0 {
		return "rename", npath, 0, e
	}
	ret, e := k.do("rename", func(verdict) (int, syscall.Errno) {
		if flags&^1 != 0 {
			return 0, syscall.EINVAL
		}
		o, e := k.resolve(od, opath, false)
		if e != 0 {
			return 0, e
		}
		n, e := k.resolve(nd, npath, false)
		if e != 0 {
			return 0, e
		}
		if o.ino == nil {
			return 0, syscall.ENOENT
		}
		if o.name == "" || n.name == "" || o.name == ".." || n.name == ".." || o.name == "." || n.name == "." {
			return 0, syscall.EBUSY
		}
		if n.ino != nil {
			if flags&1 != 0 {
				return 0, syscall.EEXIST
			}
			if n.ino == o.ino {
				return 0, 0
			}
			if n.ino.isDir() && !o.ino.isDir() {
				return 0, syscall.EISDIR
			}
			if !n.ino.isDir() && o.ino.isDir() {
				return 0, syscall.ENOTDIR
			}
			if n.ino.isDir() && len(n.ino.ents) > 0 {
				return 0, syscall.ENOTEMPTY
			}
		} else if n.must && !o.ino.isDir() {
			return 0, syscall.ENOTDIR
		}
		if o.ino.isDir() && within(n.dir, o.ino) {
			return 0, syscall.EINVAL
		}
		ino, over := o.ino, n.ino
		delete(o.dir.ents, o.name)
		n.dir.ents[n.name] = ino
		if over != nil {
			over.nlink--
		}
		oldParent := ino.parent
		if ino.isDir() {
			ino.parent = n.dir
		}
		k.metaChange(func() {
			if over != nil {
				n.dir.ents[n.name] = over
				over.nlink++
			} else {
				delete(n.dir.ents, n.name)
			}
			o.dir.ents[o.name] = ino
			ino.parent = oldParent
		})
		k.mutate("rename-from", opath, o.dir, ino)
		k.mutate("rename-to", npath, n.dir, ino)
		return 0, 0
	})
	return "rename", opath + " " + npath, ret, e
}

func (k *Kernel) link(ofd uintptr, opath string, nfd uintptr, npath string, flags uintptr) (string, string, int, syscall.Errno) {
	od, e := k.at(ofd)
	if e != 0 {
		return "link", opath, 0, e
	}
	nd, e := k.at(nfd)
	if e != 0 {
		return "link", npath, 0, e
	}
	ret, e := k.do("link", func(verdict) (int, syscall.Errno) {
		o, e := k.resolve(od, opath, flags&atSymlinkFollow != 0)
		if e != 0 {
			return 0, e
		}
		if o.ino == nil {
			return 0, syscall.ENOENT
		}
		n, e := k.resolve(nd, npath, false)
		if e != 0 {
			return 0, e
		}
		if n.ino != nil {
			return 0, syscall.EEXIST
		}
		if o.ino.isDir() {
			return 0, syscall.EPERM
		}
		if n.must {
			return 0, syscall.ENOENT
		}
		ino, d, name := o.ino, n.dir, n.name
		d.ents[name] = ino
		ino.nlink++
		k.metaChange(func() { delete(d.ents, name); ino.nlink-- })
		k.mutate("link", npath, d, ino)
		return 0, 0
	})
	return "link", opath + " " + npath, ret, e
}

func (k *Kernel) symlink(target string, dfd uintptr, path string) (string, string, int, syscall.Errno) {
	dir, e := k.at(dfd)
	if e != 0 {
		return "symlink", path, 0, e
	}
	ret, e := k.do("symlink", func(verdict) (int, syscall.Errno) {
		if target == "" {
			return 0, syscall.ENOENT
		}
		if len(target) >= 4096 {
			return 0, syscall.ENAMETOOLONG
		}
		l, e := k.resolve(dir, path, false)
		if e != 0 {
			return 0, e
		}
		if l.ino != nil {
			return 0, syscall.EEXIST
		}
		if l.must {
			return 0, syscall.ENOENT
		}
		ino := k.newInode(kLink, 0777)
		ino.target = target
		d, name := l.dir, l.name
		d.ents[name] = ino
		k.metaChange(func() { delete(d.ents, name) })
		k.mutate("symlink", path, d, ino)
		return 0, 0
	})
	return "symlink", path, ret, e
}

func (k *Kernel) readlink(dfd uintptr, path string, buf uintptr, n int) (string, string, int, syscall.Errno) {
	dir, e := k.at(dfd)
	if e != 0 {
		return "readlink", path, 0, e
	}
	ret, e := k.do("readlink", func(verdict) (int, syscall.Errno) {
		l, e := k.resolve(dir, path, false)
		if e != 0 {
			return 0, e
		}
		if l.ino == nil {
			return 0, syscall.ENOENT
		}
		if l.ino.kind != kLink {
			return 0, syscall.EINVAL
		}
		return copy(bytesAt(buf, n), l.ino.target), 0
	})
	return "readlink", path, ret, e
}

func (k *Kernel) mknod(dfd uintptr, path string, mode uint32) (string, string, int, syscall.Errno) {
	dir, e := k.at(dfd)
	if e != 0 {
		return "mknod", path, 0, e
	}
	ret, e := k.do("mknod", func(verdict) (int, syscall.Errno) {
		l, e := k.resolve(dir, path, false)
		if e != 0 {
			return 0, e
		}
		if l.ino != nil {
			return 0, syscall.EEXIST
		}
		if l.must {
			return 0, syscall.ENOENT
		}
		kd := kFile
		switch mode & syscall.S_IFMT {
		case syscall.S_IFIFO:
			kd = kFifo
		case syscall.S_IFCHR:
			kd = kChr
		case syscall.S_IFBLK:
			kd = kBlk
		case syscall.S_IFSOCK:
			kd = kSock
		}
		ino := k.newInode(kd, mode&^k.umask&07777)
		d, name := l.dir, l.name
		d.ents[name] = ino
		k.metaChange(func() { delete(d.ents, name) })
		k.mutate("mknod", path, d, ino)
		return 0, 0
	})
	return "mknod", path, ret, e
}

func (k *Kernel) getdents(d *desc, buf []byte) (int, syscall.Errno) {
	if !d.ino.isDir() {
		return 0, syscall.ENOTDIR
	}
	if d.names == nil {
		d.names = append([]string{".", ".."}, d.ino.names()...)
		d.pos = 0
	}
	n := 0
	for int(d.pos) < len(d.names) {
		name := d.names[d.pos]
		reclen := (19 + len(name) + 1 + 7) &^ 7
		if n+reclen > len(buf) {
			if n == 0 {
				return 0, syscall.EINVAL
			}
			break
		}
		ino := d.ino
		if name == ".." {
			ino = d.ino.parent
		} else if name != "." {
			ino = d.ino.ents[name]
			if ino == nil {
				d.pos++
				continue
			}
		}
		typ := [...]byte{8, 4, 10, 1, 2, 6, 12}[ino.kind]
		*(*uint64)(unsafe.Pointer(&buf[n])) = uint64(ino.id)
		*(*uint64)(unsafe.Pointer(&buf[n+8])) = uint64(d.pos + 1)
		*(*uint16)(unsafe.Pointer(&buf[n+16])) = uint16(reclen)
		buf[n+18] = typ
		copy(buf[n+19:], name)
		for i := n + 19 + len(name); i < n+reclen; i++ {
			buf[i] = 0
		}
		n += reclen
		d.pos++
	}
	return n, 0
}

func (k *Kernel) pathOf(d *inode) string {
	if d.parent == d {
		return "/"
	}
	p := k.pathOf(d.parent)
	if p != "/" {
		p += "/"
	}
	for n, c := range d.parent.ents {
		if c == d {
			return p + n
		}
	}
	return p + "(deleted)"
}

func (k *Kernel) each(f func(*inode)) {
	seen := map[*inode]bool{}
	var rec func(*inode)
	rec = func(d *inode) {
		if seen[d] {
			return
		}
		seen[d] = true
		f(d)
		for _, n := range d.names() {
			rec(d.ents[n])
		}
	}
	rec(k.root)
}

func (k *Kernel) syncAll() {
	k.each(func(ino *inode) {
		if ino.kind == kFile {
			ino.durable = append([]byte(nil), ino.data...)
			ino.dirty = nil
		}
	})
	k.durableMeta = len(k.meta)
}

// SyncAll makes everything durable, as before the run started.
func (k *Kernel) SyncAll() {
	k.syncAll()
	k.meta = nil
	k.durableMeta = 0
}

// PowerLoss drops what was not durable: some suffix of the directory changes
// since the last sync, and an arbitrary part of the unsynced file data.
func (k *Kernel) PowerLoss(seed uint64) {
	next := func(n int) int {
		seed += 0x9e3779b97f4a7c15
		z := seed
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
		z = (z ^ (z >> 27)) * 0x94d049bb133111eb
		z ^= z >> 31
		return int(z % uint64(n))
	}
	cut := k.durableMeta + next(len(k.meta)-k.durableMeta+1)
	for i := len(k.meta) - 1; i >= cut; i-- {
		k.meta[i].undo()
	}
	k.meta = nil
	k.durableMeta = 0
	k.fds = map[int]*desc{}
	var files []*inode
	k.each(func(ino *inode) {
		if ino.kind == kFile {
			files = append(files, ino)
		}
	})
	sort.Slice(files, func(i, j int) bool { return files[i].id < files[j].id })
	for _, ino := range files {
		if len(ino.dirty) == 0 {
			continue
		}
		data := append([]byte(nil), ino.durable...)
		p := next(len(ino.dirty) + 1)
		for _, x := range ino.dirty[:p] {
			if x.trun >= 0 {
				nd := make([]byte, x.trun)
				copy(nd, data)
				data = nd
				continue
			}
			if end := x.off + len(x.data); end > len(data) {
				data = append(data, make([]byte, end-len(data))...)
			}
			for b := 0; b < len(x.data); b += 512 {
				e := min(b+512, len(x.data))
				if next(4) != 0 {
					copy(data[x.off+b:], x.data[b:e])
				}
			}
		}
		ino.data = data
		ino.durable = append([]byte(nil), data...)
		ino.dirty = nil
	}
}

// OpenReal opens a file of this machine the way a caller would.
func (k *Kernel) OpenReal(path string) (*os.File, error) { return os.Open(path) }
