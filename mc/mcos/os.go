// Package mcos stands in for the file system and mapping calls of
// instrumented code: every call is a scheduling point, may be made to fail,
// is kept inside the scratch directory and is reported to the observer.
package mcos

import (
	"io/fs"
	"os"
	"path/filepath"
	"strings"
	"syscall"

	mmap "github.com/edsrzf/mmap-go"

	"verif/mc"
)

// Root confines every modifying call while an execution is running.
var Root string

// Escapes counts modifying calls refused because they left Root.
var Escapes []string

func abs(p string) string {
	a, err := filepath.Abs(p)
	if err != nil {
		return p
	}
	return a
}

func outside(p string) bool {
	if Root == "" {
		return false
	}
	a := abs(p)
	return !strings.HasPrefix(a, Root+"/")
}

// begin is called before an operation. It returns the index of the injected
// fault (0: none).
func begin(op, path string, nfaults int, modifies bool) (int, error) {
	if modifies && outside(path) {
		Escapes = append(Escapes, op+" "+path)
		return 0, &os.PathError{Op: op, Path: path, Err: syscall.EPERM}
	}
	x := mc.X
	if x == nil {
		return 0, nil
	}
	x.SyncPoint(op, nil)
	x.Order(x.FSObj(), mc.HashString(op+path))
	if x.Cfg.Faults && nfaults > 0 {
		f := x.Choose(mc.KEnv, nfaults+1)
		if f > 0 {
			x.EnvUsed++
			x.EnvLog = append(x.EnvLog, op+" "+filepath.Base(path)+" fails")
			return f, nil
		}
	}
	return 0, nil
}

// Errno is the error of injected faults.
var Errno = syscall.EIO

func eio(op, path string) error { return &os.PathError{Op: op, Path: path, Err: Errno} }

func call1(op, path string, modifies bool, f func() error) error {
	k, err := begin(op, path, 1, modifies)
	if err != nil {
		return err
	}
	if k > 0 {
		return eio(op, path)
	}
	err = f()
	if modifies {
		mc.Dirty()
	}
	return err
}

// Pid is what instrumented code takes for its process identifier: one of the
// largest there are, as that of a real run is mostly small.
const Pid = 0x3ff1c7

func Getpid() int { return Pid }

func Stat(name string) (fi fs.FileInfo, err error) {
	// a failing Stat is not a failed step: callers treat it as absence
	if _, err := begin("stat", name, 0, false); err != nil {
		return nil, err
	}
	return os.Stat(name)
}

func Lstat(name string) (fi fs.FileInfo, err error) {
	if _, err := begin("lstat", name, 0, false); err != nil {
		return nil, err
	}
	return os.Lstat(name)
}

func Remove(name string) error {
	return call1("remove", name, true, func() error { return os.Remove(name) })
}
func RemoveAll(name string) error {
	return call1("removeall", name, true, func() error { return os.RemoveAll(name) })
}
func Mkdir(name string, p fs.FileMode) error {
	return call1("mkdir", name, true, func() error { return os.Mkdir(name, p) })
}
func MkdirAll(name string, p fs.FileMode) error {
	return call1("mkdir", filepath.Join(name, "."), !exists(name), func() error { return os.MkdirAll(name, p) })
}
func exists(n string) bool { _, err := os.Stat(n); return err == nil }

func Rename(a, b string) error {
	if outside(b) {
		_, err := begin("rename", b, 0, true)
		return err
	}
	return call1("rename", a, true, func() error { return os.Rename(a, b) })
}
func Link(a, b string) error {
	return call1("link", b, true, func() error { return os.Link(a, b) })
}
func Symlink(a, b string) error {
	return call1("symlink", b, true, func() error { return os.Symlink(a, b) })
}
func Truncate(n string, size int64) error {
	return call1("truncate", n, true, func() error { return os.Truncate(n, size) })
}
func Chmod(n string, m fs.FileMode) error {
	return call1("chmod", n, true, func() error { return os.Chmod(n, m) })
}
func ReadFile(n string) (b []byte, err error) {
	err = call1("read", n, false, func() error { b, err = os.ReadFile(n); return err })
	return
}
func WriteFile(n string, b []byte, m fs.FileMode) error {
	return call1("write", n, true, func() error { return os.WriteFile(n, b, m) })
}

func OpenFile(name string, flag int, perm fs.FileMode) (*os.File, error) {
	k, err := begin("open", name, 1, flag&(os.O_CREATE|os.O_RDWR|os.O_WRONLY|os.O_TRUNC) != 0)
	if err != nil {
		return nil, err
	}
	if k > 0 {
		return nil, eio("open", name)
	}
	f, err := os.OpenFile(name, flag, perm)
	if err == nil && mc.X != nil {
		mc.X.Opened(f, name)
		mc.Dirty()
	}
	return f, err
}
func Open(name string) (*os.File, error) { return OpenFile(name, os.O_RDONLY, 0) }
func Create(name string) (*os.File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}
func CreateTemp(dir, pat string) (*os.File, error) {
	k, err := begin("open", filepath.Join(dir, pat), 1, true)
	if err != nil {
		return nil, err
	}
	if k > 0 {
		return nil, eio("open", pat)
	}
	f, err := os.CreateTemp(dir, pat)
	if err == nil && mc.X != nil {
		mc.X.Opened(f, f.Name())
		mc.Dirty()
	}
	return f, err
}

func FWrite(f *os.File, b []byte) (int, error) {
	k, err := begin("write", f.Name(), 2, false)
	if err != nil {
		return 0, err
	}
	switch k {
	case 1:
		return 0, &os.PathError{Op: "write", Path: f.Name(), Err: syscall.ENOSPC}
	case 2:
		n, _ := f.Write(b[:len(b)/2])
		mc.Dirty()
		return n, &os.PathError{Op: "write", Path: f.Name(), Err: syscall.ENOSPC}
	}
	n, err := f.Write(b)
	mc.Dirty()
	return n, err
}
func FWriteString(f *os.File, s string) (int, error) { return FWrite(f, []byte(s)) }
func FWriteAt(f *os.File, b []byte, off int64) (n int, err error) {
	err = call1("write", f.Name(), false, func() error { n, err = f.WriteAt(b, off); return err })
	mc.Dirty()
	return
}
func FTruncate(f *os.File, size int64) error {
	err := call1("truncate", f.Name(), false, func() error { return f.Truncate(size) })
	mc.Dirty()
	return err
}
func FSync(f *os.File) error { return call1("sync", f.Name(), false, func() error { return f.Sync() }) }
func FStat(f *os.File) (fi fs.FileInfo, err error) {
	if _, err := begin("fstat", f.Name(), 0, false); err != nil {
		return nil, err
	}
	return f.Stat()
}
func FClose(f *os.File) error {
	if f == nil {
		return os.ErrInvalid
	}
	if mc.X != nil && mc.X.IsAborting() {
		return nil
	}
	k, err := begin("close", f.Name(), 1, false)
	if err != nil {
		return err
	}
	if mc.X != nil {
		mc.X.Closed(f)
	}
	err = f.Close()
	if k > 0 {
		return eio("close", f.Name())
	}
	return err
}

// ---------------------------------------------------------------- mappings

func MapRegion(f *os.File, length int, prot, flags int, offset int64) (mmap.MMap, error) {
	name := "anonymous"
	if f != nil {
		name = f.Name()
	}
	k, err := begin("mmap", name, 1, false)
	if err != nil {
		return nil, err
	}
	if k > 0 {
		return nil, &os.SyscallError{Syscall: "mmap", Err: syscall.ENOMEM}
	}
	m, err := mmap.MapRegion(f, length, prot, flags, offset)
	if err != nil {
		return m, err
	}
	if x := mc.X; x != nil {
		mm := m
		mc.AddRegion(name, m, func() { mm.Unmap() })
	}
	return m, nil
}

func Map(f *os.File, prot, flags int) (mmap.MMap, error) {
	return MapRegion(f, -1, prot, flags, 0)
}

func Unmap(m *mmap.MMap) error {
	k, err := begin("munmap", "", 1, false)
	if err != nil {
		return err
	}
	if k > 0 {
		return &os.SyscallError{Syscall: "munmap", Err: syscall.EINVAL}
	}
	if r := mc.FindRegion(*m); r != nil {
		if len(*m) != cap(*m) || len(*m) != len(r.Mem) {
			return syscall.EINVAL // as unix.Munmap does
		}
		mc.Dirty()
		r.Live = false
		// keep the address range reserved and inaccessible, so that any
		// later access faults whatever else gets mapped
		if err := syscall.Mprotect(r.Mem, syscall.PROT_NONE); err != nil {
			panic(err)
		}
		*m = nil
		return nil
	}
	return m.Unmap()
}

func Flush(m *mmap.MMap) error {
	k, err := begin("msync", "", 1, false)
	if err != nil {
		return err
	}
	if k > 0 {
		return &os.SyscallError{Syscall: "msync", Err: Errno}
	}
	return m.Flush()
}
