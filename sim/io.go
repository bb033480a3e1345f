package main

import (
	"os"
	"runtime"
	"strings"
	"sync"
	"syscall"
)

// IOSpec is the fault script of one file.
type IOSpec struct {
	OpenErr  int   `json:"open_err,omitempty"`  // errno of open
	Chunks   []int `json:"chunks,omitempty"`    // sizes of successive reads/writes (cyclic)
	FailN    int   `json:"fail_n,omitempty"`    // the n-th read/write call fails
	FailErr  int   `json:"fail_err,omitempty"`  // with this errno
	Partial  bool  `json:"partial,omitempty"`   // the failing write still writes a part before
	IntrN    int   `json:"intr_n,omitempty"`    // every n-th call is interrupted (EINTR)
	CloseErr int   `json:"close_err,omitempty"` // errno of close
	Full     int   `json:"full,omitempty"`      // disk holds that many bytes (1-based; 0 = unlimited)
	Sticky   bool  `json:"sticky,omitempty"`    // all calls from FailN on fail
}

type simFile struct {
	data   []byte
	spec   IOSpec
	failed bool // some call on the file failed
}

type simFD struct {
	file   *simFile
	off    int
	calls  int
	failed bool
	write  bool
	client int
}

const firstFD = 1 << 20

// fdTable holds the open descriptors.  Numbers are never used twice, so that
// a late finalizer of a lost file cannot close another one.
var fdTable = descriptors{open_: map[int]*simFD{}, next: firstFD}

type descriptors struct {
	sync.Mutex
	open_ map[int]*simFD
	next  int
}

func (d *descriptors) open(fd *simFD) int {
	d.Lock()
	defer d.Unlock()
	d.next++
	d.open_[d.next] = fd
	return d.next
}

func (d *descriptors) get(n int) *simFD {
	d.Lock()
	defer d.Unlock()
	return d.open_[n]
}

func (d *descriptors) close(n int) *simFD {
	d.Lock()
	defer d.Unlock()
	fd := d.open_[n]
	delete(d.open_, n)
	return fd
}

// drop forgets the descriptors of a client (-1 = all) and returns how many
// there were.
func (d *descriptors) drop(client int) int {
	d.Lock()
	defer d.Unlock()
	k := 0
	for n, fd := range d.open_ {
		if client < 0 || fd.client == client {
			delete(d.open_, n)
			k++
		}
	}
	return k
}

const simPrefix = "/sim/"

func (s *Sim) putFile(name string, data []byte, spec *IOSpec) string {
	fl := &simFile{data: data}
	if spec != nil {
		fl.spec = *spec
	}
	s.files[simPrefix+name] = fl
	return simPrefix + name
}

// reseed makes the runtime's randomness independent of how much of it was
// used before (the parser keeps caches over runs).
func (s *Sim) reseed() {
	s.randN++
	runtime.SimRandSeed(NewRng(s.plan.RandSeed, 0x10, s.randN).Next() | 1)
}

// ioYield is a scheduling point inside an I/O call.
func (s *Sim) ioYield() {
	c := s.ioc
	s.yield(c)
	s.ioc = c
}

func installIO(s *Sim) {
	os.SimOpen = func(path string, flag int, perm uint32) (int, error, bool) {
		if !strings.HasPrefix(path, simPrefix) {
			return 0, nil, false
		}
		if s.ioc != nil {
			s.ioYield()
		}
		fl := s.files[path]
		if fl == nil && flag&os.O_CREATE == 0 {
			s.logf("io open %s ENOENT", path)
			return -1, syscall.ENOENT, true
		}
		if fl == nil {
			fl = &simFile{}
			s.files[path] = fl
		}
		if fl.spec.OpenErr != 0 {
			fl.failed = true
			s.count("fault:open-error")
			s.logf("io open fails %d", fl.spec.OpenErr)
			return -1, syscall.Errno(fl.spec.OpenErr), true
		}
		if flag&os.O_TRUNC != 0 {
			fl.data = nil
		}
		fd := &simFD{file: fl, write: flag&(os.O_WRONLY|os.O_RDWR) != 0}
		if flag&os.O_APPEND != 0 {
			fd.off = len(fl.data)
		}
		if s.ioc != nil {
			fd.client = s.ioc.id
		}
		s.logf("io open %s", path)
		return fdTable.open(fd), nil, true
	}
	syscall.SimRead = func(n int, p []byte) (int, error, bool) {
		fd := fdTable.get(n)
		if fd == nil {
			return 0, nil, false
		}
		if s.ioc != nil {
			s.reseed()
			s.tick()
			s.ioYield()
		}
		sp := &fd.file.spec
		fd.calls++
		if sp.IntrN > 0 && fd.calls%sp.IntrN == 0 {
			s.count("fault:read-EINTR")
			s.logf("io read EINTR")
			return -1, syscall.EINTR, true
		}
		if sp.FailN > 0 && (fd.calls == sp.FailN || sp.Sticky && fd.calls >= sp.FailN) {
			fd.failed, fd.file.failed = true, true
			s.count("fault:read-error")
			s.logf("io read fails %d", sp.FailErr)
			return -1, syscall.Errno(sp.FailErr), true
		}
		k := len(p)
		if len(sp.Chunks) > 0 {
			if c := sp.Chunks[(fd.calls-1)%len(sp.Chunks)]; c < k {
				k = c
				s.count("fault:short-read")
			}
		}
		if k > len(fd.file.data)-fd.off {
			k = len(fd.file.data) - fd.off
		}
		copy(p, fd.file.data[fd.off:fd.off+k])
		fd.off += k
		s.logf("io read %d", k)
		return k, nil, true
	}
	syscall.SimWrite = func(n int, p []byte) (int, error, bool) {
		fd := fdTable.get(n)
		if fd == nil {
			return 0, nil, false
		}
		if s.ioc != nil {
			s.reseed()
			s.tick()
			s.ioYield()
		}
		sp := &fd.file.spec
		fd.calls++
		if sp.IntrN > 0 && fd.calls%sp.IntrN == 0 {
			s.count("fault:write-EINTR")
			return -1, syscall.EINTR, true
		}
		put := func(k int) {
			for len(fd.file.data) < fd.off {
				fd.file.data = append(fd.file.data, 0)
			}
			fd.file.data = append(fd.file.data[:fd.off], p[:k]...)
			fd.off += k
		}
		if sp.FailN > 0 && (fd.calls == sp.FailN || sp.Sticky && fd.calls >= sp.FailN) {
			if sp.Partial && len(p) > 1 && fd.calls == sp.FailN {
				// torn write: first a short write, the error comes with the rest
				put(len(p) / 2)
				sp.FailN++
				s.count("fault:torn-write")
				s.logf("io write torn %d", len(p)/2)
				return len(p) / 2, nil, true
			}
			fd.failed, fd.file.failed = true, true
			s.count("fault:write-error")
			s.logf("io write fails %d", sp.FailErr)
			return -1, syscall.Errno(sp.FailErr), true
		}
		k := len(p)
		if len(sp.Chunks) > 0 {
			if c := sp.Chunks[(fd.calls-1)%len(sp.Chunks)]; c < k && c > 0 {
				k = c
				s.count("fault:short-write")
			}
		}
		if sp.Full > 0 && fd.off+k > sp.Full-1 {
			k = sp.Full - 1 - fd.off
			if k <= 0 {
				fd.failed, fd.file.failed = true, true
				s.count("fault:disk-full")
				s.logf("io write ENOSPC")
				return -1, syscall.ENOSPC, true
			}
		}
		put(k)
		s.logf("io write %d", k)
		return k, nil, true
	}
	os.SimSetClose(func(n int) error {
		fd := fdTable.close(n)
		if fd == nil {
			if n > firstFD {
				return nil // a file of an abandoned operation is collected
			}
			return syscall.Close(n)
		}
		if e := fd.file.spec.CloseErr; e != 0 {
			if fd.write {
				fd.file.failed = true
			}
			s.count("fault:close-error")
			s.logf("io close fails %d", e)
			return syscall.Errno(e)
		}
		s.logf("io close")
		return nil
	})
}

func uninstallIO() {
	fdTable.drop(-1)
	os.SimOpen = nil
	syscall.SimRead = nil
	syscall.SimWrite = nil
	os.SimSetClose(nil)
}
