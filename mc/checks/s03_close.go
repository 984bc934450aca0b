package checks

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"syscall"
	"unsafe"

	"github.com/nlpodyssey/spago/nn"
)

// A file whose closing fails, in a process of its own. While loading: an
// object which, when it is decoded, closes the file it is loaded from behind
// the library's back. While saving: an object which, when it is encoded, has
// the system refuse to close the file it is saved to.

const closingEnv = "VERIF_S03_CLOSING"

type closingObject struct{ V byte }

// opened returns the descriptor of the only open file of the directory.
func opened(dir string) (int, error) {
	fds, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return 0, err
	}
	for _, fd := range fds {
		if target, _ := os.Readlink("/proc/self/fd/" + fd.Name()); strings.HasPrefix(target, dir+"/") {
			var n int
			fmt.Sscan(fd.Name(), &n)
			return n, nil
		}
	}
	return 0, fmt.Errorf("no file is open")
}

// refuseClosing makes every attempt to close the descriptor an input/output
// error of the system.
func refuseClosing(fd int) error {
	const (
		prSetNoNewPrivs = 38
		sysSeccomp      = 317 // amd64
		setModeFilter   = 1
		tsync           = 1
		allow           = 0x7fff0000
		errnoEIO        = 0x00050000 | uint32(syscall.EIO)
	)
	type filter struct {
		code   uint16
		jt, jf uint8
		k      uint32
	}
	prog := []filter{
		{0x20, 0, 0, 0},                         // load the number of the call
		{0x15, 0, 3, uint32(syscall.SYS_CLOSE)}, // close?
		{0x20, 0, 0, 16},                        // load the first argument
		{0x15, 0, 1, uint32(fd)},                // of this descriptor?
		{0x06, 0, 0, errnoEIO},                  // fail
		{0x06, 0, 0, allow},                     // else go on
	}
	fprog := struct {
		n uint16
		f *filter
	}{uint16(len(prog)), &prog[0]}
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	if _, _, e := syscall.RawSyscall6(syscall.SYS_PRCTL, prSetNoNewPrivs, 1, 0, 0, 0, 0); e != 0 {
		return e
	}
	if _, _, e := syscall.RawSyscall(sysSeccomp, setModeFilter, tsync, uintptr(unsafe.Pointer(&fprog))); e != 0 {
		return e
	}
	runtime.KeepAlive(prog)
	return nil
}

func (c closingObject) GobEncode() ([]byte, error) {
	if dir, ok := strings.CutPrefix(os.Getenv(closingEnv), "dump:"); ok {
		fd, err := opened(dir)
		if err != nil {
			return nil, err
		}
		if err := refuseClosing(fd); err != nil {
			fmt.Printf("unavailable: %v", err)
			os.Exit(0)
		}
	}
	return []byte{c.V}, nil
}

func (c *closingObject) GobDecode(b []byte) error {
	c.V = b[0]
	dir, _ := strings.CutPrefix(os.Getenv(closingEnv), "load:")
	fd, err := opened(dir)
	if err != nil {
		return err
	}
	return syscall.Close(fd)
}

func init() {
	what, dir, ok := strings.Cut(os.Getenv(closingEnv), ":")
	if !ok {
		return
	}
	path := filepath.Join(dir, "closing-"+what)
	err := nn.DumpToFile(closingObject{7}, path)
	if what == "dump" {
		if err == nil {
			fmt.Printf("closing the file failed while saving, and no error is reported")
		}
		os.Exit(0)
	}
	if err != nil {
		fmt.Println("dump:", err)
		os.Exit(1)
	}
	obj, err := nn.LoadFromFile[closingObject](path)
	if err == nil {
		fmt.Printf("closing the file failed while loading, and no error is reported (%v)", obj)
	}
	os.Exit(0)
}

func closingFails(dir, what string) error {
	dir, err := filepath.EvalSymlinks(dir)
	if err != nil {
		return err
	}
	self, err := os.Executable()
	if err != nil {
		return err
	}
	cmd := exec.Command(self)
	cmd.Env = append(os.Environ(), closingEnv+"="+what+":"+dir)
	out, err := cmd.CombinedOutput()
	if err != nil {
		return errf("%v: %s", err, out)
	}
	if strings.HasPrefix(string(out), "unavailable:") {
		return nil // the system cannot be made to refuse
	}
	if len(out) > 0 {
		return errf("%s", out)
	}
	return nil
}
