package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

// Native replay of counterexamples with a failing call of the operating system: a build in which the standard os package
// and the mapping module ask before a call on a file below a given folder whether it shall fail. The state is set with
// special names given to os.Remove, which do nothing else in such a build.

const osHook = `
var (
	verifPrefix string
	verifAt     int
	verifN      int
	verifHold   bool
	verifFailed bool
)

type verifErr struct{}

func (verifErr) Error() string { return "failure asked for by the check" }

func verifCall(op, name string) error {
	if verifAt == 0 || verifHold || len(name) < len(verifPrefix) || name[:len(verifPrefix)] != verifPrefix {
		return nil
	}
	verifN++
	if verifN != verifAt {
		return nil
	}
	verifFailed = true
	return &PathError{Op: op, Path: name, Err: syscall.EPERM}
}

func verifCtl(name string) (error, bool) {
	if len(name) < 8 || name[:7] != "\x00verif:" {
		return nil, false
	}
	arg := name[8:]
	switch name[7] {
	case 'a': // at: number, folder
		n, i := 0, 0
		for ; i < len(arg) && arg[i] != ':'; i++ {
			n = n*10 + int(arg[i]-'0')
		}
		verifAt, verifN, verifFailed, verifHold = n, 0, false, false
		verifPrefix = arg[i+1:]
	case 'h':
		verifHold = arg == "1"
	case 'f':
		if verifFailed {
			return verifErr{}, true
		}
	case 'c':
		return verifCall("mmap", arg), true
	}
	return nil, true
}
`

func (n *Native) faultOverlay() (string, error) {
	rep := map[string]string{}
	for k, v := range n.replaced {
		rep[k] = v
	}
	root, err := n.goTool("env", "GOROOT")
	if err != nil {
		return "", err
	}
	mm, err := n.goTool("list", "-m", "-f", "{{.Dir}}", "github.com/edsrzf/mmap-go")
	if err != nil {
		return "", err
	}
	k := 0
	patch := func(file, add string, subst map[string]string) error {
		b, err := os.ReadFile(file)
		if err != nil {
			return err
		}
		s := string(b)
		for at, ins := range subst {
			i := strings.Index(s, at)
			if i < 0 {
				return fmt.Errorf("%s: %q not found", file, at)
			}
			j := i + strings.IndexByte(s[i:], '\n') + 1
			s = s[:j] + ins + "\n" + s[j:]
		}
		s += add
		p := filepath.Join(n.work, fmt.Sprintf("fault%d.go", k))
		k++
		rep[file] = p
		return os.WriteFile(p, []byte(s), 0644)
	}
	if err := patch(root+"/src/os/file.go", osHook, map[string]string{
		"func (f *File) Read(b []byte)":        "if f != nil { if e := verifCall(\"read\", f.name); e != nil { return 0, e } }",
		"func (f *File) ReadAt(b []byte":       "if f != nil { if e := verifCall(\"read\", f.name); e != nil { return 0, e } }",
		"func (f *File) Write(b []byte)":       "if f != nil { if e := verifCall(\"write\", f.name); e != nil { k, _ := f.write(b[:len(b)/2]); return max(k, 0), e } }",
		"func (f *File) WriteTo(w io.Writer)":  "if f != nil && verifAt != 0 { return genericWriteTo(f, w) }",
		"func (f *File) ReadFrom(r io.Reader)": "if f != nil && verifAt != 0 { return genericReadFrom(f, r) }",
		"func OpenFile(name string":            "if e := verifCall(\"open\", name); e != nil { return nil, e }",
		"func Rename(oldpath, newpath string)": "if e := verifCall(\"rename\", oldpath); e != nil { return e }",
	}); err != nil {
		return "", err
	}
	if err := patch(root+"/src/os/file_unix.go", "", map[string]string{
		"func Remove(name string)": "if e, ok := verifCtl(name); ok { return e }\nif e := verifCall(\"remove\", name); e != nil { return e }",
	}); err != nil {
		return "", err
	}
	if err := patch(root+"/src/os/file_posix.go", "", map[string]string{
		"func (f *File) Truncate(size int64)": "if f != nil { if e := verifCall(\"truncate\", f.name); e != nil { return e } }",
	}); err != nil {
		return "", err
	}
	if err := patch(root+"/src/os/path.go", "", map[string]string{
		"func MkdirAll(path string": "if e := verifCall(\"mkdir\", path); e != nil { return e }",
	}); err != nil {
		return "", err
	}
	if err := patch(mm+"/mmap.go", "", map[string]string{
		"func MapRegion(f *os.File": "if f != nil { if e := os.Remove(\"\\x00verif:c\" + f.Name()); e != nil { return nil, e } }",
	}); err != nil {
		return "", err
	}
	buf, _ := json.Marshal(map[string]any{"Replace": rep})
	p := filepath.Join(n.work, "overlay_faults.json")
	return p, os.WriteFile(p, buf, 0644)
}

func (n *Native) goTool(args ...string) (string, error) {
	cmd := exec.Command(goBin+"/go", args...)
	cmd.Dir = n.repo
	cmd.Env = goEnv()
	out, err := cmd.Output()
	return strings.TrimSpace(string(out)), err
}
