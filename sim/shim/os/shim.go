// Package os redirects process exit, arguments, terminal and files to the simulator.
package os

import (
	real "os"
	"path/filepath"
	"verifsim/rt"
)

var Args []string

var _ = rt.RegVar(&Args)

// Root is the directory the simulated processes run in (the repository).
var Root = "."

// Override gives per-process contents of files, as a path of a file to open instead.
var Override func(p *rt.Proc, name string) (string, bool)

type stdin struct{}

func (stdin) Read(b []byte) (int, error) { return rt.ReadStdin(b) }
func (stdin) Fd() uintptr                { return 0 }
func (stdin) Close() error               { return nil }
func (stdin) Name() string               { return "/dev/stdin" }

type out struct{ err bool }

func (o out) Write(b []byte) (int, error) {
	if !o.err {
		rt.Stdout(string(b))
	}
	return len(b), nil
}
func (o out) WriteString(s string) (int, error) { return o.Write([]byte(s)) }
func (o out) Sync() error                       { return nil }
func (o out) Close() error                      { return nil }

var Stdin stdin
var Stdout = out{}
var Stderr = out{true}

func Exit(code int) { rt.Exit(code, "os.Exit", false) }

func at(name string) string {
	if p := rt.CurProc(); p != nil && Override != nil {
		if n, ok := Override(p, name); ok {
			return n
		}
	}
	if filepath.IsAbs(name) {
		return name
	}
	return filepath.Join(Root, name)
}

func Open(name string) (*real.File, error)    { return real.Open(at(name)) }
func ReadFile(name string) ([]byte, error)    { return real.ReadFile(at(name)) }
func Stat(name string) (real.FileInfo, error) { return real.Stat(at(name)) }
func Getpid() int {
	if p := rt.CurProc(); p != nil {
		return 1000 + p.ID
	}
	return 1
}
func Hostname() (string, error) { return "simhost", nil }
