// Package exec serves the one external program the system runs: openssl, for safe primes.
package exec

import (
	"bytes"
	"context"
	"errors"
	"io"
	"path/filepath"
	"strings"
	"verifsim/rt"
)

// SafePrime returns a decimal safe prime of the simulated run's configured size.
var SafePrime func(p *rt.Proc, bits string) string

var ErrNotFound = errors.New("executable file not found in $PATH")

type Cmd struct {
	Path   string
	Args   []string
	Env    []string
	Dir    string
	Stdin  io.Reader
	Stdout io.Writer
	Stderr io.Writer
}

func Command(name string, arg ...string) *Cmd {
	return &Cmd{Path: name, Args: append([]string{name}, arg...)}
}
func CommandContext(_ context.Context, name string, arg ...string) *Cmd { return Command(name, arg...) }
func LookPath(file string) (string, error) {
	if filepath.Base(file) == "openssl" {
		return "/usr/bin/openssl", nil
	}
	return "", ErrNotFound
}

func (c *Cmd) Output() ([]byte, error) {
	if filepath.Base(c.Path) == "openssl" && len(c.Args) > 1 && c.Args[1] == "prime" {
		bits := "512"
		safe := false
		for i, a := range c.Args {
			if a == "-bits" && i+1 < len(c.Args) {
				bits = c.Args[i+1]
			}
			if strings.TrimLeft(a, "-") == "safe" {
				safe = true
			}
		}
		rt.W.Probe["exec.openssl"]++
		_ = safe
		return []byte(SafePrime(rt.CurProc(), bits) + "\n"), nil
	}
	return nil, errors.New("exec: " + c.Path + ": not available in the simulation")
}
func (c *Cmd) CombinedOutput() ([]byte, error) { return c.Output() }
func (c *Cmd) Run() error {
	b, err := c.Output()
	if err == nil && c.Stdout != nil {
		io.Copy(c.Stdout, bytes.NewReader(b))
	}
	return err
}
