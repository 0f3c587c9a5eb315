// Package fmt: printing goes to the simulated process's terminal.
package fmt

import (
	real "fmt"
	"verifsim/rt"
)

func Print(v ...interface{}) (int, error) {
	s := real.Sprint(v...)
	rt.Stdout(s)
	return len(s), nil
}
func Println(v ...interface{}) (int, error) {
	s := real.Sprintln(v...)
	rt.Stdout(s)
	return len(s), nil
}
func Printf(f string, v ...interface{}) (int, error) {
	s := real.Sprintf(f, v...)
	rt.Stdout(s)
	return len(s), nil
}
func readToken() string {
	var b [1]byte
	s := ""
	for {
		n, err := rt.ReadStdin(b[:])
		if err != nil || n == 0 || b[0] == '\n' {
			return s
		}
		s += string(b[:n])
	}
}
func Scanln(v ...interface{}) (int, error) { return real.Sscanln(readToken()+"\n", v...) }
func Scan(v ...interface{}) (int, error)   { return real.Sscan(readToken(), v...) }
func Scanf(f string, v ...interface{}) (int, error) {
	return real.Sscanf(readToken()+"\n", f, v...)
}
