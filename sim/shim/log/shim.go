// Package log: fatal calls end the simulated process.
package log

import (
	"fmt"
	"io"
	real "log"
	"strings"
	"verifsim/rt"
)

var Writer io.Writer = io.Discard

func Print(v ...interface{})               {}
func Println(v ...interface{})             {}
func Printf(f string, v ...interface{})    {}
func Output(calldepth int, s string) error { return nil }
func Fatal(v ...interface{})               { rt.Exit(1, "log.Fatal: "+fmt.Sprint(v...), true) }
func Fatalf(f string, v ...interface{})    { rt.Exit(1, "log.Fatal: "+fmt.Sprintf(f, v...), true) }
func Fatalln(v ...interface{}) {
	rt.Exit(1, "log.Fatal: "+strings.TrimSpace(fmt.Sprintln(v...)), true)
}
func Panic(v ...interface{})            { panic(fmt.Sprint(v...)) }
func Panicf(f string, v ...interface{}) { panic(fmt.Sprintf(f, v...)) }
func Panicln(v ...interface{})          { panic(fmt.Sprintln(v...)) }
func SetOutput(w io.Writer)             {}
func SetFlags(int)                      {}
func SetPrefix(string)                  {}

type Logger struct{ pre string }

func New(w io.Writer, prefix string, flag int) *Logger { return &Logger{prefix} }
func Default() *Logger                                 { return &Logger{} }

func (l *Logger) Print(v ...interface{})            {}
func (l *Logger) Println(v ...interface{})          {}
func (l *Logger) Printf(f string, v ...interface{}) {}
func (l *Logger) Fatal(v ...interface{})            { Fatal(v...) }
func (l *Logger) Fatalf(f string, v ...interface{}) { Fatalf(f, v...) }
func (l *Logger) Fatalln(v ...interface{})          { Fatalln(v...) }
func (l *Logger) Panic(v ...interface{})            { Panic(v...) }
func (l *Logger) Panicf(f string, v ...interface{}) { Panicf(f, v...) }
func (l *Logger) Panicln(v ...interface{})          { Panicln(v...) }
func (l *Logger) SetPrefix(string)                  {}
func (l *Logger) SetFlags(int)                      {}
func (l *Logger) SetOutput(io.Writer)               {}

var _ = real.LstdFlags
