// Package vlog stands in for package log in code under the controlled scheduler: a fatal
// log ends the party, not the process.
package vlog

import (
	"fmt"
	"io"
	"log"
	"os"

	"verif.local/vs"
)

const (
	Ldate         = log.Ldate
	Ltime         = log.Ltime
	Lmicroseconds = log.Lmicroseconds
	Llongfile     = log.Llongfile
	Lshortfile    = log.Lshortfile
	LUTC          = log.LUTC
	Lmsgprefix    = log.Lmsgprefix
	LstdFlags     = log.LstdFlags
)

type Logger = log.Logger

//go:norace
func out(s string) {
	if vs.Verbose {
		fmt.Fprintln(os.Stderr, s)
	}
}

//go:norace
func New(w io.Writer, p string, f int) *log.Logger { return log.New(io.Discard, p, f) }

//go:norace
func Default() *log.Logger { return log.New(io.Discard, "", 0) }

//go:norace
func SetFlags(int) {}

//go:norace
func SetPrefix(string) {}

//go:norace
func SetOutput(io.Writer) {}

//go:norace
func Flags() int { return 0 }

//go:norace
func Prefix() string { return "" }

//go:norace
func Printf(f string, a ...any) {
	if vs.Verbose {
		out(fmt.Sprintf(f, a...))
	}
}

//go:norace
func Println(a ...any) {
	if vs.Verbose {
		out(fmt.Sprintln(a...))
	}
}

//go:norace
func Print(a ...any) {
	if vs.Verbose {
		out(fmt.Sprint(a...))
	}
}

//go:norace
func Fatalf(f string, a ...any) { vs.Fatal(fmt.Sprintf(f, a...)) }

//go:norace
func Fatalln(a ...any) { vs.Fatal(fmt.Sprintln(a...)) }

//go:norace
func Fatal(a ...any) { vs.Fatal(fmt.Sprint(a...)) }

//go:norace
func Panicf(f string, a ...any) { panic(fmt.Sprintf(f, a...)) }

//go:norace
func Panicln(a ...any) { panic(fmt.Sprintln(a...)) }

//go:norace
func Panic(a ...any) { panic(fmt.Sprint(a...)) }
