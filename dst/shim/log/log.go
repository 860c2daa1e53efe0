package log

import (
	"fmt"
	"io"
	real "log"

	sos "verif/dst/shim/os"
	"verif/dst/sim"
)

// Logger writes to a simulated stream.
type Logger struct {
	w      io.Writer
	prefix string
	flags  int
	m      sim.Mutex
}

var std = &Logger{w: sos.Stderr, flags: real.LstdFlags}

func New(w io.Writer, prefix string, flag int) *Logger {
	return &Logger{w: w, prefix: prefix, flags: flag}
}
func Default() *Logger { return std }

func (l *Logger) Output(d int, s string) error {
	if len(s) == 0 || s[len(s)-1] != '\n' {
		s += "\n"
	}
	l.m.Lock()
	defer l.m.Unlock()
	_, err := l.w.Write([]byte(l.prefix + s))
	return err
}
func (l *Logger) Print(v ...any)            { l.Output(2, fmt.Sprint(v...)) }
func (l *Logger) Printf(f string, v ...any) { l.Output(2, fmt.Sprintf(f, v...)) }
func (l *Logger) Println(v ...any)          { l.Output(2, fmt.Sprintln(v...)) }
func (l *Logger) Fatal(v ...any)            { l.Print(v...); sos.Exit(1) }
func (l *Logger) Fatalf(f string, v ...any) { l.Printf(f, v...); sos.Exit(1) }
func (l *Logger) Fatalln(v ...any)          { l.Println(v...); sos.Exit(1) }
func (l *Logger) Panic(v ...any)            { s := fmt.Sprint(v...); l.Output(2, s); panic(s) }
func (l *Logger) Panicf(f string, v ...any) { s := fmt.Sprintf(f, v...); l.Output(2, s); panic(s) }
func (l *Logger) Panicln(v ...any)          { s := fmt.Sprintln(v...); l.Output(2, s); panic(s) }
func (l *Logger) SetOutput(w io.Writer)     { l.w = w }
func (l *Logger) SetPrefix(p string)        { l.prefix = p }
func (l *Logger) SetFlags(f int)            { l.flags = f }
func (l *Logger) Prefix() string            { return l.prefix }
func (l *Logger) Flags() int                { return l.flags }
func (l *Logger) Writer() io.Writer         { return l.w }

func Print(v ...any)               { std.Print(v...) }
func Printf(f string, v ...any)    { std.Printf(f, v...) }
func Println(v ...any)             { std.Println(v...) }
func Fatal(v ...any)               { std.Fatal(v...) }
func Fatalf(f string, v ...any)    { std.Fatalf(f, v...) }
func Fatalln(v ...any)             { std.Fatalln(v...) }
func Panic(v ...any)               { std.Panic(v...) }
func Panicf(f string, v ...any)    { std.Panicf(f, v...) }
func Panicln(v ...any)             { std.Panicln(v...) }
func SetOutput(w io.Writer)        { std.SetOutput(w) }
func SetPrefix(p string)           { std.SetPrefix(p) }
func SetFlags(f int)               { std.SetFlags(f) }
func Prefix() string               { return std.Prefix() }
func Flags() int                   { return std.Flags() }
func Writer() io.Writer            { return std.Writer() }
func Output(d int, s string) error { return std.Output(d, s) }
