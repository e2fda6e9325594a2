package log

import (
	"fmt"
	"io"
	"log"
	"time"

	"vsim/gs/simos"
	"vsim/gs/simrt"
)

// Logger mirrors log.Logger on the simulated standard error and exit.
type Logger struct {
	w      io.Writer
	prefix string
	flags  int
}

var std = &Logger{w: simos.Stderr, flags: log.LstdFlags}

func New(w io.Writer, prefix string, flags int) *Logger { return &Logger{w, prefix, flags} }
func Default() *Logger                                  { return std }

func (l *Logger) out(s string) {
	if len(s) == 0 || s[len(s)-1] != '\n' {
		s += "\n"
	}
	h := l.prefix
	if l.flags&(log.Ldate|log.Ltime) != 0 {
		h += time.Unix(0, simrt.W.Now()).UTC().Format("2006/01/02 15:04:05 ")
	}
	_, _ = io.WriteString(l.w, h+s)
}
func (l *Logger) Print(a ...any)            { l.out(fmt.Sprint(a...)) }
func (l *Logger) Println(a ...any)          { l.out(fmt.Sprintln(a...)) }
func (l *Logger) Printf(f string, a ...any) { l.out(fmt.Sprintf(f, a...)) }
func (l *Logger) Fatal(a ...any)            { l.out(fmt.Sprint(a...)); simos.Exit(1) }
func (l *Logger) Fatalln(a ...any)          { l.out(fmt.Sprintln(a...)); simos.Exit(1) }
func (l *Logger) Fatalf(f string, a ...any) { l.out(fmt.Sprintf(f, a...)); simos.Exit(1) }
func (l *Logger) Panic(a ...any)            { s := fmt.Sprint(a...); l.out(s); panic(s) }
func (l *Logger) Panicln(a ...any)          { s := fmt.Sprintln(a...); l.out(s); panic(s) }
func (l *Logger) Panicf(f string, a ...any) { s := fmt.Sprintf(f, a...); l.out(s); panic(s) }
func (l *Logger) Output(_ int, s string) error {
	l.out(s)
	return nil
}
func (l *Logger) SetPrefix(p string)    { l.prefix = p }
func (l *Logger) Prefix() string        { return l.prefix }
func (l *Logger) SetFlags(f int)        { l.flags = f }
func (l *Logger) Flags() int            { return l.flags }
func (l *Logger) SetOutput(w io.Writer) { l.w = w }
func (l *Logger) Writer() io.Writer     { return l.w }

func Print(a ...any)               { std.Print(a...) }
func Println(a ...any)             { std.Println(a...) }
func Printf(f string, a ...any)    { std.Printf(f, a...) }
func Fatal(a ...any)               { std.Fatal(a...) }
func Fatalln(a ...any)             { std.Fatalln(a...) }
func Fatalf(f string, a ...any)    { std.Fatalf(f, a...) }
func Panic(a ...any)               { std.Panic(a...) }
func Panicln(a ...any)             { std.Panicln(a...) }
func Panicf(f string, a ...any)    { std.Panicf(f, a...) }
func Output(d int, s string) error { return std.Output(d, s) }
func SetPrefix(p string)           { std.SetPrefix(p) }
func Prefix() string               { return std.prefix }
func SetFlags(f int)               { std.flags = f }
func Flags() int                   { return std.flags }
func SetOutput(w io.Writer)        { std.w = w }
func Writer() io.Writer            { return std.w }
