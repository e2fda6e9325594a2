package flag

import (
	"flag"
	"time"

	"vsim/gs/simos"
)

// FlagSet is flag.FlagSet on the simulated standard error and exit.
type FlagSet struct {
	*flag.FlagSet
	h flag.ErrorHandling
}

func NewFlagSet(name string, h flag.ErrorHandling) *FlagSet {
	fs := flag.NewFlagSet(name, flag.ContinueOnError)
	fs.SetOutput(simos.Stderr)
	return &FlagSet{fs, h}
}

func (f *FlagSet) Parse(args []string) error {
	err := f.FlagSet.Parse(args)
	if err == nil {
		return nil
	}
	switch f.h {
	case flag.ExitOnError:
		if err == flag.ErrHelp {
			simos.Exit(0)
		}
		simos.Exit(2)
	case flag.PanicOnError:
		panic(err)
	}
	return err
}

// Reset starts a process with the given arguments.
func Reset(args []string) {
	simos.Args = args
	CommandLine = NewFlagSet(args[0], flag.ExitOnError)
	CommandLine.Usage = func() { Usage() }
}

var CommandLine = NewFlagSet("hbuf", flag.ExitOnError)

var Usage = func() {
	_, _ = simos.Stderr.WriteString("Usage of " + simos.Args[0] + ":\n")
	CommandLine.PrintDefaults()
}

func Parse()                     { _ = CommandLine.Parse(simos.Args[1:]) }
func Parsed() bool               { return CommandLine.Parsed() }
func Args() []string             { return CommandLine.Args() }
func Arg(i int) string           { return CommandLine.Arg(i) }
func NArg() int                  { return CommandLine.NArg() }
func NFlag() int                 { return CommandLine.NFlag() }
func PrintDefaults()             { CommandLine.PrintDefaults() }
func Lookup(n string) *flag.Flag { return CommandLine.Lookup(n) }
func Set(n, v string) error      { return CommandLine.Set(n, v) }
func Visit(f func(*flag.Flag))   { CommandLine.Visit(f) }
func VisitAll(f func(*flag.Flag)) {
	CommandLine.VisitAll(f)
}
func Var(v flag.Value, n, u string)                        { CommandLine.Var(v, n, u) }
func String(n, v, u string) *string                        { return CommandLine.String(n, v, u) }
func StringVar(p *string, n, v, u string)                  { CommandLine.StringVar(p, n, v, u) }
func Bool(n string, v bool, u string) *bool                { return CommandLine.Bool(n, v, u) }
func BoolVar(p *bool, n string, v bool, u string)          { CommandLine.BoolVar(p, n, v, u) }
func Int(n string, v int, u string) *int                   { return CommandLine.Int(n, v, u) }
func IntVar(p *int, n string, v int, u string)             { CommandLine.IntVar(p, n, v, u) }
func Int64(n string, v int64, u string) *int64             { return CommandLine.Int64(n, v, u) }
func Int64Var(p *int64, n string, v int64, u string)       { CommandLine.Int64Var(p, n, v, u) }
func Uint(n string, v uint, u string) *uint                { return CommandLine.Uint(n, v, u) }
func UintVar(p *uint, n string, v uint, u string)          { CommandLine.UintVar(p, n, v, u) }
func Uint64(n string, v uint64, u string) *uint64          { return CommandLine.Uint64(n, v, u) }
func Float64(n string, v float64, u string) *float64       { return CommandLine.Float64(n, v, u) }
func Float64Var(p *float64, n string, v float64, u string) { CommandLine.Float64Var(p, n, v, u) }
func Func(n, u string, f func(string) error)               { CommandLine.Func(n, u, f) }
func BoolFunc(n, u string, f func(string) error)           { CommandLine.BoolFunc(n, u, f) }
func Duration(n string, v time.Duration, u string) *time.Duration {
	return CommandLine.Duration(n, v, u)
}
func DurationVar(p *time.Duration, n string, v time.Duration, u string) {
	CommandLine.DurationVar(p, n, v, u)
}
