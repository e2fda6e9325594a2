package fmt

import (
	"fmt"

	"vsim/gs/simos"
)

func Print(a ...any) (int, error)            { return simos.Stdout.WriteString(fmt.Sprint(a...)) }
func Println(a ...any) (int, error)          { return simos.Stdout.WriteString(fmt.Sprintln(a...)) }
func Printf(f string, a ...any) (int, error) { return simos.Stdout.WriteString(fmt.Sprintf(f, a...)) }
func Scan(a ...any) (int, error)             { return fmt.Fscan(simos.Stdin, a...) }
func Scanln(a ...any) (int, error)           { return fmt.Fscanln(simos.Stdin, a...) }
func Scanf(f string, a ...any) (int, error)  { return fmt.Fscanf(simos.Stdin, f, a...) }
