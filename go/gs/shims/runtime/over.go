package runtime

import "vsim/gs/simrt"

func NumCPU() int          { return simrt.W.Cfg.CPUs }
func GOMAXPROCS(n int) int { return simrt.W.Cfg.CPUs }
func Gosched()             { simrt.Gosched() }
