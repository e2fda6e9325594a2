//go:build gensim && !race

package main

func initRace()          {}
func endRace()           {}
func newRaces() []string { return nil }
