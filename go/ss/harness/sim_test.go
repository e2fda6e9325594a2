package main

import (
	_ "embed"
	"encoding/json"
	"os"
	"testing"

	"vsim/ss/meta"
)

//go:embed meta.json
var metaJSON []byte

var args []string

func TestMain(m *testing.M) {
	args = os.Args[1:]
	os.Args = []string{os.Args[0], "-test.run=TestSim", "-test.timeout=0"}
	theMeta = &meta.Meta{}
	if err := json.Unmarshal(metaJSON, theMeta); err != nil {
		panic(err)
	}
	m.Run()
	os.Exit(status)
}

func TestSim(t *testing.T) {
	curT = t
	command(args)
}
