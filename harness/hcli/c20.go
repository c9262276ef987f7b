// Package hcli holds the harnesses of the command line program.
package hcli

import (
	"os"

	"github.com/go-bond/bond/zzverif/bondcli"
	"github.com/go-bond/bond/zzverif/h"
	_ "github.com/go-bond/bond/zzverif/hins"
)

func init() {
	h.Registry["C20Cli"] = C20Cli
}

// run is one run of the program; the end of its process releases what it opened.
func run(args ...string) {
	old := os.Args
	os.Args = append([]string{"bond-cli"}, args...)
	bondcli.Opened = nil
	bondcli.Main()
	os.Args = old
	for _, db := range bondcli.Opened {
		release(db)
	}
}

func release(db interface{ Close() error }) {
	defer func() { recover() }()
	_ = db.Close()
}

// C20Cli: dump and restore on the command line.
func C20Cli(n, m, ids, idx int) { h.Commands(run, n, m, ids, idx) }
