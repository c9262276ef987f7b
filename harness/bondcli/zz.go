// Package bondcli is the command line program of the repository (its files are
// added from the current tree) with access to the databases it opens.
package bondcli

import "github.com/go-bond/bond"

// Opened are the databases the program opened.
var Opened []bond.DB

func zzOpen(dir string, o *bond.Options) (bond.DB, error) {
	db, err := bond.Open(dir, o)
	if err == nil {
		Opened = append(Opened, db)
	}
	return db, err
}

// Main is the program.
func Main() { main() }
