//go:build vsymmods

package vmodel

import (
	"github.com/dgraph-io/badger/v4"
	"github.com/gernest/rbf"
)

// The libraries are copies whose operations call a hook first.
func init() {
	nativeFault = func(f func(op string) error) {
		badger.VsymFault = f
		rbf.VsymFault = f
	}
}
