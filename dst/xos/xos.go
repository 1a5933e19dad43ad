// Package xos turns os.Exit into a simulated process exit.
package xos

import (
	"fmt"

	"verif.local/dst/rt"
)

func Exit(code int) { rt.Exit(fmt.Sprintf("os.Exit(%d)", code)) }
