// Command native runs the self-test functions on the real runtime.
package main

import (
	"fmt"

	"verif.local/selftest/lib"
)

func main() {
	for _, t := range lib.Tests {
		fmt.Printf("%s %q\n", t.Name, t.F())
	}
}
