// Command sim runs the self-test functions in the simulator and compares their
// results with the native ones (a file written by native).
package main

import (
	"bufio"
	"flag"
	"fmt"
	"os"
	"strings"

	"verif.local/dst/rt"
	"verif.local/dst/xnet"
	"verif.local/selftest/lib"
)

func main() {
	want := flag.String("want", "", "native results")
	seeds := flag.Int("seeds", 300, "runs of each function")
	flag.Parse()
	exp := map[string]string{}
	f, err := os.Open(*want)
	if err != nil {
		panic(err)
	}
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		k, v, _ := strings.Cut(sc.Text(), " ")
		exp[k] = v
	}
	bad := 0
	for _, t := range lib.Tests {
		for s := 1; s <= *seeds; s++ {
			got := run(uint64(s), t.F)
			if got != exp[t.Name] {
				fmt.Printf("%s seed %d: %s, natively %s\n", t.Name, s, got, exp[t.Name])
				bad++
				break
			}
		}
	}
	fmt.Printf("%d functions, %d differ\n", len(lib.Tests), bad)
	if bad > 0 {
		os.Exit(1)
	}
}

func run(seed uint64, f func() string) string {
	w := rt.NewWorld(rt.NewStream(rt.Mix(seed, 1)), rt.NewStream(rt.Mix(seed, 2)), rt.NewStream(rt.Mix(seed, 3)))
	w.MaxSteps = 1000000
	w.ChoosePolicy(false)
	n := xnet.New(w)
	n.Host("client").Up = true
	out := "no result"
	w.Run(func() { out = fmt.Sprintf("%q", f()) })
	if w.Viol != nil {
		return "violation " + w.Viol.Class + ": " + w.Viol.Msg
	}
	return out
}
