package main

import (
	"crypto/sha1"
	"encoding/binary"
	"fmt"
	"hash/crc32"
	"math/rand"
	"sort"
	"strconv"
)

const cs = "abcdefghijklmnopqrstuvwxyz0123456789"

var tab = crc32.IEEETable
var rev [256]byte

func step(s uint32, b byte) uint32 { return tab[byte(s)^b] ^ s>>8 }
func back(s uint32, b byte) uint32 {
	i := rev[s>>24]
	return (s^tab[i])<<8 | uint32(i^b)
}

var fwd map[uint32]int32

func find(target uint32) string {
	t := ^target
	for i := 0; ; i++ {
		r := rand.Intn(36 * 36 * 36 * 36)
		s := t
		var b [4]byte
		for k := 3; k >= 0; k-- {
			b[k] = cs[r%36]
			r /= 36
			s = back(s, b[k])
		}
		if p, ok := fwd[s]; ok {
			k := name(int(p)) + string(b[:])
			if crc32.ChecksumIEEE([]byte(k)) != target {
				panic("bad")
			}
			return k
		}
	}
}
func name(p int) string {
	var b [4]byte
	for k := 3; k >= 0; k-- {
		b[k] = cs[p%36]
		p /= 36
	}
	return string(b[:])
}
func main() {
	rand.Seed(1)
	for i, v := range tab {
		rev[v>>24] = byte(i)
	}
	fwd = map[uint32]int32{}
	for p := 0; p < 36*36*36*36; p++ {
		s := ^uint32(0)
		for _, c := range []byte(name(p)) {
			s = step(s, c)
		}
		fwd[s] = int32(p)
	}
	seen := map[uint32]string{}
	type pr struct {
		a, b string
		h    uint32
	}
	var ps []pr
	for n := 0; n < 2000 && len(ps) < 12; n++ {
		nm := fmt.Sprintf("cache-%d", n)
		for i := 0; i < 200; i++ {
			s := sha1.Sum([]byte(nm + "/" + strconv.Itoa(i)))
			h := binary.BigEndian.Uint32(s[:4])
			if o, ok := seen[h]; ok && o != nm {
				ps = append(ps, pr{o, nm, h})
			}
			seen[h] = nm
		}
	}
	fmt.Println("package harness\n\n// Written by tools/ringdata: pairs of server names that share a point of the\n// ring, and keys whose hash is that point, one more and one less.\ntype ringPair struct {\n\ta, b string\n\tkeys [3]string\n}\n\nvar ringPairs = []ringPair{")
	for _, p := range ps {
		fmt.Printf("\t{%q, %q, [3]string{%q, %q, %q}},\n", p.a, p.b, find(p.h), find(p.h+1), find(p.h-1))
	}
	fmt.Println("}\n\n// ringNames are server names with keys that hit one of their points exactly.\nvar ringNames = []struct {\n\tname string\n\tkeys []string\n}{")
	for _, nm := range []string{"mc1", "mc2", "mc3", "mc4", "mc5", "mc6", "alpha", "b"} {
		var hs []uint32
		for i := 0; i < 200; i++ {
			s := sha1.Sum([]byte(nm + "/" + strconv.Itoa(i)))
			hs = append(hs, binary.BigEndian.Uint32(s[:4]))
		}
		sort.Slice(hs, func(i, j int) bool { return hs[i] < hs[j] })
		fmt.Printf("\t{%q, []string{", nm)
		for j, i := range []int{0, 199, 20, 77, 130, 180} {
			if j > 0 {
				fmt.Print(", ")
			}
			fmt.Printf("%q", find(hs[i]))
		}
		fmt.Printf(", %q, %q}},\n", find(hs[0]-1), find(hs[199]+1))
	}
	fmt.Println("}")
}
