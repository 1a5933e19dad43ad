// conformance drives the model of memcached and a real memcached with the same
// random byte streams and compares every reply. It is a development tool: the
// checks never start a real server.
package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"flag"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"os/exec"
	"regexp"
	"strconv"
	"time"

	"verif.local/dst/node"
)

var ttl = regexp.MustCompile(` [tl](-?\d+)`)

func main() {
	seed := flag.Int64("seed", 1, "seed")
	n := flag.Int("n", 20000, "commands")
	port := flag.Int("port", 21211, "port")
	flag.Parse()
	cmd := exec.Command("memcached", "-p", strconv.Itoa(*port), "-U", "0", "-l", "127.0.0.1", "-u", "nobody", "-t", "1")
	if err := cmd.Start(); err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	defer cmd.Process.Kill()
	time.Sleep(300 * time.Millisecond)
	rnd := rand.New(rand.NewSource(*seed))
	var ver uint64
	st := node.NewStore(func() int64 { return time.Now().Unix() }, &ver)
	dial := func() net.Conn {
		c, err := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", *port))
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		return c
	}
	var tc, bc net.Conn
	var tr, br *bufio.Reader
	var ts, bs *node.Session
	open := func() {
		tc, bc = dial(), dial()
		tr, br = bufio.NewReader(tc), bufio.NewReader(bc)
		ts, bs = &node.Session{S: st}, &node.Session{S: st}
	}
	open()
	keys := []string{"a", "bb", "ccc", "k1"}
	pick := func(ss ...string) string { return ss[rnd.Intn(len(ss))] }
	key := func() string { return keys[rnd.Intn(len(keys))] }
	exp := func() string { return pick("0", "0", "0", "1000", "-1", "2592000", "2592001", strconv.FormatInt(time.Now().Unix()+500, 10)) }
	val := func() string { return pick("1", "10", "99", "100", "abc", "", "x\r\ny", "18446744073709551615", "5 ", "007") }
	bad := 0
	var queue [][]byte
	var hist []string
	for i := 0; i < *n; i++ {
		bin := rnd.Intn(3) == 0
		var in []byte
		if len(queue) > 0 {
			bin = false
			in = queue[0]
			queue = queue[1:]
		} else if !bin {
			k := key()
			if rnd.Intn(60) == 0 {
				k = string(bytes.Repeat([]byte("z"), 251))
			}
			v := val()
			casv := pick("0", "1", "5", strconv.FormatUint(uint64(rnd.Intn(int(ver)+3)), 10))
			if e := st.Peek(k); e != nil && rnd.Intn(2) == 0 {
				casv = strconv.FormatUint(e.Cas, 10)
			}
			switch rnd.Intn(16) {
			case 0:
				in = []byte(fmt.Sprintf("%s %s %s\r\n", pick("get", "gets"), k, key()))
			case 1:
				in = []byte(fmt.Sprintf("%s %s %s %s\r\n", pick("gat", "gats"), exp(), k, key()))
			case 2, 3:
				in = []byte(fmt.Sprintf("%s %s %s %s %d%s\r\n%s\r\n", pick("set", "set", "add", "replace", "append", "prepend"), k, pick("0", "7", "4294967295"), exp(), len(v), pick("", "", " noreply"), v))
			case 4:
				in = []byte(fmt.Sprintf("cas %s %s %s %d %s\r\n%s\r\n", k, pick("0", "7"), exp(), len(v), casv, v))
			case 5:
				in = []byte(fmt.Sprintf("delete %s%s\r\n", k, pick("", " 0", " noreply", " 5")))
			case 6:
				in = []byte(fmt.Sprintf("%s %s %s\r\n", pick("incr", "decr"), k, pick("1", "5", "100", "x", "-1", "18446744073709551615")))
			case 7:
				in = []byte(fmt.Sprintf("touch %s %s\r\n", k, exp()))
			case 8:
				in = []byte(pick("version\r\n", "mn\r\n", "bogus\r\n", "\r\n", "get\r\n", "touch a\r\n", "verbosity 1\r\n", "mg a\r\n", "ms a\r\n", "flush_all\r\n", "incr a\r\n"))
			case 9, 10, 11:
				fl := ""
				for _, f := range []string{"v", "f", "c", "t", "k", "s", "q", "Oabc", "T200", "h"} {
					p := 3
					if len(f) > 1 {
						p = 12
					}
					if rnd.Intn(p) == 0 {
						fl += " " + f
					}
				}
				in = []byte(fmt.Sprintf("mg %s%s\r\n", k, fl))
			case 12, 13:
				fl := ""
				for _, f := range []string{"T" + exp(), "F9", "F4294967295", "C" + casv, "I", "c", "k", "q", "Oxyz", "M" + pick("S", "E", "R", "A", "P")} {
					if rnd.Intn(5) == 0 && !(f[0] == 'F' && bytes.Contains([]byte(fl), []byte("F"))) {
						fl += " " + f
					}
				}
				in = []byte(fmt.Sprintf("ms %s %d%s\r\n%s\r\n", k, len(v), fl, v))
			case 14:
				fl := ""
				for _, f := range []string{"T" + exp(), "C" + casv, "I", "k", "q", "Oxyz"} {
					if rnd.Intn(4) == 0 {
						fl += " " + f
					}
				}
				in = []byte(fmt.Sprintf("md %s%s\r\n", k, fl))
			case 15:
				fl := ""
				for _, f := range []string{"v", "c", "t", "k", "q", "Oabc", "D5", "T200", "MD", "C" + casv} {
					if rnd.Intn(5) == 0 {
						fl += " " + f
					}
				}
				in = []byte(fmt.Sprintf("ma %s%s\r\n", k, fl))
			}
		} else {
			k := key()
			op := []byte{0, 1, 2, 3, 4, 5, 6, 8, 9, 0xb, 0xc, 0xd, 0xe, 0xf, 0x11, 0x12, 0x14, 0x15, 0x1c, 0x1d, 0x1e}[rnd.Intn(21)]
			var ex, v []byte
			var cas uint64
			if rnd.Intn(4) == 0 {
				cas = uint64(rnd.Intn(int(ver) + 3))
				if e := st.Peek(k); e != nil && rnd.Intn(2) == 0 {
					cas = e.Cas
				}
			}
			ev, _ := strconv.ParseInt(exp(), 10, 64)
			switch op {
			case 1, 2, 3, 0x11, 0x12:
				ex = make([]byte, 8)
				binary.BigEndian.PutUint32(ex, uint32(rnd.Intn(3)))
				binary.BigEndian.PutUint32(ex[4:], uint32(ev))
				v = []byte(val())
			case 0xe, 0xf:
				v = []byte(val())
			case 5, 6, 0x15:
				ex = make([]byte, 20)
				binary.BigEndian.PutUint64(ex, uint64(rnd.Intn(20)))
				binary.BigEndian.PutUint64(ex[8:], 3)
				binary.BigEndian.PutUint32(ex[16:], []uint32{0, 0xffffffff, 100}[rnd.Intn(3)])
			case 0x1c, 0x1d, 0x1e:
				ex = make([]byte, 4)
				binary.BigEndian.PutUint32(ex, uint32(ev))
			case 8, 0xb:
				k = ""
				if op == 8 && rnd.Intn(6) > 0 {
					continue
				}
			}
			h := make([]byte, 24)
			h[0] = 0x80
			h[1] = op
			binary.BigEndian.PutUint16(h[2:], uint16(len(k)))
			h[4] = byte(len(ex))
			binary.BigEndian.PutUint32(h[8:], uint32(len(k)+len(ex)+len(v)))
			binary.BigEndian.PutUint32(h[12:], 77)
			binary.BigEndian.PutUint64(h[16:], cas)
			in = append(append(append(h, ex...), k...), v...)
		}
		hist = append(hist, fmt.Sprintf("%q", in))
		if !bytes.Contains(in, []byte("mg ")) {
			for _, k := range keys {
				queue = append(queue, []byte("mg "+k+" c f t v\r\n"))
			}
		}
		var want, got []byte
		sess, conn, rd := ts, tc, tr
		marker := []byte("mn\r\n")
		end := []byte("MN\r\n")
		if bin {
			sess, conn, rd = bs, bc, br
			marker = make([]byte, 24)
			marker[0], marker[1] = 0x80, 0xa
			binary.BigEndian.PutUint32(marker[12:], 0xdeadbeef)
			end = make([]byte, 24)
			end[0], end[1] = 0x81, 0xa
			binary.BigEndian.PutUint32(end[12:], 0xdeadbeef)
		}
		sess.Feed(in)
		sess.Feed(marker)
		for {
			r := sess.Next()
			if r == nil {
				break
			}
			want = append(want, r.Execute()...)
		}
		conn.Write(append(in, marker...))
		conn.SetReadDeadline(time.Now().Add(500 * time.Millisecond))
		for !bytes.HasSuffix(got, end) {
			b, err := rd.ReadByte()
			if err != nil {
				if err != io.EOF {
					got = append(got, []byte("<"+err.Error()+">")...)
				} else {
					got = append(got, []byte("<EOF>")...)
				}
				break
			}
			got = append(got, b)
			if bytes.Equal(got, end) && string(in) == "mn\r\n" {
				// the command itself answers MN
				bb := make([]byte, 4)
				io.ReadFull(rd, bb)
				got = append(got, bb...)
			}
		}
		if sess.Closed {
			if !bytes.HasSuffix(got, []byte("<EOF>")) {
				fmt.Printf("model closed, real did not: in=%q real=%q\n", in, got)
				bad++
			}
			open()
			continue
		}
		if !same(want, got) && bytes.HasPrefix(in, []byte("mg ")) {
			// whether a shortened number keeps its length depends on the
			// server's momentary reference count
			f := bytes.SplitN(got, []byte("\r\n"), 3)
			k := string(bytes.Fields(in)[1])
			if e := st.Peek(k); e != nil && len(f) == 3 && bytes.Equal(bytes.TrimRight(e.Val, " "), bytes.TrimRight(f[1], " ")) && bytes.HasPrefix(got, []byte("VA")) && len(e.Val) != len(f[1]) {
				e.Val = append([]byte(nil), f[1]...)
				continue
			}
		}
		if !same(want, got) {
			fmt.Printf("DIFF in=%q\n  model=%q\n  real =%q\n", in, want, got)
			bad++
			for _, h := range hist[max(0, len(hist)-12):] {
				fmt.Println("    ", h)
			}
			if bad > 0 {
				break
			}
			if !bytes.HasSuffix(got, end) {
				tc.Close()
				bc.Close()
				open()
			}
		}
	}
	fmt.Printf("done, %d differences\n", bad)
	cmd.Process.Kill()
	if bad > 0 {
		os.Exit(1)
	}
}

// same compares replies, allowing one second of clock difference.
func same(a, b []byte) bool {
	if bytes.Equal(a, b) {
		return true
	}
	na, nb := ttl.FindAllSubmatch(a, -1), ttl.FindAllSubmatch(b, -1)
	if len(na) != len(nb) {
		return false
	}
	for i := range na {
		x, _ := strconv.Atoi(string(na[i][1]))
		y, _ := strconv.Atoi(string(nb[i][1]))
		if x-y > 1 || y-x > 1 {
			return false
		}
	}
	return bytes.Equal(ttl.ReplaceAll(a, nil), ttl.ReplaceAll(b, nil))
}
