package node

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"strconv"
	"strings"

	"verif.local/dst/rt"
)

// dice draws the details of a mangled reply from one number.
type dice uint64

func (d *dice) n(k int) int {
	*d = *d*6364136223846793005 + 1442695040888963407
	return int(uint64(*d) >> 33 % uint64(k))
}

func (d *dice) pick(s ...string) string { return s[d.n(len(s))] }

// Claim is the length of a value that a mangled header announces without
// anything like it being sent.
var claims = []string{"2147483647", "1073741824", "700000000", "9223372036854775805", "9223372036854775807", "4294967296", "18446744073709551615", "99999999999999999999999"}

// Greetings are what a peer that is no memcached says first.
var Greetings = []string{
	"220 mail.example.org ESMTP ready\r\n", "HTTP/1.1 400 Bad Request\r\nContent-Length: 0\r\nConnection: close\r\n\r\n", "SSH-2.0-OpenSSH_9.6\r\n",
	"\r\n", "\n", "-NOAUTH Authentication required.\r\n", "+OK POP3 server ready <1896.697170952@db.example>\r\n", "login: ",
	"\x80\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", "\x15\x03\x01\x00\x02\x02\x28", "J\x00\x00\x00\x0a8.0.36\x00\x08\x00\x00\x00",
}

func (d *dice) garbageLine() string {
	switch d.n(4) {
	case 0:
		return Greetings[d.n(len(Greetings))]
	case 1:
		// longer than any line of a reply
		return d.pick("A", "1", "STORED ", "VALUE ", "0", " ") + strings.Repeat(d.pick("A", "1", " ", "VALUE k 0 ", "\x00"), 4100+d.n(30000)) + "A\r\n"
	case 2:
		b := make([]byte, 1+d.n(60))
		for i := range b {
			b[i] = byte(d.n(256))
		}
		if b[0] == 'H' || b[0] == 'E' || b[0] == 0x81 || b[0] >= '0' && b[0] <= '9' {
			b[0] = 'q'
		}
		return string(b) + "\r\n"
	}
	return d.pick("\r\n", "\n", " \r\n", "\r\r\n", "\x00\r\n", "STORE\r\n", "stored\r\n", "VALU\r\n", "V\r\n", "VA", "E\r\n", "X\r\n")
}

// otherReplies are single-line replies of other operations, for each group of
// operations.
func (d *dice) otherReply(op string) string {
	switch op {
	case "incr", "decr":
		return d.pick("STORED\r\n", "OK\r\n", "END\r\n", "HD\r\n", "DELETED\r\n", "VALUE 1\r\n")
	case "mg", "me", "ms", "md":
		return d.pick("STORED\r\n", "DELETED\r\n", "TOUCHED\r\n", "END\r\n", "OK\r\n", "HDX\r\n", "VALUE k 0 1\r\nx\r\nEND\r\n", "ENX\r\n")
	case "mn":
		return d.pick("HD\r\n", "OK\r\n", "STORED\r\n", "END\r\n", "MNX\r\n")
	case "version":
		return d.pick("OK\r\n", "STORED\r\n", "VERSION\r\n", "MN\r\n", "1.6.24\r\n")
	case "flush_all":
		return d.pick("STORED\r\n", "FLUSHED\r\n", "DELETED\r\n", "OKAY\r\n", "HD\r\n", "1\r\n")
	case "set", "cas", "add", "replace":
		return d.pick("DELETED\r\n", "TOUCHED\r\n", "OK\r\n", "HD\r\n", "END\r\n", "1\r\n", "STORED now\r\n", "NOT_STORE\r\n")
	case "delete":
		return d.pick("STORED\r\n", "TOUCHED\r\n", "OK\r\n", "HD\r\n", "END\r\n", "1\r\n", "DELETED k\r\n")
	case "touch":
		return d.pick("STORED\r\n", "DELETED\r\n", "OK\r\n", "HD\r\n", "END\r\n", "1\r\n", "TOUCHED 1\r\n")
	}
	return d.pick("STORED\r\n", "NOT_STORED\r\n", "OK\r\n", "DELETED\r\n", "TOUCHED\r\n", "EXISTS\r\n", "VERSION 1.6\r\n", "1\r\n") // get, gets
}

// Mangle turns the reply b to r into one that no client may take for an
// answer.
func Mangle(r *Req, b []byte, seed uint64) []byte {
	d := dice(seed*0x9e3779b97f4a7c15 + 1)
	d.n(2)
	if r.Proto == "bin" {
		return d.bin(r, b)
	}
	return d.line(r, b)
}

func (d *dice) badNumber() string {
	return d.pick("x", "-1", "1x", "0x10", "1e3", "-9223372036854775808", "99999999999999999999999", "+", "--5", "1.5")
}

func (d *dice) line(r *Req, b []byte) []byte {
	if at := lineStarts(b); len(at) > 1 && d.n(2) == 0 {
		k := at[d.n(len(at))]
		return append(b[:k:k], d.oneLine(r, b[k:])...)
	}
	return d.oneLine(r, b)
}

// lineStarts returns where the lines around the values of a text reply begin.
func lineStarts(b []byte) []int {
	at := []int{0}
	for k := 0; ; {
		i := bytes.IndexByte(b[k:], '\n')
		if i < 0 {
			return at
		}
		f := strings.Split(string(b[k:k+i-1]), " ")
		if f[0] != "VALUE" || len(f) < 4 {
			return at
		}
		n, _ := strconv.Atoi(f[3])
		k += i + 1 + n + 2
		if k >= len(b) {
			return at
		}
		at = append(at, k)
	}
}

func (d *dice) oneLine(r *Req, b []byte) []byte {
	i := bytes.IndexByte(b, '\n')
	head := string(b[:max(i-1, 0)])
	f := strings.Split(head, " ")
	value := f[0] == "VALUE" && len(f) >= 4 || f[0] == "VA" && len(f) >= 2
	if i > 0 && d.n(3) == 0 {
		if h, ok := d.distort(r, head); ok {
			return append([]byte(h+"\r\n"), b[i+1:]...)
		}
	}
	if !value {
		switch d.n(8) {
		case 0:
			return append(b[:i-1:i-1], '\n') // no \r
		case 1, 2, 3:
			return []byte(d.garbageLine())
		case 4, 5:
			return []byte(d.otherReply(r.Op))
		case 6:
			if len(f) > 1 {
				return []byte(d.otherReply(r.Op))
			}
			b = append([]byte(nil), b[:i-1]...)
			return append(b, "\x00\r\n"...)
		}
		if r.Op == "incr" || r.Op == "decr" {
			return []byte(d.pick("", d.badNumber(), d.badNumber()) + d.pick("\r\n", "\r\n", "\n"))
		}
		return append([]byte{b[0] ^ 0x20}, b[1:]...)
	}
	size := 3 // the field
	if f[0] == "VA" {
		size = 1
	}
	n, _ := strconv.Atoi(f[size])
	body := b[i+1:]
	join := func() []byte { return append([]byte(strings.Join(f, " ")+"\r\n"), body...) }
	meta := f[0] == "VA"
	switch d.n(12) {
	case 11:
		// an item that nobody asked for
		if !meta {
			f[1] = d.strangeKey(f[1])
			return join()
		}
		for k := range f {
			if k >= 2 && strings.HasPrefix(f[k], "k") {
				f[k] = "k" + d.strangeKey(f[k][1:])
				return join()
			}
		}
	case 0:
		return []byte(d.garbageLine())
	case 1:
		return []byte(d.otherReply(r.Op))
	case 2:
		// fields are missing
		if meta {
			return append([]byte(d.pick("VA\r\n", "VA \r\n", "VA f0 c1 t-1\r\n", "VAL\r\n", "VA")), body...)
		}
		f = f[:1+d.n(3)]
		return join()
	case 3:
		f[size] = d.badNumber()
		return join()
	case 4:
		// another number is broken
		if meta {
			if len(f) < 3 {
				f[1] = "-1"
				return join()
			}
			k := 2 + d.n(len(f)-2)
			if f[k][0] == 'k' || f[k][0] == 'O' {
				f[size] = "x"
				return join()
			}
			f[k] = f[k][:1] + d.pick("x", "", "1x", "99999999999999999999999", "--5", "1.5")
			return join()
		}
		k := 2
		if len(f) > 4 && d.n(2) == 0 {
			k = 4
		}
		f[k] = d.badNumber()
		return join()
	case 5:
		f[size] = claims[d.n(len(claims))]
		return join()
	case 6, 7:
		// the announced length is wrong
		k := n + 1
		if !meta {
			k += d.n(40) // replies to further requests may follow otherwise
		}
		if n > 0 && d.n(2) == 0 {
			k = max(n-1-d.n(40), 0)
		}
		for k == n || k+2 <= len(body) && body[k] == '\r' && body[k+1] == '\n' {
			k++
		}
		f[size] = strconv.Itoa(k)
		return join()
	case 8:
		// the value is not followed by a line end
		body = append([]byte(nil), body...)
		if n+2 <= len(body) {
			switch d.n(3) {
			case 0:
				copy(body[n:], "xx")
			case 1:
				copy(body[n:], "\n\r")
			case 2:
				body = append(body[:n], body[n+1:]...) // \n alone
			}
		}
		return join()
	case 9:
		// the header ends with \n alone
		return append([]byte(head+"\n"), body...)
	}
	return []byte(d.garbageLine())
}

// strangeKey is a key that no program of the workload uses.
func (d *dice) strangeKey(key string) string {
	switch d.n(4) {
	case 0:
		return key + "\x7f"
	case 1:
		return "\x7f" + key
	case 2:
		return "\x7f" + key[1:]
	}
	return key[:len(key)-1] + "\x7f"
}

// words are what a damaged line is put together from.
var words = []string{"VALUE", "END", "STORED", "NOT_STORED", "EXISTS", "NOT_FOUND", "DELETED", "TOUCHED", "OK", "STAT", "VERSION", "HD", "VA", "EN", "NS", "EX", "NF", "MN", "ME", "k", "0", "1", "-1", "", "s1", "f0", "c1", "\x00", "RESET", "OOM", "W", "value"}

// distort damages a line here and there, until it is certainly none that a
// server sends.
func (d *dice) distort(r *Req, head string) (string, bool) {
	for try := 0; try < 30; try++ {
		h := []byte(head)
		for n := 1 + d.n(2); n > 0; n-- {
			f := strings.Split(string(h), " ")
			k := d.n(len(f))
			at := d.n(len(h) + 1)
			switch d.n(11) {
			case 0:
				if at < len(h) {
					h[at] = byte(d.n(256))
				}
			case 1:
				if at < len(h) {
					h[at] ^= 1 << d.n(8)
				}
			case 2:
				if at < len(h) {
					h = append(h[:at], h[at+1:]...)
				}
			case 3:
				h = []byte(string(h[:at]) + string(rune(33+d.n(94))) + string(h[at:]))
			case 4:
				h = h[at:]
			case 5:
				h = h[:at]
			case 6:
				h = []byte(words[d.n(len(words))] + d.pick(" ", "", ":") + string(h))
			case 7:
				h = []byte(string(h) + d.pick(" ", "", ":") + words[d.n(len(words))])
			case 8:
				f[k] = words[d.n(len(words))]
				h = []byte(strings.Join(f, " "))
			case 9:
				j := d.n(len(f))
				f[k], f[j] = f[j], f[k]
				h = []byte(strings.Join(f, " "))
			case 10:
				h = []byte(strings.Join(append(f[:k:k], f[k+1:]...), " "))
			}
		}
		if bytes.IndexByte(h, '\n') == -1 && bytes.IndexByte(h, '\r') == -1 && !plausible(r, head, string(h)) {
			return string(h), true
		}
	}
	return "", false
}

// plausible reports whether a client may take the line h, which has been head,
// for an answer of any kind.
func plausible(r *Req, head, h string) bool {
	for _, v := range []string{"ERROR", "CLIENT_ERROR", "SERVER_ERROR"} {
		if strings.HasPrefix(h, v) {
			return true
		}
	}
	number := func(s string, bits int) bool {
		_, err := strconv.ParseUint(strings.TrimPrefix(s, "+"), 10, bits)
		return err == nil
	}
	f := strings.Fields(h)
	if len(f) == 0 {
		return false
	}
	one := func(s ...string) bool {
		for _, v := range s {
			if f[0] == v {
				return len(f) == 1
			}
		}
		return false
	}
	switch r.Op {
	case "get", "gets":
		if f[0] != "VALUE" {
			return one("END")
		}
		return len(f) >= 4 && number(f[2], 32) && number(f[3], 31) && (len(f) < 5 || number(f[4], 64))
	case "incr", "decr":
		return number(f[0], 64) || one("NOT_FOUND")
	case "version":
		return f[0] == "VERSION"
	case "flush_all":
		return one("OK")
	case "set", "cas", "add", "replace":
		return one("STORED", "NOT_STORED", "EXISTS", "NOT_FOUND")
	case "delete":
		return one("DELETED", "NOT_FOUND")
	case "touch":
		return one("TOUCHED", "NOT_FOUND")
	case "mg", "me", "ms", "md", "mn":
		switch f[0] {
		case "EN", "HD", "NS", "EX", "NF", "MN":
			return true
		case "VA":
			if len(f) < 2 || !number(f[1], 31) {
				return false
			}
			for _, t := range f[2:] {
				switch t[0] {
				case 'f':
					if !number(t[1:], 32) {
						return false
					}
				case 'c':
					if !number(t[1:], 64) {
						return false
					}
				case 't':
					if _, err := strconv.ParseInt(t[1:], 10, 64); err != nil {
						return false
					}
				}
			}
			return true
		}
		return false
	}
	return true
}

func (d *dice) bin(r *Req, b []byte) []byte {
	if len(b) < 24 {
		return []byte(d.garbageLine())
	}
	b = append([]byte(nil), b...)
	status := binary.BigEndian.Uint16(b[6:8])
	body := int(binary.BigEndian.Uint32(b[8:12]))
	hit := status == 0 && (b[1] == 0 || b[1] == 9 || b[1] == 12 || b[1] == 13)
	switch d.n(11) {
	case 10:
		// an item that nobody asked for
		n := int(b[4]) + 24
		k := int(binary.BigEndian.Uint16(b[2:4]))
		if hit && k > 0 && n+k <= len(b) {
			b[n+d.n(k)] = 0x7f
			break
		}
		return []byte(d.garbageLine())
	case 0:
		return []byte(d.garbageLine())
	case 1:
		b[0] = []byte{0x80, 0, 0x82, 0x01, 0xff, 'V'}[d.n(6)]
		if d.n(2) == 0 {
			b[6], b[7] = 0, 0
		}
	case 2:
		op := b[1]
		for b[1] == op || b[1] == 10 || b[1] == 13 && op == 10 {
			b[1] = byte(d.n(40))
		}
	case 3:
		// the parts are longer than the whole
		if d.n(2) == 0 || body >= 255 {
			binary.BigEndian.PutUint16(b[2:4], uint16(min(body+1+d.n(10), 65535)))
			if body >= 65535 {
				b[0] = 0
			}
		} else {
			b[4] = byte(min(body+1+d.n(3), 255))
			binary.BigEndian.PutUint16(b[2:4], uint16(d.n(20)))
		}
	case 4:
		binary.BigEndian.PutUint16(b[2:4], []uint16{65535, 65534, 65532, 65531}[d.n(4)])
		b[4] = []byte{255, 4, 5, 1, 3}[d.n(5)]
		if body >= 65535 {
			b[0] = 0
		}
	case 5:
		binary.BigEndian.PutUint32(b[8:12], []uint32{1<<32 - 1, 1 << 31, 1<<31 - 1, 700000000, 1 << 30}[d.n(5)])
	case 6:
		// more is announced than follows, unless other replies do
		if r.Op == "getkq" {
			b[0] = 0x80
			break
		}
		binary.BigEndian.PutUint32(b[8:12], uint32(body+1+d.n(23)))
	case 7:
		if hit {
			b[4] = []byte{0, 1, 3, 5, 8, 255}[d.n(6)]
			break
		}
		b[0] = byte(d.n(0x81))
	case 8:
		if status == 0 && (b[1] == 5 || b[1] == 6) {
			k := []int{0, 4, 7, 9, 20}[d.n(5)]
			binary.BigEndian.PutUint32(b[8:12], uint32(k))
			return append(b[:24], make([]byte, k)...)
		}
		if r.Op == "getkq" {
			b[0] ^= 1
			break
		}
		return b[:1+d.n(23)]
	default:
		return []byte(fmt.Sprintf("%s%s", d.pick("ERROR\r\n", "VALUE k 0 3\r\nabc\r\nEND\r\n", "HD\r\n"), d.pick("", strings.Repeat("x", 40))))
	}
	return b
}

// flood sends without any sign of an end.
func (c *Conn) flood(chunk []byte, n int, d rt.Duration) {
	if n == 0 || !c.live() || c.N.frozen {
		return
	}
	if !c.End.Full() {
		c.End.Send(chunk)
		c.N.Mangled += len(chunk)
	}
	c.N.W.At(d, func() { c.flood(chunk, n-1, d) })
}

// floodChunk is what such a stream consists of.
func floodChunk(r *Req, d *dice) []byte {
	if r.Proto == "bin" {
		b := make([]byte, 24+4+1+1)
		b[0], b[1] = 0x81, 13
		b[3], b[4], b[11] = 1, 4, 6
		b[28], b[29] = 'k', 'v'
		if d.n(2) == 0 {
			b[7] = 0x82 // refused
		}
		return bytes.Repeat(b, 40)
	}
	s := d.pick("SERVER_ERROR busy\r\n", "A", "\r\n", "0")
	if r.Op == "gets" && d.n(2) == 0 {
		s = "VALUE k 0 1 1\r\nx\r\n"
	}
	return bytes.Repeat([]byte(s), 1+1000/len(s))
}
