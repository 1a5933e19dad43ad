package harness

import (
	"strings"

	"verif.local/dst/node"
	"verif.local/dst/rt"
)

// Kinds of outages of one server.
const (
	OCrashRst = iota // process dies, connections are reset; restarted at the end
	OCrashFin        // process exits, connections are closed; restarted at the end
	OPower           // host vanishes silently; booted at the end
	OPart            // both directions blocked
	OPartTo          // requests do not arrive
	OPartFrom        // replies do not arrive
	OFreeze          // the process stops without ending
	OResetAll        // all connections reset, server stays up
	OFinAll          // all connections closed, server stays up
	OReboot          // host vanishes and is back at once, without its connections
	OGarble          // something else answers the requests
	numOutages
)

var outageNames = []string{"process_crash_rst", "process_crash_fin", "power_failure", "partition", "partition_to_server",
	"partition_from_server", "freeze", "reset_all_connections", "close_all_connections", "silent_reboot", "something_else_answers"}

// loud outages are noticed by the clients without any timeout.
var loudOutages = []int{OCrashRst, OCrashFin, OResetAll, OFinAll, OGarble}

var allOutages = []int{OCrashRst, OCrashFin, OPower, OPart, OPartTo, OPartFrom, OFreeze, OResetAll, OFinAll, OReboot, OGarble}

// outage makes server n unavailable to the given client hosts and returns the
// function that ends it.
func (e *Env) outage(n *node.Node, kind int, hosts ...string) func() {
	e.W.Count("fault.outage_" + outageNames[kind])
	e.W.Logf("outage %s of %s", outageNames[kind], n.Name)
	drop := func(rst bool) {
		for _, c := range append([]*node.Conn(nil), n.Conns...) {
			c.CloseConn(rst)
		}
	}
	end := func() {}
	switch kind {
	case OCrashRst, OCrashFin:
		n.Crash(kind == OCrashFin)
		end = n.Restart
	case OPower:
		n.PowerFail()
		end = n.Restart
	case OPart:
		for _, h := range hosts {
			e.N.BlockBoth(h, n.Host)
		}
		end = func() {
			for _, h := range hosts {
				e.N.HealBoth(h, n.Host)
			}
		}
	case OPartTo:
		for _, h := range hosts {
			e.N.Block(h, n.Host)
		}
		end = func() {
			for _, h := range hosts {
				e.N.Heal(h, n.Host)
			}
		}
	case OPartFrom:
		for _, h := range hosts {
			e.N.Block(n.Host, h)
		}
		end = func() {
			for _, h := range hosts {
				e.N.Heal(n.Host, h)
			}
		}
	case OFreeze:
		n.Freeze()
		end = n.Thaw
	case OResetAll, OFinAll:
		drop(kind == OResetAll)
	case OGarble:
		n.Garble = []string{"HTTP/1.1 400 Bad Request\r\nConnection: close\r\n\r\n", "-NOAUTH Authentication required.\r\n",
			"220 mail.example.org ESMTP ready\r\n\x00\x00", strings.Repeat("\x00", 30) + "\r\n", strings.Repeat("\xff", 5000) + "\r\n"}[e.P.N(5)]
		end = func() { n.Garble = "" }
	case OReboot:
		n.PowerFail()
		n.Restart()
	}
	return func() {
		end()
		e.W.Logf("outage of %s ends", n.Name)
	}
}

// outageLen draws the length of an outage.
func (e *Env) outageLen() rt.Duration {
	switch e.P.N(4) {
	case 0:
		return dur(e.P, 0, 50*ms)
	case 1:
		return dur(e.P, 50*ms, 2*sec)
	case 2:
		return dur(e.P, sec, 10*sec)
	}
	return dur(e.P, 10*sec, 90*sec)
}

func (e *Env) hosts() []string {
	var h []string
	for _, c := range e.Cls {
		h = append(h, c.Proc.Host)
	}
	return h
}
