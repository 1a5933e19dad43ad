package harness

import "verif.local/dst/node"

var allProtos = []int{Text, Meta, Bin}

var clientReal = []string{"client.ServerWithTextProtocol", "client.ServerWithMetaProtocol", "client.ServerWithBinaryProtocol", "client.heartbeat", "errors"}
var clientStub = []string{"TCP (xnet)", "clock and timers (xtime)", "sync and goroutine scheduling (rt)", "memcached server (node, byte-level model)"}

func init() {
	register(&Prop{ID: "C01", Real: clientReal, Stub: clientStub,
		Rule: "Cases: concurrent callers on shared clients of random protocols, random operations, keys and values, error replies, stalls, truncation, resets, crashes, segmentation, impossible keys.",
		Scens: []Scen{
			{"shared-conn-faults", 5, func(e *Env) {
				e.W.ChoosePolicy(true)
				e.runMix(mixCfg{Clients: [2]int{1, 2}, Callers: [2]int{1, 4}, Ops: [2]int{3, 14}, Protos: allProtos,
					G:       genOpt{W: fullMix, Keys: 5, Ctr: 2, BadP: 30, OddP: 20, MaxOver: 5},
					Timeout: 700, HB: 250, FaultP: []int{0, 40, 120}[e.P.N(3)], FaultW: connFaults(), MaxFault: 6, Recon: 400})
				e.mixOracles()
			}},
			{"refusals", 3, func(e *Env) {
				e.W.ChoosePolicy(false)
				e.runMix(mixCfg{Clients: [2]int{1, 2}, Callers: [2]int{1, 4}, Ops: [2]int{3, 14}, Protos: allProtos,
					G:      genOpt{W: fullMix, Keys: 5, Ctr: 2, BadP: 60, OddP: 40, MaxOver: 10},
					FaultP: []int{0, 150, 400}[e.P.N(3)], FaultW: errOnly, MaxFault: 100})
				e.mixOracles()
			}},
			{"sequential", 2, func(e *Env) {
				e.runSeq(seqCfg{Protos: allProtos, Clients: [2]int{1, 3}, Ops: [2]int{5, 40}, Timeout: true,
					G: genOpt{W: fullMix, Keys: 6, Ctr: 2, BadP: 60, OddP: 60, MaxOver: 10}, ErrP: []int{0, 100, 300}[e.P.N(3)]})
			}},
		}})
	register(&Prop{ID: "C02", Real: clientReal, Stub: clientStub,
		Rule: "Cases: concurrent clients of mixed protocols on one server, random operations on few keys, connection faults, crashes, error replies; per-key linearizability including the final contents.",
		Scens: []Scen{
			{"concurrent-faults", 5, func(e *Env) {
				e.W.ChoosePolicy(true)
				e.runMix(mixCfg{Clients: [2]int{1, 4}, Callers: [2]int{1, 3}, Ops: [2]int{3, 12}, Protos: allProtos,
					G:       genOpt{W: fullMix, Keys: 3, Ctr: 1, MaxOver: 3},
					Timeout: 700, HB: 200, FaultP: []int{0, 40, 120}[e.P.N(3)], FaultW: connFaults(), MaxFault: 6, Recon: 800})
				e.mixOracles()
			}},
			{"concurrent-healthy", 3, func(e *Env) {
				e.W.ChoosePolicy(true)
				e.runMix(mixCfg{Clients: [2]int{2, 4}, Callers: [2]int{1, 3}, Ops: [2]int{3, 12}, Protos: allProtos,
					G: genOpt{W: fullMix, Keys: 3, Ctr: 1}, HB: 150, Slow: true})
				for _, k := range e.Calls {
					if k.Cls == "other" && k.Op != "incr" && k.Op != "decr" {
						e.W.Fail("spurious-error", "%s failed with %v although nothing was wrong", k, k.Err)
					}
				}
				e.mixOracles()
			}},
			{"sequential", 2, func(e *Env) {
				e.runSeq(seqCfg{Protos: allProtos, Clients: [2]int{1, 3}, Ops: [2]int{5, 40}, Timeout: true,
					G: genOpt{W: fullMix, Keys: 4, Ctr: 1, OddP: 20, MaxOver: 5}})
			}},
			{"pools", 2, func(e *Env) { e.poolMix(fullMix, false) }},
		}})
	register(&Prop{ID: "C03", Real: clientReal, Stub: clientStub,
		Rule: "Cases: sequential and concurrent calls of all operations and protocols against a server that refuses requests with every kind of error answer.",
		Scens: []Scen{
			{"sequential-refusals", 6, func(e *Env) {
				e.runSeq(seqCfg{Protos: allProtos, Clients: [2]int{1, 3}, Ops: [2]int{5, 50}, Timeout: true,
					G: genOpt{W: fullMix, Keys: 5, Ctr: 2, MaxOver: 15}, ErrP: []int{0, 100, 300, 600}[e.P.N(4)]})
			}},
			{"concurrent-refusals", 2, func(e *Env) {
				e.W.ChoosePolicy(false)
				e.runMix(mixCfg{Clients: [2]int{1, 3}, Callers: [2]int{1, 3}, Ops: [2]int{3, 14}, Protos: allProtos,
					G:      genOpt{W: fullMix, Keys: 3, Ctr: 1, MaxOver: 10},
					FaultP: []int{50, 150, 400}[e.P.N(3)], FaultW: errOnly, MaxFault: 100})
				e.mixOracles()
			}},
			{"conn-faults", 2, func(e *Env) {
				e.W.ChoosePolicy(true)
				e.runMix(mixCfg{Clients: [2]int{1, 2}, Callers: [2]int{1, 2}, Ops: [2]int{3, 14}, Protos: allProtos,
					G:       genOpt{W: fullMix, Keys: 3, Ctr: 1},
					Timeout: 800, FaultP: []int{40, 120}[e.P.N(2)], FaultW: connFaults(), MaxFault: 6, Recon: 700})
				e.mixOracles()
			}},
		}})
	casMix := opWeights{"get": 5, "multi": 3, "cas": 10, "add": 2, "set": 1}
	register(&Prop{ID: "C04", Real: clientReal, Stub: clientStub,
		Rule: "Cases: read-modify-write loops of several callers over mixed protocols, with connection faults and restarts.",
		Scens: []Scen{
			{"rmw-loops", 5, func(e *Env) { e.W.ChoosePolicy(true); e.rmw(viaClients) }},
			{"rmw-pools", 1, func(e *Env) { e.W.ChoosePolicy(true); e.rmw(viaPool) }},
			{"rmw-replica-pools", 1, func(e *Env) { e.W.ChoosePolicy(true); e.rmw(viaReplica) }},
			{"mixed", 2, func(e *Env) {
				e.W.ChoosePolicy(true)
				e.runMix(mixCfg{Clients: [2]int{1, 3}, Callers: [2]int{1, 3}, Ops: [2]int{4, 14}, Protos: allProtos,
					G:       genOpt{W: casMix, Keys: 2},
					Timeout: 700, FaultP: []int{0, 60}[e.P.N(2)], FaultW: connFaults(), MaxFault: 4, Recon: 800})
				e.mixOracles()
			}},
			{"sequential", 2, func(e *Env) {
				e.runSeq(seqCfg{Protos: allProtos, Clients: [2]int{1, 3}, Ops: [2]int{5, 40},
					G: genOpt{W: casMix.with("touch", 1).with("incr", 1).with("delete", 1), Keys: 3}, ErrP: []int{0, 0, 150}[e.P.N(3)]})
			}},
		}})
	cntMix := opWeights{"incr": 8, "decr": 6, "get": 3, "multi": 1, "set": 1, "cas": 1, "add": 1, "touch": 1, "version": 1, "delete": 1, "replace": 1}
	register(&Prop{ID: "C05", Real: clientReal, Stub: clientStub,
		Rule: "Cases: concurrent counter updates of mixed protocols between other operations (which recycle request headers), with connection faults.",
		Scens: []Scen{
			{"counters-faults", 4, func(e *Env) {
				e.W.ChoosePolicy(true)
				e.runMix(mixCfg{Clients: [2]int{1, 3}, Callers: [2]int{1, 3}, Ops: [2]int{4, 14}, Protos: allProtos,
					G:       genOpt{W: cntMix, Keys: 3, Ctr: 2},
					Timeout: 700, HB: 300, FaultP: []int{0, 60, 120, 250}[e.P.N(4)], FaultW: connFaults(), MaxFault: 6, Recon: 600})
				e.mixOracles()
			}},
			{"counters-healthy", 3, func(e *Env) { e.W.ChoosePolicy(true); e.counters(viaClients) }},
			{"counters-pools", 1, func(e *Env) { e.W.ChoosePolicy(true); e.counters(viaPool) }},
			{"counters-replica-pools", 1, func(e *Env) { e.W.ChoosePolicy(true); e.counters(viaReplica) }},
			{"sequential", 3, func(e *Env) {
				e.runSeq(seqCfg{Protos: allProtos, Clients: [2]int{1, 3}, Ops: [2]int{5, 40},
					G: genOpt{W: cntMix, Keys: 4, Ctr: 2}, ErrP: []int{0, 0, 150}[e.P.N(3)]})
			}},
		}})
	_ = node.ANone
}
