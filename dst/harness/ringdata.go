package harness

// Written by tools/ringdata: pairs of server names that share a point of the
// ring, and keys whose hash is that point, one more and one less.
type ringPair struct {
	a, b string
	keys [3]string
}

var ringPairs = []ringPair{
	{"cache-367", "cache-417", [3]string{"c6h5gtl8", "en44yoes", "yg1vmwk5"}},
	{"cache-531", "cache-754", [3]string{"bjm30jrh", "iz160u7p", "eig17cs8"}},
	{"cache-271", "cache-822", [3]string{"k054qhuh", "ihniep77", "ulundd0p"}},
	{"cache-182", "cache-1065", [3]string{"k8j1u66f", "lp1qhyxp", "hxj36sf1"}},
	{"cache-1202", "cache-1272", [3]string{"5xzozvo6", "zg8h9d8e", "yvsrar32"}},
	{"cache-971", "cache-1353", [3]string{"f9xucbj8", "vpx1s2pf", "b3mlw802"}},
	{"cache-396", "cache-1359", [3]string{"246z2o32", "qengakjq", "53kj2txc"}},
	{"cache-261", "cache-1564", [3]string{"bcar3uxi", "6f77bliw", "f8k8ped1"}},
	{"cache-1359", "cache-1612", [3]string{"s8a9qxyz", "q40u41dh", "mryc9vfe"}},
	{"cache-49", "cache-1689", [3]string{"qckphiu4", "p6dk4120", "brp6enp0"}},
	{"cache-112", "cache-1799", [3]string{"8nksn1yi", "phbi9f0r", "vw0qmeum"}},
	{"cache-677", "cache-1839", [3]string{"7ly7jlvt", "a1pdr66k", "rla9zwnf"}},
}

// ringNames are server names with keys that hit one of their points exactly.
var ringNames = []struct {
	name string
	keys []string
}{
	{"mc1", []string{"59why0lg", "jyxvp4i6", "b24cb5ow", "6ymht8e2", "yjf4m9k3", "t7nfxxf8", "2z22q458", "sa1y118c"}},
	{"mc2", []string{"sb2efpbx", "f62wslmj", "rnvtjdm9", "46i5fa0e", "1lp6ygox", "gi19wf0h", "gj30msap", "v9agcdxf"}},
	{"mc3", []string{"yiytmffx", "p9o72kid", "mcypcpxs", "1nginaj4", "7sgtfpd2", "hr0gu7ak", "hu48163d", "wr0klaml"}},
	{"mc4", []string{"4ysrgw5l", "swakh9gh", "v5zlht2t", "gb6s91td", "1lzmvr5z", "l8er9v19", "orfjcwq5", "v93z6zbq"}},
	{"mc5", []string{"lmtpa8vz", "3330apf6", "hbrr5gs0", "v9hya11u", "4774hv2b", "5efazq2p", "8uo6gdaw", "010moldt"}},
	{"mc6", []string{"8jli4pxa", "yxyiqyv3", "4jdi2cks", "vf65afdw", "5xj96laa", "aw25a1w5", "mpxyrhrd", "2nt75bq3"}},
	{"alpha", []string{"vd7nalbk", "wixgj1b2", "oh3bxfoj", "2tnw52pt", "irhajhng", "ef94ggba", "syw616ik", "xpt3ce4b"}},
	{"b", []string{"i2flkaki", "ou26t7mx", "tokpua2d", "ipevqgag", "zri93t3l", "hdhm9vw2", "ta3eqv6v", "0op9q83s"}},
}
