package main

var standin = "the pairing library is replaced by an exponent-arithmetic stand-in with the same group orders (bound to the real library by replaying sample plans with it); "
var bounds = "schedules are the enumerated deviations from two default delivery orders, not every interleaving; links are reliable FIFO byte streams unless a plan says otherwise"

var onReal = "the states and transitions are of the repository's own code under a controlled scheduler and network; the pairing library is replaced by an exponent-arithmetic stand-in, and traces_validated_against_impl plans were executed again with the real library, with the same outcome"

func party(ids ...string) {
	for _, id := range ids {
		checks[id] = checkDef{parts: []part{{bin: "party", id: id, validate: "partyreal"}}, level: "model_checking", validation: onReal,
			assumptions: []string{standin, bounds, "data races are not modelled below the scheduling points (synchronisation, channel operations, accesses to shared variables)"}}
	}
}

var checks = map[string]checkDef{}

func init() {
	party("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C16", "C26", "C27")
	checks["C28"] = checkDef{parts: []part{{bin: "cmd", id: "C28", validate: "cmdreal"}}, level: "model_checking",
		validation:  "the states and transitions are of the repository's own program, all of its processes in one controlled world; traces_validated_against_impl plans were executed again, unrewritten, as processes of the operating system over the loopback network with the real pairing library, and every member that was not faulty finished there too",
		assumptions: []string{standin, bounds, "processes share the package-level variables of the packages of the repository; a program that keeps its flags in package-level variables is not explored"}}
	checks["C29"] = checkDef{parts: []part{{bin: "partyrace", id: "C29"}}, level: "model_checking",
		validation:  "the states and transitions are of the repository's own code under a controlled scheduler and network, compiled with the race detector of the Go toolchain; a report counts only when two executions of the plan in processes of their own give it again",
		assumptions: []string{standin, bounds, "accesses within the pairing library and within package log are not watched; the detector remembers a bounded number of the last accesses to a word"}}
	for _, id := range []string{"C14", "C15"} {
		checks[id] = checkDef{parts: []part{{bin: "core", id: id, validate: "corereal"}}, level: "model_checking",
			validation:  "the states and transitions are of the repository's own code under a controlled scheduler and a network model; traces_validated_against_impl plans were executed again, unrewritten, over real sockets of the kernel, with the same outcome",
			assumptions: []string{bounds, "the network stack is replaced by a byte-stream model (segmentation, limited room in flight, closed connections)"}}
	}
	oracle := "the inputs are those of the listed families (every vector over a small alphabet of edge values up to a size, every position of a deviating element, every index set of a size), not every field element; the oracle computes with math/big from the definitions"
	field := []part{{bin: "polyreal"}, {bin: "polyhbls"}, {bin: "polyhol256"}, {bin: "polypure"}}
	with := func(id string, ps ...part) []part {
		l := append([]part{}, ps...)
		for i := range l {
			if l[i].id == "" {
				l[i].id = id
			}
		}
		return l
	}
	groups := "polyreal,polyhbls"
	onReal := "plans of every run executed again with both real pairing libraries, with the same outcome"
	input(with("C21", append(field, part{bin: "poly", id: "C21g", validate: groups})...), onReal, standin, oracle)
	input(with("C22", field...), "", oracle)
	input(with("C19", part{bin: "poly", validate: groups}), onReal, standin, oracle)
	input(with("C20", part{bin: "poly", validate: groups}), onReal, standin, oracle)
	input(with("C17", part{bin: "codec"}, part{bin: "keygen", id: "C17g", validate: "keygenreal"}), onReal, standin, oracle)
	input(with("C18", part{bin: "ringreal"}, part{bin: "ringhbls"}, part{bin: "keygen", id: "C18g", validate: "keygenreal"}), onReal, standin, oracle)
	input(with("C23", part{bin: "blskilic"}, part{bin: "blshbls"}, part{bin: "blshol256"}, part{bin: "blspure"}), "", oracle)
	input(with("C24", part{bin: "keygenreal"}), "", oracle)
	input(with("C25", part{bin: "blskilic"}, part{bin: "blshbls"}), "", oracle)
}

// input registers a check over the inputs of sequential code.
func input(ps []part, validation string, assumptions ...string) {
	id := ps[0].id
	checks[id] = checkDef{parts: ps, level: "exploration", validation: validation, assumptions: assumptions}
}
