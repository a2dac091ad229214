package main

type job struct {
	scenario string
	quick    int
	times    int // thorough multiplier
}

func (j job) factor() int {
	if j.times == 0 {
		return 10
	}
	return j.times
}

var jobsFor = map[string][]job{
	"S01": {{scenario: "store", quick: 18000}},
	"S02": {{scenario: "store", quick: 18000}},
	"S03": {{scenario: "store", quick: 18000}},
	"S04": {{scenario: "store", quick: 18000}},
	"S05": {{scenario: "paging", quick: 18000}},
	"S06": {{scenario: "store", quick: 12000}, {scenario: "dispatch", quick: 12000}},
	"C01": {{scenario: "session", quick: 9000}},
	"C02": {{scenario: "session", quick: 9000}, {scenario: "mock", quick: 3000}},
	"C03": {{scenario: "session", quick: 9000}, {scenario: "mock", quick: 3000}},
	"C04": {{scenario: "session", quick: 9000}, {scenario: "mock", quick: 3000}},
	"C05": {{scenario: "session", quick: 9000}},
	"C06": {{scenario: "session", quick: 9000}},
	"C08": {{scenario: "session", quick: 9000}, {scenario: "client", quick: 3000}},
	"C09": {{scenario: "session", quick: 9000}},
	"C07": {{scenario: "mock", quick: 15000}},
	"E01": {{scenario: "client", quick: 15000}},
	"E02": {{scenario: "client", quick: 15000}},
	"E03": {{scenario: "client", quick: 15000}},
	"E04": {{scenario: "discovery", quick: 15000}},
	"E05": {{scenario: "discovery", quick: 15000}},
	"E06": {{scenario: "watch", quick: 9000}},
	"E07": {{scenario: "malformed", quick: 15000}},
	"T01": {{scenario: "mesh", quick: 4500}},
	"T02": {{scenario: "serve", quick: 4000}},
	"T03": {{scenario: "fixture", quick: 4000}},
	"T04": {{scenario: "log", quick: 4000}},
	"T05": {{scenario: "log", quick: 1500}, {scenario: "serve", quick: 1200}, {scenario: "fixture", quick: 1000}},
	"M01": {{scenario: "manager", quick: 9000}},
	"M02": {{scenario: "manager", quick: 9000}},
	"M03": {{scenario: "manager", quick: 9000}},
	"R01": {{scenario: "store", quick: 600}, {scenario: "paging", quick: 200}, {scenario: "dispatch", quick: 400}, {scenario: "mock", quick: 600}, {scenario: "session", quick: 2000}, {scenario: "client", quick: 600}, {scenario: "discovery", quick: 600}, {scenario: "watch", quick: 200}, {scenario: "manager", quick: 600}, {scenario: "malformed", quick: 200}, {scenario: "mesh", quick: 200}, {scenario: "codec", quick: 400}, {scenario: "registry", quick: 200}, {scenario: "fixture", quick: 200}, {scenario: "serve", quick: 200}, {scenario: "log", quick: 200}},
	"M04": {{scenario: "manager", quick: 9000}},
	"X01": {{scenario: "registry", quick: 15000}},
}

const ruleSuffix = "; every interleaving and delay decided by the seeded scheduler at statement granularity; non-trivial: the run met the scenario's own condition (overlapping operations, a fault that struck, or a change during the walk); distinct by the hash of schedule and event log"

// scenarioRules says what one evaluation of a scenario is.
var scenarioRules = map[string]string{
	"store":     "seeded plans of 2-4 clients x 3-10 store operations (add, update, conditional update, delete, get, list, index, replace, accumulate) over 1-3 keys and indexers with zero, one or several buckets",
	"paging":    "seeded plans of 1-3 walkers paging a store or an index page (limit, order, continue token) while writers churn keys before, at and after the cursor",
	"dispatch":  "seeded plans of record messages of mixed types dispatched concurrently to stores, some of which reject records",
	"session":   "seeded plans of 1-6 links and their users on one container against the simulated router and network, 0-8 faults (refused and hanging dials, resets, cuts at byte offsets, stalls, handshake failures at every step, routers that cannot prove their identity on encrypted connections, session ends, detaches, withheld credit, restarts), contexts that end at random times, closes at random times",
	"mock":      "seeded plans of senders and receivers of the in-memory router: subscriptions, closes, cancellations, slow receivers",
	"client":    "seeded plans of message arrivals (good and undecodable), receive and accept errors, listeners, handlers and closes at random times over a scripted container",
	"discovery": "seeded plans of beacons, Add, Forget, Get, List, NewWatchClient in bursts from goroutines and callbacks around Run and its cancellation",
	"watch":     "seeded plans of heartbeat and record activity at intervals below and above the timeout of watched sources, with delays and stalls",
	"malformed": "seeded mutations of valid beacon, record, heartbeat and flush messages (missing and mistyped properties, subjects, bodies, unknown and null attributes, truncations, sizes) interleaved with valid ones",
	"manager":   "seeded plans of published updates, store changes, flush requests, send failures and hangs, and cancellation at random times against one manager",
	"mesh":      "seeded plans of 1-3 sources and a collector over the simulated network and router: updates, source and collector crashes, network and protocol faults; then a fault-free phase",
	"serve":     "seeded plans of sources that appear, fall silent and return, records on every address, connection faults shorter than the retry limit, concurrent HTTP requests and an interrupt, against the tool's serve command",
	"fixture":   "seeded plans of fixture posts (valid, malformed, partial, repeated, concurrent), flow requests and flushes, against the tool's fixture command",
	"log":       "seeded plans of sources that appear, fall silent and return, messages (good and odd) on every address, connection faults shorter than the retry limit or one longer, a standard output that stalls, is full or takes part of a line, every combination of flags, and an interrupt, against the tool's log command",
	"registry":  "seeded plans of 2-4 goroutines that register types (new ones, taken ones, unusable ones), encode and decode records while attributes' own codecs are slow, fail, panic, or register, encode and decode themselves",
	"codec":     "seeded plans of 2-4 goroutines that encode and decode records and messages they share while record types are registered",
}

func ruleOf(prop string) string {
	out := ""
	for _, j := range jobsFor[prop] {
		if out != "" {
			out += "; "
		}
		out += j.scenario + ": " + scenarioRules[j.scenario]
	}
	return out + ruleSuffix
}

var assumptions = []string{
	"goroutines switch at statement boundaries of the code under test and at blocking operations; preemption inside one statement is not explored (the race detector of R01 covers torn accesses)",
	"the wall clock does not jump: time.Now and timers share one virtual clock",
	"injected stall time is added to every time bound",
}

func realComponents(scs []string) []string {
	out := map[string]bool{}
	for _, s := range scs {
		for _, c := range components[s].real {
			out[c] = true
		}
	}
	return keys(out)
}

func stubComponents(scs []string) []string {
	out := map[string]bool{}
	for _, s := range scs {
		for _, c := range components[s].stub {
			out[c] = true
		}
	}
	return keys(out)
}

func keys(m map[string]bool) []string {
	out := []string{}
	for k := range m {
		out = append(out, k)
	}
	for i := range out {
		for j := i + 1; j < len(out); j++ {
			if out[j] < out[i] {
				out[i], out[j] = out[j], out[i]
			}
		}
	}
	return out
}

type comp struct{ real, stub []string }

var components = map[string]comp{
	"store":     {real: []string{"Go runtime goroutines, mutexes, channels", "store", "encoding", "records"}, stub: []string{"scheduler choice (seeded)", "clock (virtual)"}},
	"paging":    {real: []string{"Go runtime goroutines, mutexes, channels", "store"}, stub: []string{"scheduler choice (seeded)", "clock (virtual)"}},
	"dispatch":  {real: []string{"Go runtime goroutines, mutexes, channels", "store (dispatch)", "encoding", "records"}, stub: []string{"scheduler choice (seeded)", "clock (virtual)"}},
	"session":   {real: []string{"Go runtime goroutines, mutexes, channels", "session (container, sender, receiver)", "go-amqp client", "crypto/tls"}, stub: []string{"scheduler choice (seeded)", "clock (virtual)", "network (simulated connections)", "AMQP router (simulated, go-amqp frame codec, crypto/tls)"}},
	"mock":      {real: []string{"Go runtime goroutines, mutexes, channels", "session (mock router)"}, stub: []string{"scheduler choice (seeded)", "clock (virtual)"}},
	"client":    {real: []string{"Go runtime goroutines, mutexes, channels", "eventsource client", "vanflow message codecs", "encoding"}, stub: []string{"scheduler choice (seeded)", "clock (virtual)", "session.Container (scripted bus)"}},
	"discovery": {real: []string{"Go runtime goroutines, mutexes, channels", "eventsource discovery", "vanflow message codecs"}, stub: []string{"scheduler choice (seeded)", "clock (virtual)", "session.Container (scripted bus)"}},
	"watch":     {real: []string{"Go runtime goroutines, mutexes, channels", "eventsource discovery and watch", "eventsource client"}, stub: []string{"scheduler choice (seeded)", "clock (virtual)", "session.Container (scripted bus)"}},
	"malformed": {real: []string{"Go runtime goroutines, mutexes, channels", "eventsource discovery, client, manager", "store", "encoding", "records"}, stub: []string{"scheduler choice (seeded)", "clock (virtual)", "session.Container (scripted bus)"}},
	"manager":   {real: []string{"Go runtime goroutines, mutexes, channels", "eventsource manager", "store", "encoding", "records"}, stub: []string{"scheduler choice (seeded)", "clock (virtual)", "session.Container (scripted bus)"}},
	"mesh":      {real: []string{"Go runtime goroutines, mutexes, channels", "session", "go-amqp client", "eventsource manager, discovery, client", "store", "encoding", "records"}, stub: []string{"scheduler choice (seeded)", "clock (virtual)", "network (simulated connections)", "AMQP router (simulated, go-amqp frame codec, crypto/tls)"}},
	"serve":     {real: []string{"Go runtime goroutines, mutexes, channels", "cmd/vanflow-tool (serve)", "session", "go-amqp client", "crypto/tls", "eventsource", "store", "encoding", "net/http server"}, stub: []string{"scheduler choice (seeded)", "clock (virtual)", "network (simulated connections)", "AMQP router (simulated, go-amqp frame codec, crypto/tls)", "HTTP clients (in-process connections)", "process signals (simulated)", "event sources (scripted)"}},
	"fixture":   {real: []string{"Go runtime goroutines, mutexes, channels", "cmd/vanflow-tool (fixture)", "session", "go-amqp client", "crypto/tls", "eventsource", "store", "encoding", "net/http server"}, stub: []string{"scheduler choice (seeded)", "clock (virtual)", "network (simulated connections)", "AMQP router (simulated, go-amqp frame codec, crypto/tls)", "HTTP clients (in-process connections)", "process signals (simulated)", "collector (scripted)"}},
	"log":       {real: []string{"Go runtime goroutines, mutexes, channels", "cmd/vanflow-tool (log)", "session", "go-amqp client", "crypto/tls", "eventsource", "encoding"}, stub: []string{"scheduler choice (seeded)", "clock (virtual)", "network (simulated connections)", "AMQP router (simulated, go-amqp frame codec, crypto/tls)", "standard output (simulated)", "process signals (simulated)", "event sources (scripted)"}},
	"registry":  {real: []string{"Go runtime goroutines, mutexes, channels", "encoding"}, stub: []string{"scheduler choice (seeded)", "clock (virtual)", "attribute codecs (scripted)"}},
	"codec":     {real: []string{"Go runtime goroutines, mutexes, channels", "encoding", "vanflow message codecs", "records"}, stub: []string{"scheduler choice (seeded)", "clock (virtual)"}},
}
