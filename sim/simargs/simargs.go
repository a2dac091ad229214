// Package simargs holds the command lines of the simulated tool instances.
package simargs

import "flag"

var commands = map[string]string{"a": "serve", "b": "fixture", "c": "log"}

var args = map[string][]string{}

var parsed = map[string]*flag.FlagSet{}

func init() {
	for id := range commands {
		Set(id, "-server", "amqp://router:5672")
	}
}

// For replaces os.Args.
func For(id string) []string { return args[id] }

// Flags notes the flag set a tool parses its command line with.
func Flags[T any](id string, fs T) T {
	if f, ok := any(fs).(*flag.FlagSet); ok {
		parsed[id] = f
	}
	return fs
}

// Set changes the command line of a tool before it runs. What had been parsed
// when the program started is parsed again.
func Set(id string, options ...string) {
	args[id] = append(append([]string{"vanflow-tool"}, options...), commands[id])
	if f := parsed[id]; f != nil {
		f.VisitAll(func(o *flag.Flag) { o.Value.Set(o.DefValue) })
		if err := f.Parse(args[id][1:]); err != nil {
			panic(err)
		}
	}
}
