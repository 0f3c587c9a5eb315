package sim

import (
	"encoding/json"
	"fmt"
	"io"
	"os"
)

// Main is the simulator's command line.
func Main() {
	a := os.Args[1:]
	if len(a) == 0 {
		fmt.Fprintln(os.Stderr, "usage: sim child | gen PROP SEED | run PROP SEED")
		os.Exit(2)
	}
	switch a[0] {
	case "child":
		b, err := io.ReadAll(os.Stdin)
		if err != nil {
			os.Exit(2)
		}
		var c Case
		if err := json.Unmarshal(b, &c); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		out, _ := json.Marshal(Execute(&c))
		os.Stdout.Write(out)
	case "gen":
		var s uint64
		fmt.Sscan(a[2], &s)
		out, _ := json.MarshalIndent(Generate(a[1], s, "quick"), "", " ")
		fmt.Println(string(out))
	case "run":
		var s uint64
		fmt.Sscan(a[2], &s)
		c := Generate(a[1], s, "quick")
		c.Trace = true
		res := Execute(c)
		fmt.Println(res.Trace)
		res.Trace = ""
		res.Decisions, res.Order, res.Prints, res.Perms = nil, nil, nil, nil
		out, _ := json.MarshalIndent(res, "", " ")
		fmt.Println(string(out))
	default:
		os.Exit(cli(a))
	}
}
