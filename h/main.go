// Command vh runs the checks.
package main

import (
	"flag"
	"fmt"
	"os"
	"strconv"

	"verifh/mc"
	_ "verifh/props"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: vh check|replay|worker|list ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "worker":
		mc.WorkerMain()
	case "list":
		for _, id := range mc.IDs() {
			fmt.Println(id)
		}
	case "overlay":
		if err := overlay(os.Args[2], os.Args[3]); err != nil {
			fmt.Println("ERROR:", err)
			os.Exit(2)
		}
	case "replay":
		os.Exit(mc.ReplayFile(os.Args[2]))
	case "check":
		fs := flag.NewFlagSet("check", flag.ExitOnError)
		var o mc.Options
		id := fs.String("prop", "", "property")
		fs.StringVar(&o.Tier, "tier", "quick", "quick or thorough")
		fs.StringVar(&o.Only, "world", "", "only worlds containing this")
		fs.StringVar(&o.Verif, "verif", "/verif", "where to write evidence and replays")
		fs.IntVar(&o.Seconds, "seconds", 0, "time limit of the exploration")
		fs.BoolVar(&o.Verbose, "v", false, "report each job")
		fs.Parse(os.Args[2:])
		if o.Seconds == 0 {
			o.Seconds = 300
			if o.Tier == "thorough" {
				o.Seconds = 700
			}
		}
		o.Seed, _ = strconv.Atoi(os.Getenv("VERIF_SEED"))
		p := mc.Get(*id)
		if p == nil {
			fmt.Println("ERROR: no check for", *id)
			os.Exit(2)
		}
		os.Exit(mc.Check(p, o))
	default:
		fmt.Println("unknown command")
		os.Exit(2)
	}
}
