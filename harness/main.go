package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"io/ioutil"
	"os"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vmon run|child|list ...")
		os.Exit(2)
	}
	if os.Args[1] == "kschild" {
		os.Exit(ksChild(os.Args[2:]))
	}
	if os.Args[1] == "zkchild" {
		os.Exit(zkChild(os.Args[2:]))
	}
	fs := flag.NewFlagSet("vmon", flag.ExitOnError)
	prop := fs.String("prop", "", "property")
	part := fs.String("part", "", "part")
	tier := fs.String("tier", "quick", "tier")
	seed := fs.Int64("seed", 1, "seed")
	race := fs.Bool("race", false, "race parts")
	out := fs.String("out", "", "record file")
	only := fs.Int("case", -1, "single case")
	plain := fs.String("plain", os.Args[0], "plain binary")
	raceBin := fs.String("racebin", "", "race binary")
	verif := fs.String("verif", "/verif", "verif dir")
	replay := fs.String("replay", "", "replay file")
	fs.Parse(os.Args[2:])
	switch os.Args[1] {
	case "child":
		os.Exit(childMain(*prop, *part, *tier, *seed, *race, *out, *only))
	case "hasrace":
		for _, p := range parts {
			if p.Prop == *prop && p.Race {
				os.Exit(0)
			}
		}
		os.Exit(1)
	case "run":
		rr := -1
		if *replay != "" {
			b, err := ioutil.ReadFile(*replay)
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(2)
			}
			var r struct {
				Part, Tier string
				Case       int
				Seed       int64
				Race       bool
			}
			if err := json.Unmarshal(b, &r); err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(2)
			}
			*part, *tier, *only, *seed = r.Part, r.Tier, r.Case, r.Seed
			if r.Race {
				rr = 1
			} else {
				rr = 0
			}
		}
		os.Exit(parentMain(*prop, *tier, *seed, *plain, *raceBin, *verif, *part, *only, rr))
	case "list":
		for _, p := range parts {
			fmt.Println(p.Prop, p.Name, p.Race, p.Quick, p.Thorough)
		}
	default:
		os.Exit(2)
	}
}
