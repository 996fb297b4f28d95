// Command vh drives the dictionaries of plainkv through workloads and watches
// them with monitors; see ../DESIGN.md.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"strconv"
)

func main() {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: vh drive|work|list|variants|replay PROPERTY ...")
		os.Exit(2)
	}
	seed := uint64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		n, err := strconv.ParseInt(s, 10, 64)
		if err != nil {
			fmt.Fprintln(os.Stderr, "VERIF_SEED:", err)
			os.Exit(2)
		}
		seed = uint64(n)
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	prop := os.Args[2]
	switch os.Args[1] {
	case "list":
		for i, c := range casesOf(prop, tier, seed) {
			fmt.Println(i, c.Variant, c.Cost, c.Name)
		}
	case "variants":
		seen := map[string]bool{}
		for _, c := range casesOf(prop, tier, seed) {
			if !seen[c.Variant] {
				seen[c.Variant] = true
				fmt.Println(c.Variant)
			}
		}
	case "session":
		os.Exit(sessionCommand(prop, os.Args[3]))
	case "work":
		worker(prop, tier, seed, os.Args[3])
	case "drive":
		os.Exit(drive(prop, tier, seed, ""))
	case "replay":
		// replay FILE: runs the case of a replay file again
		b, err := os.ReadFile(prop)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		var rp Replay
		if err := json.Unmarshal(b, &rp); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		os.Exit(drive(rp.Property, rp.Tier, rp.Seed, rp.Case))
	case "one":
		// one PROPERTY CASE: runs one case in this process
		for i, c := range casesOf(prop, tier, seed) {
			if c.Name == os.Args[3] {
				dir, _ := os.MkdirTemp("/dev/shm", "vh-one-")
				r := runCase(prop, tier, seed, i, c, dir)
				os.RemoveAll(dir)
				b, _ := json.MarshalIndent(r, "", " ")
				fmt.Println(string(b))
			}
		}
	default:
		fmt.Fprintln(os.Stderr, "unknown command", os.Args[1])
		os.Exit(2)
	}
}
