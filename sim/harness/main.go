package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/pprof"

	"verifsim/simrt"
)

var (
	fMode  = flag.String("mode", "", "fuzz, one, worker, check, replay")
	fProp  = flag.String("prop", "", "property")
	fN     = flag.Int("n", 100, "runs")
	fStart = flag.Uint64("start", 1, "first seed")
	fIn    = flag.String("in", "", "input file")
	fOut   = flag.String("out", "", "output file")
	fTier  = flag.String("tier", "quick", "quick or thorough")
	fHist  = flag.Bool("hist", false, "record histories")
	fBin   = flag.String("bin", "", "directory with the builds")
	fVerif = flag.String("verif", "/verif", "where evidence and replay files go")
	fV     = flag.Bool("v", false, "verbose")
	fShow  = flag.Int("show", 3, "failures to show")
)

func main() {
	flag.Parse()
	if f := os.Getenv("PROF"); f != "" {
		o, _ := os.Create(f)
		pprof.StartCPUProfile(o)
		defer pprof.StopCPUProfile()
	}
	switch *fMode {
	case "fuzz":
		bad := 0
		for i := 0; i < *fN; i++ {
			if m := fuzzOne(*fStart+uint64(i), *fV); m != "" {
				bad++
				if bad <= *fShow {
					fmt.Println(m)
				}
			}
		}
		fmt.Println("bad", bad, "of", *fN)
	case "try":
		var cur uint64
		abortHandler = func(k, d string) { fmt.Println("ABORT", k, d, cur, simrt.LastStats); os.Exit(3) }
		bad := 0
		var sum RunStats
		for i := 0; i < *fN; i++ {
			cur = *fStart + uint64(i)
			w := genWorld(*fProp, *fStart+uint64(i), tryWP())
			if *fV {
				fmt.Println(w.describe())
			}
			o := w.run()
			sum.Execs += o.Stats.Execs
			sum.Sim.Steps += o.Stats.Sim.Steps
			sum.Sim.Switches += o.Stats.Sim.Switches
			if len(o.Viols) > 0 {
				bad++
				if bad <= *fShow {
					fmt.Println("seed", w.Seed)
					for _, v := range o.Viols {
						fmt.Println("  ", v)
					}
				}
			}
		}
		fmt.Println("bad", bad, "of", *fN, sum.Execs, sum.Sim.Steps, sum.Sim.Switches)
	case "spec":
		specMain(*fIn, *fOut)
	case "worker":
		workerMain(*fProp, *fStart, *fN, *fOut, *fHist)
	case "check":
		checkMain(*fProp, *fTier)
	case "replay":
		replayMain(*fIn)
	default:
		os.Exit(2)
	}
}

func tryWP() WP {
	if c := props[*fProp]; c != nil {
		return c.WP
	}
	return baseWP()
}
