package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"strings"
	"time"
)

func readJSON(f string, v interface{}) {
	b, err := os.ReadFile(f)
	must(err)
	must(json.Unmarshal(b, v))
}

type Replay struct {
	Property   string      `json:"property"`
	Config     *Config     `json:"config"`
	Rules      []Rule      `json:"rules"`
	Checks     []string    `json:"checks"`
	Divergence *Divergence `json:"divergence"`
	Gov        *GovSetup   `json:"gov,omitempty"`
}

func (x Replay) replayGov() bool {
	r := &Runner{rules: x.Rules, st: newStats(), deadline: time.Now().Add(time.Minute)}
	var t GovTx
	must(json.Unmarshal(x.Divergence.Want, &t))
	g := newGovWorld(x.Gov)
	defer g.Close()
	r.govTx(g, t)
	return len(r.st.Found) > 0
}

func main() {
	mode := os.Args[1]
	fs := flag.NewFlagSet(mode, flag.ExitOnError)
	cfgF := fs.String("cfg", "", "configuration")
	ruleF := fs.String("rules", "", "rules")
	logs := fs.String("log", "", "comma separated logs of TLC")
	out := fs.String("out", "", "result")
	prop := fs.String("prop", "", "property")
	checks := fs.String("checks", "", "extra checks")
	every := fs.Int64("every", 1, "every how many states the extra checks run")
	budget := fs.Float64("budget", 60, "seconds")
	workers := fs.Int("workers", 8, "workers")
	replayF := fs.String("replay", "", "where a replay is written, or read from")
	must(fs.Parse(os.Args[2:]))
	debug.SetGCPercent(400)

	r := &Runner{st: newStats(), every: *every, deadline: time.Now().Add(time.Duration(*budget * float64(time.Second)))}
	if *checks != "" {
		r.checks = strings.Split(*checks, ",")
	}
	start := time.Now()
	switch mode {
	case "graph", "linear":
		r.cfg = &Config{}
		readJSON(*cfgF, r.cfg)
		readJSON(*ruleF, &r.rules)
		if mode == "graph" {
			r.graph(*logs, *workers)
		} else {
			r.linear(strings.Split(*logs, ","), *workers)
		}
		// a verdict needs the divergence to happen again in a fresh world
		if len(r.st.Found) > 0 {
			var confirmed []*Divergence
			dropped := 0
			for _, d := range r.st.Found {
				if r.controlled(d) && !r.depends(d) {
					dropped++
					continue
				}
				r2 := &Runner{cfg: r.cfg, rules: r.rules, checks: r.checks, every: 1, st: newStats(), deadline: time.Now().Add(time.Minute)}
				if r2.replay(d) {
					confirmed = append(confirmed, d)
					break
				}
			}
			if len(confirmed) == 0 && dropped < len(r.st.Found) {
				b, _ := json.Marshal(r.st.Found[0])
				fatal("a divergence could not be reproduced: %s", b)
			}
			if *replayF != "" && len(confirmed) > 0 {
				b, err := json.MarshalIndent(Replay{Property: *prop, Config: r.cfg, Rules: r.rules, Checks: r.checks, Divergence: confirmed[0]}, "", " ")
				must(err)
				must(os.WriteFile(*replayF, b, 0o644))
			}
			r.st.Found = confirmed
		}
	case "gov":
		set := &GovSetup{}
		readJSON(*cfgF, set)
		readJSON(*ruleF, &r.rules)
		r.gov(set, strings.Split(*logs, ","), *workers)
		if len(r.st.Found) > 0 {
			r.st.Found = r.st.Found[:1]
			x := Replay{Property: *prop, Rules: r.rules, Divergence: r.st.Found[0], Gov: set}
			if !x.replayGov() {
				fatal("a divergence could not be reproduced: %+v", x.Divergence)
			}
			b, err := json.MarshalIndent(x, "", " ")
			must(err)
			must(os.WriteFile(*replayF, b, 0o644))
		}
	case "replay":
		var x Replay
		readJSON(*replayF, &x)
		r.cfg, r.rules, r.checks = x.Config, x.Rules, x.Checks
		r.deadline = time.Now().Add(10 * time.Minute)
		if x.Gov != nil && x.replayGov() || x.Gov == nil && r.replay(x.Divergence) {
			b, _ := json.MarshalIndent(r.st.Found, "", " ")
			fmt.Printf("%s\n", b)
			fmt.Printf("VIOLATION property=%s replay=%s\n", x.Property, *replayF)
			os.Exit(1)
		}
		fmt.Println("not reproduced")
		return
	default:
		fatal("unknown mode %s", mode)
	}
	r.st.Wall = time.Since(start).Seconds()
	b, err := json.MarshalIndent(r.st, "", " ")
	must(err)
	must(os.WriteFile(*out, b, 0o644))
}
