package check

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"time"
)

var registry = map[string]func(c *Ctx){}

// Explanations of the properties for the evidence
var explain = map[string]string{}

// Main runs the check of one property
func Main(args []string) int {
	prop, repo, verif := "", "/repo", "/verif"
	tier := os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	verbose := false
	for i := 0; i < len(args); i++ {
		switch args[i] {
		case "-repo":
			i++
			repo = args[i]
		case "-verif":
			i++
			verif = args[i]
		case "-tier":
			i++
			tier = args[i]
		case "-v":
			verbose = true
		default:
			prop = args[i]
		}
	}
	if registry[prop] == nil {
		fmt.Println("unknown property", prop)
		return 2
	}
	t0 := time.Now()
	c, err := NewCtx(prop, tier, repo)
	if err != nil {
		fmt.Println("cannot load the program:", err)
		return 2
	}
	registry[prop](c)
	known := readKnown(filepath.Join(verif, "known-findings.txt"), prop)
	bad, und := 0, 0
	var lines []string
	var viol []*Obligation
	seen := map[string]bool{}
	for _, o := range c.Obls {
		if verbose {
			fmt.Printf("%-10s %s | %s | %s | %s\n", o.Result, o.Rule, o.Construct, o.Where, o.Detail)
		}
		if o.Status == OK {
			continue
		}
		k := ""
		for kk := range known {
			if o.Rule+"|"+o.Construct == kk {
				k = kk
			}
		}
		if k != "" && o.Status == Bad {
			o.Result = "known finding"
			if !seen[k] {
				seen[k] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, known[k])
			}
			continue
		}
		if o.Status == Bad {
			bad++
		} else {
			und++
		}
		viol = append(viol, o)
		lines = append(lines, fmt.Sprintf("%s: %s: %s: %s: %s", o.Where, strings.ToUpper(o.Result), o.Rule, o.Construct, o.Detail))
	}
	if len(c.Obls) == 0 {
		fmt.Println("no obligations: the analysis found nothing to decide")
		return 2
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	c.writeEvidence(verif, seed, time.Since(t0).Seconds(), viol)
	if len(viol) == 0 {
		fmt.Printf("property=%s holds: %d obligations on %d functions, %.1fs\n", prop, len(c.Obls), len(c.Funcs), time.Since(t0).Seconds())
		return 0
	}
	rp := filepath.Join(verif, "evidence", prop+".violation.json")
	os.MkdirAll(filepath.Dir(rp), 0o755)
	b, _ := json.MarshalIndent(viol, "", "  ")
	os.WriteFile(rp, b, 0o644)
	for _, l := range lines {
		fmt.Println(short(l, 2500))
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rp)
	return 1
}

func (c *Ctx) writeEvidence(verif string, seed int, wall float64, viol []*Obligation) {
	dis := 0
	byRule := map[string]map[string]int{}
	for _, o := range c.Obls {
		if o.Status == OK {
			dis++
		}
		if byRule[o.Rule] == nil {
			byRule[o.Rule] = map[string]int{}
		}
		byRule[o.Rule][o.Result]++
	}
	var samples []interface{}
	per := map[string]int{}
	for _, o := range c.Obls {
		if per[o.Rule] < 6 {
			per[o.Rule]++
			samples = append(samples, map[string]string{"rule": o.Rule, "construct": o.Construct, "where": o.Where, "result": o.Result})
		}
	}
	var rules []string
	for k, v := range c.Rules {
		rules = append(rules, k+": "+v)
	}
	cov := map[string]interface{}{
		"explanation":         explain[c.Prop],
		"obligations":         len(c.Obls),
		"discharged":          dis,
		"obligations_by_rule": byRule,
		"rule":                strings.Join(rules, "; "),
		"functions_analysed":  c.SortedFuncs(),
		"instances":           c.Counts,
		"samples":             samples,
	}
	if len(c.Notes) > 0 {
		cov["notes"] = c.Notes
	}
	ev := map[string]interface{}{
		"property": c.Prop, "tier": c.Tier, "seed": seed, "level": "other", "coverage": cov,
		"assumptions": append([]string{"go/types and go/ssa (golang.org/x/tools) represent the program faithfully", "package unsafe, reflection and assembly are not used by the analysed code"}, c.Assume...),
		"wall_s":      wall, "violations": len(viol),
	}
	b, _ := json.MarshalIndent(ev, "", "  ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(verif, "evidence", c.Prop+".json"), append(b, '\n'), 0o644)
}

// readKnown reads lines "finding: property=<id> | <rule> | <construct> | <what>"
func readKnown(f, prop string) map[string]string {
	r := map[string]string{}
	fh, err := os.Open(f)
	if err != nil {
		return r
	}
	defer fh.Close()
	sc := bufio.NewScanner(fh)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		l := sc.Text()
		if !strings.HasPrefix(l, "finding: property="+prop+" |") {
			continue
		}
		p := strings.Split(l, " | ")
		if len(p) == 4 {
			r[p[1]+"|"+p[2]] = p[3]
		}
	}
	return r
}

func specsOnly(c *Ctx) { c.Specs() }

func init() {
	for _, id := range []string{"K01", "K02", "K03", "M02", "L01", "N01", "D01", "H01"} {
		registry[id] = specsOnly
	}
}
