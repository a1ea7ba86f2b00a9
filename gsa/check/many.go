package check

import (
	"fmt"
	"regexp"
	"runtime"
	"strings"

	"gsa/load"
)

var funcName = regexp.MustCompile(`(?m)^(?:func|type|var|const) (\w+)`)

// Many runs several checks on one tree, for development
func Many(repo string, props []string) int {
	var p *load.Program
	rc := 0
	type group struct {
		names map[string]bool
		ov    map[string][]byte
		p     *load.Program
	}
	var gs []*group
	of := map[string]*group{}
	for _, prop := range props {
		sfs, err := parseSpecs(prop)
		if err != nil || len(sfs) == 0 {
			continue
		}
		names := map[string]bool{}
		for _, sf := range sfs {
			for _, m := range funcName.FindAllStringSubmatch(string(sf.src), -1) {
				names[m[1]] = true
			}
		}
		var g *group
	next:
		for _, x := range gs {
			for n := range names {
				if x.names[n] {
					continue next
				}
			}
			g = x
			break
		}
		if g == nil {
			g = &group{names: map[string]bool{}, ov: map[string][]byte{}}
			gs = append(gs, g)
		}
		of[prop] = g
		for n := range names {
			g.names[n] = true
		}
		for _, sf := range sfs {
			g.ov[overlayName(sf)] = sf.src
		}
	}
	for _, prop := range props {
		func() {
			defer func() {
				if r := recover(); r != nil {
					fmt.Println(prop, "PANIC", r)
					rc = 1
				}
			}()
			c := &Ctx{Prop: prop, Tier: "quick", Funcs: map[string]bool{}, Counts: map[string]int{}, Rules: map[string]string{},
				specs: map[string]*specFile{}, ov: map[string][]byte{}, anal: map[string]interface{}{}}
			sfs, err := parseSpecs(prop)
			if err == nil && len(sfs) == 0 {
				if p == nil {
					if p, err = load.Load(repo, c.ov); err != nil {
						fmt.Println(prop, err)
						rc = 1
						return
					}
				}
				c.P = p
			} else {
				g := of[prop]
				if g.p == nil {
					if g.p, err = load.Load(repo, g.ov); err != nil {
						fmt.Println(prop, err)
						rc = 1
						return
					}
				}
				for _, sf := range sfs {
					c.specs[sf.name] = sf
				}
				c.P, c.ov = g.p, g.ov
			}
			registry[prop](c)
			defer runtime.GC()
			n := 0
			known := readKnown("/verif/known-findings.txt", prop)
			for _, o := range c.Obls {
				if _, ok := known[o.Rule+"|"+o.Construct]; ok && o.Status == Bad {
					continue
				}
				if o.Status != OK && n < 4 {
					fmt.Println(prop, short(strings.Join([]string{o.Where, o.Result, o.Rule, o.Construct, o.Detail}, ": "), 400))
					n++
					rc = 1
				}
			}
		}()
	}
	return rc
}
