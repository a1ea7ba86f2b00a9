// Package check decides the properties: every rule produces obligations on
// named constructs of the program, each discharged or not
package check

import (
	"fmt"
	"go/token"
	"path/filepath"
	"sort"
	"strings"

	"gsa/load"
	"gsa/sem"

	"golang.org/x/tools/go/ssa"
)

// Status of an obligation
type Status int

// The possible outcomes
const (
	OK Status = iota
	Bad
	Undecided
)

// Obligation is one decided fact about one construct
type Obligation struct {
	Rule      string `json:"rule"`
	Construct string `json:"construct"`
	Where     string `json:"where"`
	Status    Status `json:"-"`
	Result    string `json:"result"`
	Detail    string `json:"detail,omitempty"`
}

// Ctx is one run of one property
type Ctx struct {
	Prop   string
	Tier   string
	P      *load.Program
	Obls   []*Obligation
	Funcs  map[string]bool // functions analysed
	Rules  map[string]string
	Notes  []string
	Assume []string
	Counts map[string]int
	specs  map[string]*specFile
	ov     map[string][]byte
	anal   map[string]interface{}
}

// Where describes a position relative to the repository
func (c *Ctx) Where(pos token.Pos) string {
	if !pos.IsValid() {
		return ""
	}
	p := c.P.Prog.Fset.Position(pos)
	f, err := filepath.Rel(c.P.Dir, p.Filename)
	if err != nil {
		f = p.Filename
	}
	return fmt.Sprintf("%s:%d", f, p.Line)
}

// Add records an obligation
func (c *Ctx) Add(rule, construct string, pos token.Pos, st Status, detail string, a ...interface{}) {
	r := map[Status]string{OK: "holds", Bad: "violated", Undecided: "undecided"}[st]
	if len(a) > 0 {
		detail = fmt.Sprintf(detail, a...)
	}
	c.Obls = append(c.Obls, &Obligation{Rule: rule, Construct: construct, Where: c.Where(pos), Status: st, Result: r, Detail: detail})
}

// Check records an obligation that holds or is violated
func (c *Ctx) Check(ok bool, rule, construct string, pos token.Pos, detail string, a ...interface{}) bool {
	st := OK
	if !ok {
		st = Bad
	}
	c.Add(rule, construct, pos, st, detail, a...)
	return ok
}

// Need finds an anchor of the analysis; its absence is a violation of the rule
// that the construct exists
func (c *Ctx) Need(pkg, name string) *ssa.Function {
	f := c.P.Func(pkg, name)
	if f == nil || len(f.Blocks) == 0 {
		c.Add("anchor", pkg+"."+name, token.NoPos, Undecided, "the function is part of the package interface and was not found")
		return nil
	}
	c.Funcs[f.String()] = true
	return f
}

// Count adds to a counter of the evidence
func (c *Ctx) Count(name string, n int) { c.Counts[name] += n }

// AtLeast demands a minimum number of instances, so that a rule cannot pass
// by finding nothing to look at
func (c *Ctx) AtLeast(name string, min int) {
	if c.Counts[name] < min {
		c.Add("instance minimum", name, token.NoPos, Undecided, "found %d, expected at least %d", c.Counts[name], min)
	}
}

// Known is a finding that is recorded instead of repaired
type Known struct{ Prop, Rule, Construct, What string }

// SortedFuncs lists the analysed functions
func (c *Ctx) SortedFuncs() []string {
	var r []string
	for f := range c.Funcs {
		r = append(r, f)
	}
	sort.Strings(r)
	return r
}

// Rule names a rule and says what it demands
func (c *Ctx) Rule(name, text string) {
	if c.Rules == nil {
		c.Rules = map[string]string{}
	}
	c.Rules[name] = text
}

func short(s string, n int) string {
	s = strings.ReplaceAll(s, "\n", " ")
	if len(s) > n {
		return strings.ToValidUTF8(s[:n], "") + "…"
	}
	return s
}

var _ = sem.True
