// Package model is a reference model of Vim script syntax as documented by
// go-vimlparser: text in, neutral tree or located error out.  It shares no
// code with the implementation under check.
package model

import (
	"fmt"
	"strings"
)

// Pos is a source position: 1-based line, 1-based byte column, 0-based byte
// offset.
type Pos struct{ Line, Col, Off int }

func (p Pos) String() string { return fmt.Sprintf("%d:%d@%d", p.Line, p.Col, p.Off) }

// Node is a neutral syntax tree node.
type Node struct {
	Kind string
	Pos  Pos
	A    []Attr
	C    []Child
	EA   *ExArg
}

// Attr is a scalar field of a node.
type Attr struct{ K, V string }

// Child is a named child slot: a single (possibly absent) node or a list.
type Child struct {
	K string
	N []*Node
}

// ExArg holds what the parser reports about the command line itself.
type ExArg struct {
	Forceit, Usefilter                 bool
	Append, Amount, ForceBin, ReadEdit int
	EcmdCmd, FF, Enc, Bad              string
	Name, Flags                        string // command; Name=="" when there is none
	Minlen                             int
	Mods, Range                        []string
	Line, Cmd, Arg                     *Pos
}

// Mask selects what Equal compares.
type Mask int

const (
	MPos    Mask = 1 << iota // node positions
	MEA                      // ExArg scalars, modifiers, range, command name
	MEAPos                   // ExArg positions
	MTable                   // command flags/minlen
	MAll         = MPos | MEA | MEAPos | MTable
	MStruct Mask = 0
)

func posEq(a, b *Pos) bool {
	if a == nil || b == nil {
		return a == b
	}
	return *a == *b
}

func strsEq(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func eaEq(a, b *ExArg, m Mask) bool {
	if a == nil || b == nil {
		return a == b
	}
	if a.Name != b.Name {
		return false
	}
	if m&MEA != 0 {
		if a.Forceit != b.Forceit || a.Usefilter != b.Usefilter || a.Append != b.Append ||
			a.Amount != b.Amount || a.ForceBin != b.ForceBin || a.ReadEdit != b.ReadEdit ||
			a.EcmdCmd != b.EcmdCmd || a.FF != b.FF || a.Enc != b.Enc || a.Bad != b.Bad ||
			!strsEq(a.Mods, b.Mods) || !strsEq(a.Range, b.Range) {
			return false
		}
	}
	if m&MTable != 0 && (a.Flags != b.Flags || a.Minlen != b.Minlen) {
		return false
	}
	if m&MEAPos != 0 && (!posEq(a.Line, b.Line) || !posEq(a.Cmd, b.Cmd) || !posEq(a.Arg, b.Arg)) {
		return false
	}
	return true
}

// Equal compares two trees under a mask.
func Equal(a, b *Node, m Mask) bool {
	if a == nil || b == nil {
		return a == b
	}
	if a.Kind != b.Kind || len(a.A) != len(b.A) || len(a.C) != len(b.C) {
		return false
	}
	if m&MPos != 0 && a.Pos != b.Pos {
		return false
	}
	for i := range a.A {
		if a.A[i] != b.A[i] {
			return false
		}
	}
	if !eaEq(a.EA, b.EA, m) {
		return false
	}
	for i := range a.C {
		if a.C[i].K != b.C[i].K || len(a.C[i].N) != len(b.C[i].N) {
			return false
		}
		for j := range a.C[i].N {
			if !Equal(a.C[i].N[j], b.C[i].N[j], m) {
				return false
			}
		}
	}
	return true
}

// Dump renders a tree for reports.
func Dump(n *Node, m Mask) string {
	var b strings.Builder
	dump(&b, n, m, "")
	return b.String()
}

func ps(p *Pos) string {
	if p == nil {
		return "-"
	}
	return p.String()
}

func dump(b *strings.Builder, n *Node, m Mask, ind string) {
	if n == nil {
		fmt.Fprintf(b, "%snil\n", ind)
		return
	}
	fmt.Fprintf(b, "%s%s", ind, n.Kind)
	if m&MPos != 0 {
		fmt.Fprintf(b, " @%v", n.Pos)
	}
	for _, a := range n.A {
		fmt.Fprintf(b, " %s=%q", a.K, a.V)
	}
	if e := n.EA; e != nil {
		fmt.Fprintf(b, " cmd=%q", e.Name)
		if m&MEA != 0 {
			fmt.Fprintf(b, " {bang=%v filter=%v append=%d amount=%d bin=%d edit=%d ecmd=%q ff=%q enc=%q bad=%q mods=%q range=%q}",
				e.Forceit, e.Usefilter, e.Append, e.Amount, e.ForceBin, e.ReadEdit, e.EcmdCmd, e.FF, e.Enc, e.Bad, e.Mods, e.Range)
		}
		if m&MTable != 0 {
			fmt.Fprintf(b, " minlen=%d flags=%q", e.Minlen, e.Flags)
		}
		if m&MEAPos != 0 {
			fmt.Fprintf(b, " line=%s cmd=%s arg=%s", ps(e.Line), ps(e.Cmd), ps(e.Arg))
		}
	}
	b.WriteByte('\n')
	for _, c := range n.C {
		if len(c.N) == 0 {
			continue
		}
		fmt.Fprintf(b, "%s %s:\n", ind, c.K)
		for _, x := range c.N {
			dump(b, x, m, ind+"   ")
		}
	}
}

// Get returns attribute k.
func (n *Node) Get(k string) string {
	for _, a := range n.A {
		if a.K == k {
			return a.V
		}
	}
	return ""
}

// Kids returns child slot k.
func (n *Node) Kids(k string) []*Node {
	for _, c := range n.C {
		if c.K == k {
			return c.N
		}
	}
	return nil
}

// Kid returns the single node in slot k, or nil.
func (n *Node) Kid(k string) *Node {
	ks := n.Kids(k)
	if len(ks) == 0 {
		return nil
	}
	return ks[0]
}

// One makes a single-child slot; a nil node makes an empty slot.
func One(k string, n *Node) Child {
	if n == nil {
		return Child{K: k}
	}
	return Child{K: k, N: []*Node{n}}
}

// Many makes a list slot.
func Many(k string, n []*Node) Child { return Child{K: k, N: n} }

// Count returns the number of nodes in the tree.
func Count(n *Node) int {
	if n == nil {
		return 0
	}
	c := 1
	for _, s := range n.C {
		for _, x := range s.N {
			c += Count(x)
		}
	}
	return c
}

// Hash is a structural hash (positions and ExArg details aside).
func Hash(n *Node) uint64 { return hashNode(14695981039346656037, n) }

func mix(h uint64, s string) uint64 {
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return (h ^ 0xff) * 1099511628211
}

func hashNode(h uint64, n *Node) uint64 {
	if n == nil {
		return mix(h, "nil")
	}
	h = mix(h, n.Kind)
	for _, a := range n.A {
		h = mix(h, a.V)
	}
	if n.EA != nil {
		h = mix(h, n.EA.Name)
	}
	for _, c := range n.C {
		h = (h ^ uint64(len(c.N)+1)) * 1099511628211
		for _, x := range c.N {
			h = hashNode(h, x)
		}
	}
	return h
}

// HashError hashes an error.
func HashError(e *Error) uint64 {
	return mix(mix(1469598103934665603, e.Msg), e.Pos.String())
}
