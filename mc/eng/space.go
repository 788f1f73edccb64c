// Package eng enumerates bounded spaces of cases exhaustively and in parallel.
package eng

import (
	"fmt"
	"strings"
)

// Space is a finite, indexable set of texts.
type Space interface {
	Len() int
	At(i int) string
}

// Lits is an explicit list.
type Lits []string

func (l Lits) Len() int        { return len(l) }
func (l Lits) At(i int) string { return l[i] }

// seq is every sequence of lo..hi words of an alphabet.
type seq struct {
	words  []string
	sep    string
	lo, hi int
	n      []int
	total  int
}

// Seq is every sequence of lo to hi words, joined with sep.
func Seq(words []string, sep string, lo, hi int) Space {
	s := &seq{words: words, sep: sep, lo: lo, hi: hi}
	p := 1
	for l := 0; l <= hi; l++ {
		if l >= lo {
			s.n = append(s.n, p)
			s.total += p
		}
		p *= len(words)
	}
	return s
}

func (s *seq) Len() int { return s.total }
func (s *seq) At(i int) string {
	l := s.lo
	for _, n := range s.n {
		if i < n {
			break
		}
		i -= n
		l++
	}
	parts := make([]string, l)
	for k := l - 1; k >= 0; k-- {
		parts[k] = s.words[i%len(s.words)]
		i /= len(s.words)
	}
	return strings.Join(parts, s.sep)
}

type prod struct{ parts []Space }

// Cat is the concatenation of one element of each space, for all combinations.
func Cat(parts ...Space) Space { return &prod{parts} }

func (p *prod) Len() int {
	n := 1
	for _, s := range p.parts {
		n *= s.Len()
	}
	return n
}

func (p *prod) At(i int) string {
	out := make([]string, len(p.parts))
	for k := len(p.parts) - 1; k >= 0; k-- {
		n := p.parts[k].Len()
		out[k] = p.parts[k].At(i % n)
		i /= n
	}
	return strings.Join(out, "")
}

type union struct {
	parts []Space
	total int
}

// Union is one space after the other.
func Union(parts ...Space) Space {
	u := &union{parts: parts}
	for _, p := range parts {
		u.total += p.Len()
	}
	return u
}

func (u *union) Len() int { return u.total }
func (u *union) At(i int) string {
	for _, p := range u.parts {
		if n := p.Len(); i < n {
			return p.At(i)
		} else {
			i -= n
		}
	}
	panic("index")
}

type mapped struct {
	s Space
	f func(string) string
}

// Map applies f to every element.
func Map(s Space, f func(string) string) Space { return &mapped{s, f} }

func (m *mapped) Len() int        { return m.s.Len() }
func (m *mapped) At(i int) string { return m.f(m.s.At(i)) }

// Wrap puts every element in a template with one %s.
func Wrap(tmpl string, s Space) Space {
	k := strings.Index(tmpl, "%s")
	if k < 0 {
		panic("template without %s: " + tmpl)
	}
	a, b := tmpl[:k], tmpl[k+2:]
	return Map(s, func(x string) string { return a + x + b })
}

// Wraps puts every element in every template.
func Wraps(tmpls []string, s Space) Space {
	var u []Space
	for _, t := range tmpls {
		u = append(u, Wrap(t, s))
	}
	return Union(u...)
}

// All lists a space in memory.
func All(s Space) Lits {
	var l Lits
	for i := 0; i < s.Len(); i++ {
		l = append(l, s.At(i))
	}
	return l
}

// Uniq removes duplicates of a small space, keeping the order.
func Uniq(s Space) Lits {
	seen := map[string]bool{}
	var l Lits
	for i := 0; i < s.Len(); i++ {
		if x := s.At(i); !seen[x] {
			seen[x] = true
			l = append(l, x)
		}
	}
	return l
}

// Range is f(lo), ..., f(hi).
func Range(lo, hi int, f func(int) string) Space {
	var l Lits
	for i := lo; i <= hi; i++ {
		l = append(l, f(i))
	}
	return l
}

// Opt is the space with the empty text added in front.
func Opt(s Space) Space { return Union(Lits{""}, s) }

// Repeat joins n copies.
func Repeat(x, sep string, n int) string {
	return strings.TrimSuffix(strings.Repeat(x+sep, n), sep)
}

// Quote renders a text for a report.
func Quote(t string) string {
	if len(t) > 400 {
		return fmt.Sprintf("%q...(%d bytes)", t[:400], len(t))
	}
	return fmt.Sprintf("%q", t)
}

type fn struct {
	n int
	f func(int) string
}

func (s *fn) Len() int        { return s.n }
func (s *fn) At(i int) string { return s.f(i) }

// Func is a space given by its size and elements.
func Func(n int, f func(int) string) Space { return &fn{n, f} }

// Cross combines every element of a with every element of b.
func Cross(a, b Space, f func(x, y string) string) Space {
	n := b.Len()
	return Func(a.Len()*n, func(i int) string { return f(a.At(i/n), b.At(i%n)) })
}
