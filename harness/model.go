package main

import (
	"errors"
	"math"
	"sort"
	"strconv"
	"strings"
)

// ---------------------------------------------------------------------------
// Matching: which range of a header governs a declared value.

// governing is the outcome of matching a declared value with a header.
type governing struct {
	q         int
	matched   bool
	wildcard  bool
	pos       int  // position by preference, 1 is last; languages only.
	ambiguous bool // the specification doesn't determine the outcome.
	wildPos   bool // position is that of a wildcard.
}

func mediaMatches(rng, m Media) (ok bool, specificity int) {
	if rng.T != "*" && !strings.EqualFold(rng.T, m.T) {
		return false, 0
	}
	if rng.S != "*" && !strings.EqualFold(rng.S, m.S) {
		return false, 0
	}
	for _, p := range rng.Params {
		found := false
		for _, pp := range m.Params {
			if strings.EqualFold(p.K, pp.K) && p.V == pp.V {
				found = true
			}
		}
		if !found {
			return false, 0
		}
	}
	switch {
	case rng.T == "*":
		return true, 0
	case rng.S == "*":
		return true, 1
	}
	return true, 2 + len(rng.Params)
}

func govMedia(ranges []MRange, m Media) governing {
	best, g := -1, governing{}
	for _, r := range ranges {
		ok, spec := mediaMatches(r.Media, m)
		switch {
		case !ok:
		case spec > best:
			best = spec
			g = governing{q: r.Q, matched: true, wildcard: spec < 2}
		case spec == best && r.Q != g.q:
			g.ambiguous = true
		}
	}
	return g
}

func primary(tag string) string { return strings.ToLower(strings.SplitN(tag, "-", 2)[0]) }

func govLang(ranges []TRange, tag string) governing {
	// preference: by weight, then by position.
	idx := make([]int, len(ranges))
	for i := range idx {
		idx[i] = i
	}
	sort.SliceStable(idx, func(a, b int) bool { return ranges[idx[a]].Q > ranges[idx[b]].Q })
	var exact, related, wild []int
	for p, i := range idx {
		r := ranges[i]
		switch {
		case r.Name == "*":
			wild = append(wild, p)
		case strings.EqualFold(r.Name, tag):
			exact = append(exact, p)
		case primary(r.Name) == primary(tag):
			related = append(related, p)
		}
	}
	at := func(ps []int, w bool) governing {
		g := governing{q: ranges[idx[ps[0]]].Q, matched: true, wildcard: w, wildPos: w, pos: len(ranges) - ps[0]}
		g.ambiguous = len(ps) > 1
		return g
	}
	switch {
	case len(exact) > 0:
		return at(exact, false)
	case len(related) > 0:
		return at(related, false)
	case len(wild) > 0:
		return at(wild, true)
	}
	return governing{}
}

func govToken(ranges []TRange, name string) governing {
	var exact, wild governing
	for _, r := range ranges {
		g := governing{q: r.Q, matched: true}
		switch {
		case r.Name == "*":
			g.wildcard = true
			g.ambiguous = wild.matched
			wild = g
		case strings.EqualFold(r.Name, name):
			g.ambiguous = exact.matched
			exact = g
		}
	}
	if exact.matched {
		return exact
	}
	return wild
}

// quality is the quality of a representation in every dimension.
type quality struct {
	t, l, c, e         int
	lpos               int
	lwild              bool
	encMixed           bool
	ambiguous          bool
	twild, cwild, lwld bool // governed by a wildcard.
	tabs, cabs, labs   bool // declared, but the header is absent.
}

func rate(q Req, r *Rep) quality {
	k := quality{t: 1000, l: 1000, c: 1000, e: 1000}
	if r.Media != nil {
		if len(q.Accept) > 0 {
			g := govMedia(q.Accept, *r.Media)
			k.t, k.twild = g.q, g.wildcard
			k.ambiguous = k.ambiguous || g.ambiguous
		} else {
			k.tabs = true
		}
	}
	if r.Lang != "" {
		if len(q.Lang) > 0 {
			g := govLang(q.Lang, r.Lang)
			k.l, k.lpos, k.lwild, k.lwld = g.q, g.pos, g.wildPos, g.wildcard
			k.ambiguous = k.ambiguous || g.ambiguous
		} else {
			k.labs = true
		}
	}
	if r.Charset != "" {
		if len(q.Charset) > 0 {
			g := govToken(q.Charset, r.Charset)
			k.c, k.cwild = g.q, g.wildcard
			k.ambiguous = k.ambiguous || g.ambiguous
		} else {
			k.cabs = true
		}
	}
	if len(q.Enc) > 0 {
		codings := r.Enc
		if len(codings) == 0 {
			codings = []string{"identity"}
		}
		for i, cdg := range codings {
			w := 0
			if g := govToken(q.Enc, cdg); g.matched {
				w = g.q
			} else if strings.EqualFold(cdg, "identity") {
				w = 1000
			}
			if i > 0 && w != k.e {
				k.encMixed = true
			}
			if w < k.e {
				k.e = w
			}
		}
	}
	return k
}

func (k quality) acceptable() bool { return k.t > 0 && k.l > 0 && k.c > 0 && k.e > 0 }

// choice is the verdict of a reference model.
type choice struct {
	idx       int // -1 is none.
	by        string
	ambiguous string // why the specification doesn't determine the choice.
	reached   int    // number of criteria that were consulted.
}

// apacheChoose is the reference model of the documented Apache ordering.
func apacheChoose(q Req, reps []*Rep) choice {
	type cand struct {
		i int
		k quality
	}
	var left []cand
	for i, r := range reps {
		k := rate(q, r)
		if k.ambiguous {
			return choice{ambiguous: "several equally specific ranges match"}
		}
		if k.acceptable() {
			left = append(left, cand{i, k})
		}
	}
	if len(left) == 0 {
		return choice{idx: -1, by: "none"}
	}
	if len(left) == 1 {
		return choice{idx: left[0].i, by: "only"}
	}
	keepMax := func(score func(cand) int) {
		best := math.MinInt
		for _, c := range left {
			if s := score(c); s > best {
				best = s
			}
		}
		var kept []cand
		for _, c := range left {
			if score(c) == best {
				kept = append(kept, c)
			}
		}
		left = kept
	}
	type step struct {
		name  string
		check func() string
		score func(cand) int
	}
	product := func(c cand) int { return reps[c.i].SQ * c.k.t } // in millionths.
	steps := []step{
		{"source-and-type", func() string {
			// values right between two thousandths depend on the binary
			// representation of the weights, if they matter.
			max := 0
			for _, c := range left {
				if p := product(c); p > max {
					max = p
				}
			}
			for _, c := range left {
				if p := product(c); p%1000 == 500 && p >= max-1000 {
					return "product right between two thousandths"
				}
			}
			return ""
		}, func(c cand) int { return (product(c) + 500) / 1000 }},
		{"language", nil, func(c cand) int { return c.k.l }},
		{"language-order", func() string {
			for _, a := range left {
				for _, b := range left {
					if a.k.lwild && !b.k.lwild && a.k.lpos > b.k.lpos {
						return "wildcard listed before a language of the same weight"
					}
				}
			}
			return ""
		}, func(c cand) int { return c.k.lpos }},
		{"level", nil, func(c cand) int {
			m := reps[c.i].Media
			if m == nil || m.T != "text" || m.S != "html" {
				return -1
			}
			for _, p := range m.Params {
				if p.K == "level" {
					n, err := strconv.Atoi(p.V)
					must(err)
					return n
				}
			}
			return -1
		}},
		{"charset", nil, func(c cand) int { return c.k.c }},
		{"not-iso-8859-1", nil, func(c cand) int {
			if strings.EqualFold(reps[c.i].Charset, "iso-8859-1") {
				return 0
			}
			return 1
		}},
		{"encoding", func() string {
			for _, c := range left {
				if c.k.encMixed {
					return "several codings with different weights"
				}
			}
			return ""
		}, func(c cand) int { return c.k.e }},
		{"size", nil, func(c cand) int { return -len(reps[c.i].Body) }},
	}
	by := "first-offered"
	n := 0
	for _, s := range steps {
		n++
		if s.check != nil {
			if why := s.check(); why != "" {
				return choice{ambiguous: why}
			}
		}
		keepMax(s.score)
		if len(left) == 1 {
			by = s.name
			break
		}
	}
	return choice{idx: left[0].i, by: by, reached: n}
}

// ---------------------------------------------------------------------------
// Features (RFC 2295, section 6).

type featureState struct {
	present, absent bool
	values          []string
}

func featureStates(exprs []FExpr) map[string]*featureState {
	m := map[string]*featureState{}
	for _, e := range exprs {
		tag := strings.ToLower(e.Tag)
		s := m[tag]
		if s == nil {
			s = &featureState{}
			m[tag] = s
		}
		switch e.Op {
		case "!":
			s.absent = true
		case "", "!=":
			s.present = true
		case "=", "={}":
			s.present = true
			s.values = append(s.values, strings.Trim(e.Val, `"`))
		}
	}
	return m
}

func (p FPred) holds(m map[string]*featureState) bool {
	s := m[strings.ToLower(p.Tag)]
	if s == nil {
		return false
	}
	has := func(v string) bool {
		for _, x := range s.values {
			if x == v {
				return true
			}
		}
		return false
	}
	switch p.Op {
	case "":
		return s.present
	case "!":
		return s.absent && !s.present
	case "=":
		return s.present && has(p.Val)
	case "!=":
		return s.present && !has(p.Val)
	case "range":
		if !s.present {
			return false
		}
		max := -1
		for _, v := range s.values {
			// numbers beyond the largest int are greater than all bounds.
			if n, err := strconv.Atoi(v); (err == nil || errors.Is(err, strconv.ErrRange)) && n > max {
				max = n
			}
		}
		lo := p.Lo
		if lo < 0 {
			lo = 0
		}
		return max >= lo && (p.Hi < 0 || max <= p.Hi)
	}
	panic(harnessError("unknown predicate"))
}

// featureQuality is the quality degradation factor of a feature list.
func featureQuality(els []FElem, exprs []FExpr) float64 {
	m := featureStates(exprs)
	f := 1.0
	for _, e := range els {
		holds := false
		for _, p := range e.Preds {
			holds = holds || p.holds(m)
		}
		ti, fd := 1.0, 0.0
		if e.Ti >= 0 {
			ti, fd = float64(e.Ti)/10000, 1.0
		}
		if e.Fd >= 0 {
			fd = float64(e.Fd) / 10000
		}
		if holds {
			f *= ti
		} else {
			f *= fd
		}
	}
	return f
}

// rvsaChoose is the reference model of the remote variant selection algorithm.
func rvsaChoose(q Req, reps []*Rep) choice {
	type cand struct {
		score    float64 // hundred-thousandths.
		definite bool
		why      string
	}
	var cs []cand
	max := 0.0
	for _, r := range reps {
		k := rate(q, r)
		if k.ambiguous {
			return choice{ambiguous: "several equally specific ranges match"}
		}
		f, fabs := 1.0, false
		if len(r.FeatEls) > 0 {
			if len(q.Feat) > 0 {
				f = featureQuality(r.FeatEls, q.Feat)
			} else {
				fabs = true
			}
		}
		c := cand{score: float64(r.SQ) / 1000 * float64(k.t) / 1000 * float64(k.l) / 1000 * float64(k.c) / 1000 * f * 1e5}
		c.definite = !(k.twild || k.cwild || k.lwld || k.tabs || k.cabs || k.labs || fabs)
		cs = append(cs, c)
		if c.score > max {
			max = c.score
		}
	}
	best, first := math.Inf(-1), -1
	for i, c := range cs {
		if frac := c.score - math.Floor(c.score); math.Abs(frac-0.5) < 0.12 && c.score > max-2 {
			return choice{ambiguous: "score right between two hundred-thousandths"}
		}
		if s := math.Round(c.score); s > best {
			best, first = s, i
		}
	}
	ties := 0
	for _, c := range cs {
		if math.Round(c.score) == best {
			ties++
		}
	}
	by := "score"
	if ties > 1 {
		by = "first-offered"
	}
	if best <= 0 {
		return choice{idx: -1, by: "zero"}
	}
	if !cs[first].definite {
		return choice{idx: -1, by: "indefinite"}
	}
	return choice{idx: first, by: by}
}
