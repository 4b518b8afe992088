package main

import (
	"fmt"
	"net/http"
	"strconv"
	"strings"

	"github.com/freerware/negotiator"
	"github.com/freerware/negotiator/proactive"
	"github.com/freerware/negotiator/representation"
	"github.com/freerware/negotiator/transparent"
)

func init() {
	criteria := []string{"decided:source-and-type", "decided:language", "decided:language-order", "decided:level",
		"decided:charset", "decided:not-iso-8859-1", "decided:encoding", "decided:size", "decided:first-offered"}
	register(&Property{
		ID: "C01",
		Rule: "random, pairwise and large offers negotiated by the default server-driven negotiator; the body identifies the representation served, " +
			"which is compared with a reference model of the documented ordering. Non-trivial: at least two representations are acceptable; distinct by request and offer.",
		Subs: []Sub{
			{Name: "ordering", Quick: 60000, Thorough: 1500000, Run: c01Ordering},
			{Name: "pairwise", Quick: 30000, Thorough: 600000, Run: c01Pairwise},
			{Name: "precision", Quick: 8000, Thorough: 100000, Run: c01Precision},
		},
		MinEvents: append([]string{"answered:200", "answered:406"}, criteria...),
	})
	register(&Property{
		ID: "C02",
		Rule: "requests full of zero weights, wildcards and several lines against offers with undeclared dimensions and several codings; every served representation " +
			"is checked dimension by dimension, and 406 against the absence of acceptable representations. Non-trivial: some representation is rejected; distinct by request and offer.",
		Subs: []Sub{
			{Name: "soundness", Quick: 60000, Thorough: 1500000, Run: c02Soundness},
			{Name: "single-dimension", Quick: 40000, Thorough: 600000, Run: c02Single},
			{Name: "unknown-codings-only", Quick: 200, Thorough: 2000, Run: c02UnknownCodings},
		},
		MinEvents: []string{"answered:200", "answered:406", "rejected:type", "rejected:language", "rejected:charset", "rejected:encoding", "zero:identity-excluded", "multi-coding-rejected"},
	})
	register(&Property{
		ID: "C03",
		Rule: "all eight strictness configurations on requests of which some headers match nothing offered; the answer is compared with the model that answers 406 or drops " +
			"the header, and metamorphically with the answer to the request without that header. Non-trivial: at least one header is unmatched; distinct by configuration, request and offer.",
		Subs: []Sub{
			{Name: "strictness", Quick: 40000, Thorough: 900000, Run: c03Strictness},
		},
		MinEvents: []string{"unmatched:1", "unmatched:2", "unmatched:3", "disregarded-and-served", "strict-406", "metamorphic-compared"},
	})
	register(&Property{
		ID: "C04",
		Rule: "the same request in a canonical and in several random equivalent spellings (lines, commas, whitespace, case, weights, reordering), for the three kinds of negotiation; " +
			"the complete responses are compared. Non-trivial: the spellings differ in bytes; distinct by spelling.",
		Subs: []Sub{
			{Name: "proactive", Quick: 25000, Thorough: 500000, Run: func(c *Case) { c04Spelling(c, "proactive") }},
			{Name: "transparent", Quick: 25000, Thorough: 500000, Run: func(c *Case) { c04Spelling(c, "transparent") }},
			{Name: "reactive", Quick: 500, Thorough: 5000, Run: func(c *Case) { c04Spelling(c, "reactive") }},
		},
		MinEvents: []string{"proactive:200", "proactive:406", "transparent:200", "transparent:300", "reactive:300"},
	})
	register(&Property{
		ID: "C05",
		Rule: "one representation under several overlapping ranges with distinct weights in any order, against a probe whose weight brackets the weight of the most specific range, " +
			"and alone for acceptability; in server-driven and transparent negotiation. Non-trivial: at least two ranges match with different weights; distinct by ranges.",
		Subs: []Sub{
			{Name: "media", Quick: 25000, Thorough: 400000, Run: c05Media},
			{Name: "language", Quick: 25000, Thorough: 400000, Run: c05Language},
			{Name: "charset", Quick: 15000, Thorough: 250000, Run: c05Charset},
			{Name: "coding", Quick: 15000, Thorough: 250000, Run: c05Coding},
		},
		MinEvents: []string{"served", "not-served", "overlap:params", "overlap:subtype", "overlap:wildcard", "transparent:chosen", "transparent:refused"},
	})
}

func negotiateProactive(req Req, style Style, reps []*Rep, opts ...proactive.Option) (Outcome, http.Header) {
	h := req.Header(style)
	var n negotiator.Negotiator = proactive.Default
	if len(opts) > 0 {
		n = proactive.New(opts...)
	}
	return negotiate(n, ambient(style.R, newRequest(resourceURL, h)), reps), h
}

// judgeServed compares a response with the choice of the model.
func judgeServed(c *Case, o Outcome, want choice) bool {
	c.Eval(1)
	c.Count(fmt.Sprintf("answered:%d", o.StatusCode()))
	switch {
	case o.Panic != nil:
		c.Fail("negotiation panicked: %v\n%s", o.Panic, o.Stack)
	case o.Err != nil:
		c.Fail("negotiation failed: %v", o.Err)
	case want.idx < 0 && o.StatusCode() != 406:
		c.Fail("no representation is acceptable, but got %s", o.Short())
	case want.idx >= 0 && o.StatusCode() != 200:
		c.Fail("representation #%d should be served (by %s), but got %s", want.idx, want.by, o.Short())
	case want.idx >= 0 && o.Served() != want.idx:
		c.Fail("representation #%d should be served (by %s), but got %s", want.idx, want.by, o.Short())
	default:
		return true
	}
	return false
}

func c01Judge(c *Case, req Req, reps []*Rep) {
	style := Style{}
	if c.R.P(30) {
		style = Style{R: c.R, Reorder: true}
	}
	want := apacheChoose(req, reps)
	if want.ambiguous != "" {
		c.Skip(want.ambiguous)
		return
	}
	o, h := negotiateProactive(req, style, reps)
	describe(c, h, reps)
	if want.idx >= 0 && want.by != "only" {
		c.Nontrivial(req.key(), offerKey(reps))
		c.Count("decided:" + want.by)
	}
	if len(reps) > 12 {
		c.Count("large-offers")
	}
	judgeServed(c, o, want)
	c.Sample(map[string]any{"request": headerString(h), "offered": len(reps), "served": o.Served(), "decided_by": want.by})
}

func c01Ordering(c *Case) {
	g := newGen(c.R)
	req := g.req(pickOf(c.R, 30, 60, 90))
	c01Judge(c, req, g.reps(g.offerSize()))
}

// c01Pairwise builds offers in which two criteria disagree, so that the
// precedence between them decides, plus distractors that are worse.
func c01Pairwise(c *Case) {
	r := c.R
	req := Req{
		Accept:  []MRange{{Media{T: "text", S: "html"}, 1000}, {Media{T: "text", S: "plain"}, 600}},
		Lang:    []TRange{{"fr", 900}, {"de", 900}, {"en", 900}, {"ja", 400}},
		Charset: []TRange{{"utf-8", 800}, {"iso-8859-1", 800}, {"us-ascii", 300}},
		Enc:     []TRange{{"gzip", 700}, {"deflate", 200}, {"identity", 100}},
	}
	base := func(id int) *Rep {
		rep := &Rep{ID: id, SQ: 1000, Media: &Media{T: "text", S: "html", Params: []Param{{"level", "9"}}}, Lang: "de",
			Charset: "iso-8859-1", Enc: []string{"deflate"}, Body: uniqueBody(id, 40)}
		return rep
	}
	better := []func(*Rep){
		nil, // set below: source quality or media type are worse for all others.
		nil,
		func(r *Rep) { r.Lang = "fr" },
		func(r *Rep) { r.Media = &Media{"text", "html", []Param{{"level", "10"}}} },
		nil,
		func(r *Rep) { r.Charset = "utf-8" },
		func(r *Rep) { r.Enc = []string{"gzip"} },
		func(r *Rep) { r.Body = uniqueBody(r.ID, 25) },
		func(*Rep) {},
	}
	worse := []func(*Rep){
		func(r *Rep) {
			if c.R.Bool() {
				r.SQ = 800
			} else {
				r.Media = &Media{T: "text", S: "plain"}
			}
		},
		func(r *Rep) { r.Lang = "ja" },
		func(r *Rep) { r.Lang = "en" },
		func(r *Rep) { r.Media = &Media{"text", "html", []Param{{"level", pickOf(c.R, "1", "3")}}} },
		func(r *Rep) { r.Charset = "us-ascii" },
		nil,
		func(r *Rep) { r.Enc = []string{"identity"} },
		func(r *Rep) { r.Body = uniqueBody(r.ID, 60) },
		func(*Rep) {},
	}
	n := r.Range(2, 5)
	if r.P(15) {
		n = r.Range(13, 30)
	}
	reps := make([]*Rep, n)
	for i := range reps {
		reps[i] = base(i)
		// every representation is better in some and worse in other criteria.
		for k := range worse {
			switch {
			case worse[k] != nil && r.P(20):
				worse[k](reps[i])
			case better[k] != nil && r.P(30):
				better[k](reps[i])
			}
		}
	}
	c01Judge(c, req, reps)
}

// c01Precision has products and weights that differ by exactly one thousandth
// or by less.
func c01Precision(c *Case) {
	r := c.R
	q := r.Range(2, 1000)
	a, b := &Rep{ID: 0, SQ: 1000, Media: &typePool[0], Body: uniqueBody(0, 30)}, &Rep{ID: 1, SQ: 1000, Media: &typePool[1], Body: uniqueBody(1, 20)}
	req := Req{Accept: []MRange{{typePool[0], q}, {typePool[1], q - 1}}}
	switch r.Intn(3) {
	case 0:
		// the products are equal to three decimals, so the smaller body wins.
		a.SQ, b.SQ = 100, 100
		req.Accept[0].Q, req.Accept[1].Q = pickOf(r, 501, 502, 503, 504), 500
		if r.Bool() {
			a.SQ, b.SQ = 300, 900
			req.Accept[0].Q, req.Accept[1].Q = 900, 300
		}
	case 1:
		a.SQ = pickOf(r, 1000, 900, 800, 500)
		b.SQ = pickOf(r, 1000, 900, 800, 500)
	}
	if r.Bool() {
		a.ID, b.ID = 1, 0
		a.Body, b.Body = uniqueBody(1, len(a.Body)), uniqueBody(0, len(b.Body))
		c01Judge(c, req, []*Rep{b, a})
		return
	}
	c01Judge(c, req, []*Rep{a, b})
}

// ---------------------------------------------------------------------------

func c02Reject(c *Case, req Req, reps []*Rep) (acceptable []bool, ok bool) {
	rejected := false
	for _, rep := range reps {
		k := rate(req, rep)
		if k.ambiguous {
			c.Skip("several equally specific ranges match")
			return nil, false
		}
		acceptable = append(acceptable, k.acceptable())
		if k.t == 0 {
			c.Count("rejected:type")
		}
		if k.l == 0 {
			c.Count("rejected:language")
		}
		if k.c == 0 {
			c.Count("rejected:charset")
		}
		if k.e == 0 {
			c.Count("rejected:encoding")
			if len(rep.Enc) > 1 {
				c.Count("multi-coding-rejected")
			}
			if len(rep.Enc) == 0 {
				c.Count("zero:identity-excluded")
			}
		}
		rejected = rejected || !k.acceptable()
	}
	if rejected {
		c.Nontrivial(req.key(), offerKey(reps))
	}
	return acceptable, true
}

func c02Judge(c *Case, req Req, reps []*Rep) {
	acceptable, ok := c02Reject(c, req, reps)
	if !ok {
		return
	}
	o, h := negotiateProactive(req, Style{R: c.R, Reorder: true}, reps)
	describe(c, h, reps)
	c.Eval(1)
	c.Count(fmt.Sprintf("answered:%d", o.StatusCode()))
	some := false
	for _, a := range acceptable {
		some = some || a
	}
	switch {
	case o.Panic != nil:
		c.Fail("negotiation panicked: %v\n%s", o.Panic, o.Stack)
	case o.Err != nil:
		c.Fail("negotiation failed: %v", o.Err)
	case o.StatusCode() == 406:
		if some {
			c.Fail("406 although a representation is acceptable: %v", acceptable)
		}
		if o.Served() >= 0 {
			c.Fail("a representation is served with 406: %s", o.Short())
		}
	case o.StatusCode() == 200:
		id := o.Served()
		if id < 0 || id >= len(reps) {
			c.Fail("200 without an offered representation: %s", o.Short())
		} else if !acceptable[id] {
			c.Fail("representation #%d is served although it's rejected: %+v", id, rate(req, reps[id]))
		}
	default:
		c.Fail("unexpected response: %s", o.Short())
	}
	c.Sample(map[string]any{"request": headerString(h), "acceptable": acceptable, "response": o.Short()})
}

func c02Soundness(c *Case) {
	g := newGen(c.R)
	g.Zero = pickOf(c.R, 20, 50, 80)
	g.Undeclared = pickOf(c.R, 0, 20, 50)
	g.Type, g.Lang, g.Charset, g.Enc = c.R.P(70), c.R.P(70), c.R.P(70), c.R.P(70)
	c02Judge(c, g.req(pickOf(c.R, 40, 80, 100)), g.reps(offerSize(c.R, pickOf(c.R, 1, 1, 2, 3, 5))))
}

// c02Single varies a single header, so that verdicts depend on one dimension.
func c02Single(c *Case) {
	r := c.R
	g := &Gen{R: r, Types: typePool, Langs: langPool, Charsets: charsetPool, Zero: pickOf(r, 30, 60), Undeclared: pickOf(r, 0, 30), Type: true, Lang: true, Charset: true, Enc: true, Params: r.Bool(), Level: r.Bool()}
	q := g.req(100)
	var req Req
	switch r.Intn(4) {
	case 0:
		req.Accept = q.Accept
	case 1:
		req.Lang = q.Lang
	case 2:
		req.Charset = q.Charset
	case 3:
		req.Enc = q.Enc
	}
	c02Judge(c, req, g.reps(offerSize(r, pickOf(r, 1, 1, 2, 3))))
}

// c02UnknownCodings only accepts codings this library doesn't know.
func c02UnknownCodings(c *Case) {
	r := c.R
	g := &Gen{R: r, Types: typePool, Langs: langPool, Charsets: charsetPool, Enc: true}
	req := Req{Enc: g.tokens(unknownEnc, 0)}
	reps := g.reps(r.Range(1, 3))
	acceptable, _ := c02Reject(c, req, reps)
	o, h := negotiateProactive(req, Style{}, reps)
	describe(c, h, reps)
	c.Eval(1)
	if o.Err != nil && o.Panic == nil && o.nothingAnswered(nil) == nil {
		c.FailKey("accept-encoding:only-unknown-codings", "negotiation failed: %v", o.Err)
		return
	}
	some := false
	for _, a := range acceptable {
		some = some || a
	}
	if o.StatusCode() == 200 && (o.Served() < 0 || !acceptable[o.Served()]) || o.StatusCode() == 406 && some || (o.StatusCode() != 200 && o.StatusCode() != 406) {
		c.Fail("unexpected response: %s", o.Short())
	}
}

// ---------------------------------------------------------------------------

// unmatchedHeaders are the headers that no representation is compatible with.
func unmatchedHeaders(req Req, reps []*Rep) (a, l, ch, ambiguous bool) {
	a, l, ch = true, true, true
	for _, rep := range reps {
		k := rate(req, rep)
		ambiguous = ambiguous || k.ambiguous
		a = a && k.t == 0
		l = l && k.l == 0
		ch = ch && k.c == 0
	}
	return
}

func c03Strictness(c *Case) {
	r := c.R
	g := newGen(r)
	g.Zero = pickOf(r, 10, 40)
	g.Undeclared = pickOf(r, 0, 0, 20)
	reps := g.reps(offerSize(r, r.Range(1, 5)))
	req := g.req(80)
	// make headers miss the offer.
	miss := pickOf(r, 10, 40, 80)
	if r.P(miss) {
		req.Accept = []MRange{{Media{T: "video", S: "mp4"}, g.weight(0)}}
		if r.Bool() {
			req.Accept = append(req.Accept, MRange{Media{T: "text", S: "*"}, 0}, MRange{Media{T: "*", S: "*"}, 0})
		}
	}
	if r.P(miss) {
		req.Lang = []TRange{{"zh", g.weight(0)}}
		if r.Bool() {
			req.Lang = append(req.Lang, TRange{"*", 0})
		}
	}
	if r.P(miss) {
		req.Charset = []TRange{{"koi8-r", g.weight(0)}}
		if r.Bool() {
			req.Charset = append(req.Charset, TRange{"utf-8", 0})
		}
	}
	strictA, strictL, strictC := r.Bool(), r.Bool(), r.Bool()
	opts := []proactive.Option{}
	if !strictA && !strictL && !strictC && r.Bool() {
		opts = append(opts, proactive.DisableStrictMode())
	} else {
		if !strictA {
			opts = append(opts, proactive.DisableStrictAccept())
		}
		if !strictL {
			opts = append(opts, proactive.DisableStrictAcceptLanguage())
		}
		if !strictC {
			opts = append(opts, proactive.DisableStrictAcceptCharset())
		}
		opts = shuffled(r, opts)
	}
	ua, ul, uc, ambiguous := unmatchedHeaders(req, reps)
	if ambiguous {
		c.Skip("several equally specific ranges match")
		return
	}
	eff := req
	var want choice
	n := 0
	for _, u := range []bool{ua, ul, uc} {
		if u {
			n++
		}
	}
	forced406 := ua && strictA || ul && strictL || uc && strictC
	if forced406 {
		want = choice{idx: -1, by: "strict"}
	} else {
		if ua {
			eff.Accept = nil
		}
		if ul {
			eff.Lang = nil
		}
		if uc {
			eff.Charset = nil
		}
		want = apacheChoose(eff, reps)
	}
	if want.ambiguous != "" {
		c.Skip(want.ambiguous)
		return
	}
	h := req.Header(Style{R: r, Reorder: true})
	neg := proactive.New(opts...)
	o := negotiate(neg, ambient(r, newRequest(resourceURL, h)), reps)
	c.Desc("strict: Accept=%v Accept-Language=%v Accept-Charset=%v; unmatched: %v %v %v", strictA, strictL, strictC, ua, ul, uc)
	describe(c, h, reps)
	if n > 0 {
		c.Nontrivial(fmt.Sprint(strictA, strictL, strictC), req.key(), offerKey(reps))
		c.Count(fmt.Sprintf("unmatched:%d", n))
	}
	if judgeServed(c, o, want) {
		if forced406 {
			c.Count("strict-406")
		} else if n > 0 && want.idx >= 0 {
			c.Count("disregarded-and-served")
		}
	}
	// the answer must be the one to the request without the disregarded headers.
	if n > 0 && !forced406 && o.Panic == nil {
		h2 := h.Clone()
		if ua {
			delete(h2, "Accept")
		}
		if ul {
			delete(h2, "Accept-Language")
		}
		if uc {
			delete(h2, "Accept-Charset")
		}
		o2 := negotiate(neg, ambient(r, newRequest(resourceURL, h2)), reps)
		c.Eval(1)
		c.Count("metamorphic-compared")
		if o.StatusCode() != o2.StatusCode() || (o.StatusCode() == 200 && o.Sig() != o2.Sig()) {
			c.Fail("%s, but without the headers that nothing matches: %s", o.Short(), o2.Short())
		}
	}
	// strictness of matched headers is irrelevant.
	if n == 0 {
		o2 := negotiate(proactive.Default, ambient(r, newRequest(resourceURL, h)), reps)
		c.Eval(1)
		if o.Sig() != o2.Sig() {
			c.Fail("every header is matched, but relaxing strict mode changes the response: %s, with strict mode %s", o.Short(), o2.Short())
		}
	}
	c.Sample(map[string]any{"request": headerString(h), "strict": fmt.Sprint(strictA, strictL, strictC), "unmatched": fmt.Sprint(ua, ul, uc), "response": o.Short()})
}

// ---------------------------------------------------------------------------

func c04Spelling(c *Case, kind string) {
	r := c.R
	g := newGen(r)
	g.Zero = pickOf(r, 0, 20, 40)
	var neg negotiator.Negotiator
	var req Req
	n := r.Range(1, 6)
	switch kind {
	case "proactive":
		req = g.req(75)
		neg = proactive.Default
		if r.P(20) {
			neg = proactive.New(proactive.DisableStrictMode())
		}
	case "reactive":
		req = g.req(75)
		neg = reactiveDefault
	case "transparent":
		g.Features = true
		g.Enc = false
		req = g.req(pickOf(r, 60, 100))
		req.Enc = nil
		if r.P(80) {
			req.Feat = genFeatures(r)
		}
		req.Negotiate = genNegotiate(r)
		neg = transparent.Default
	}
	reps := g.reps(n)
	if c04Ambiguous(req, reps) {
		// several equally specific ranges: reordering can have a meaning.
		c.Skip("several equally specific ranges match")
		return
	}
	canonical := req.Header(Style{})
	o := negotiate(neg, ambient(r, newRequest(resourceURL, canonical)), reps)
	c.Eval(1)
	c.Count(fmt.Sprintf("%s:%d", kind, o.StatusCode()))
	describe(c, canonical, reps)
	if o.Panic != nil || o.Err != nil {
		c.Fail("canonical spelling: %s", o.Short())
		return
	}
	for k := 0; k < 2; k++ {
		h := req.Header(Style{R: r, Reorder: true})
		o2 := negotiate(neg, ambient(r, newRequest(resourceURL, h)), reps)
		c.Eval(1)
		if headerString(h) != headerString(canonical) {
			c.Nontrivial(kind, headerString(h), offerKey(reps))
		}
		if o.Sig() != o2.Sig() {
			c.Fail("spelled %s: %s, but spelled canonically: %s", headerString(h), o2.Short(), o.Short())
		}
		c.Sample(map[string]any{"canonical": headerString(canonical), "spelling": headerString(h), "response": o2.Short()})
	}
}

func c04Ambiguous(req Req, reps []*Rep) bool {
	for _, rep := range reps {
		if rate(req, rep).ambiguous {
			return true
		}
	}
	// the lists of 406 answers are negotiated too.
	for _, m := range []Media{{T: "application", S: "json"}, {T: "application", S: "xml"}, {T: "application", S: "yaml"}} {
		m := m
		if rate(req, &Rep{Media: &m, Lang: "en-US", Charset: "ascii", Enc: []string{"identity"}, SQ: 1000}).ambiguous {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------------------

// c05Probe brackets the weight of a representation in one dimension with a
// second representation that has a weight of its own.
func c05Probe(c *Case, set func(req *Req, probeQ int) (target, probe *Rep), weight int, wildcard bool, transparentToo bool) {
	r := c.R
	try := func(probeQ int) {
		if probeQ < 0 || probeQ > 1000 {
			return
		}
		var req Req
		target, probe := set(&req, probeQ)
		target.ID, probe.ID = 0, 1
		target.SQ, probe.SQ = 1000, 1000
		// the probe is smaller, so that it wins ties.
		target.Body, probe.Body = uniqueBody(0, 40), uniqueBody(1, 20)
		reps := []*Rep{target, probe}
		if r.Bool() {
			reps = []*Rep{probe, target}
		}
		want := 0
		switch {
		case weight == 0 && probeQ == 0:
			want = -1
		case weight < probeQ || weight == 0:
			want = 1
		case weight == probeQ:
			return // decided by other criteria.
		}
		o, h := negotiateProactive(req, Style{R: r, Reorder: len(req.Lang) == 0}, reps)
		c.Desc("the most specific range weighs %d, the probe %d", weight, probeQ)
		describe(c, h, reps)
		c.Eval(1)
		if o.Panic != nil || o.Err != nil {
			c.Fail("server-driven: %s", o.Short())
			return
		}
		if got := o.Served(); o.StatusCode() == 406 && want >= 0 || o.StatusCode() == 200 && got != want || (o.StatusCode() != 406 && o.StatusCode() != 200) {
			c.Fail("server-driven: want representation #%d, but got %s", want, o.Short())
		}
		if want == 0 {
			c.Count("served")
		} else {
			c.Count("not-served")
		}
		c.Sample(map[string]any{"request": headerString(h), "governing_weight": weight, "probe_weight": probeQ, "served": o.Served()})
		if transparentToo {
			// the first one wins ties; the probe is matched exactly.
			rep, err := transparent.RVSA1().Choose(ambient(r, newRequest(resourceURL, h)), asReps(reps)...)
			c.Eval(1)
			if err != nil {
				c.Fail("transparent: %v", err)
				return
			}
			var wantRep *Rep
			switch {
			case want == 0 && !wildcard:
				wantRep = target
			case want == 1:
				wantRep = probe
			}
			got, _ := rep.(*Rep)
			if got != wantRep {
				c.Fail("transparent: want %v, but got %v", wantRep, got)
			}
			if got != nil {
				c.Count("transparent:chosen")
			} else {
				c.Count("transparent:refused")
			}
		}
	}
	try(weight - 1)
	try(weight + 1)
	if r.P(30) {
		try(0)
		try(1000)
	}
}

func (g *Gen) distinctWeights(n int) []int {
	pool := []int{0, 1, 100, 250, 499, 500, 501, 700, 900, 999, 1000, 2, 800, 30}
	p := g.R.Perm(len(pool))
	var out []int
	for i := 0; i < n; i++ {
		out = append(out, pool[p[i]])
	}
	return out
}

func c05Media(c *Case) {
	r := c.R
	g := &Gen{R: r, Types: typePool, Langs: langPool, Charsets: charsetPool}
	params := [][]Param{nil, {{"charset", "utf-8"}}, {{"charset", "utf-8"}, {"version", pickOf(r, append([]string{"2", "2"}, profiles...)...)}}}
	if r.P(10) {
		params[1] = append(params[1], Param{"title", pickOf(r, "aBc", "x", "Q1")})
	}
	var many, reversed []Param
	if r.P(3) {
		c.Count("many-parameters")
		for i, n := 0, pickOf(r, 2, 6, 7, 8, 9, 14, 15, 16, 17, 31, 33, 64); i < n; i++ {
			many = append(many, Param{fmt.Sprintf("p%d", i), strconv.Itoa(i % 3)})
		}
		params[2] = append(append(params[2][:1:1], shuffled(r, many)...), params[2][1])
		reversed = shuffled(r, many)
	}
	m := Media{"text", pickOf(r, "html", "plain"), params[r.Intn(3)]}
	candidates := []Media{{T: "*", S: "*"}, {T: "text", S: "*"}, {T: "text", S: m.S}, {"text", m.S, params[1]}, {"text", m.S, params[2]},
		{"text", m.S, append([]Param{{"version", params[2][len(params[2])-1].V}, {"charset", "utf-8"}}, reversed...)},
		// ranges that don't match.
		{"text", m.S, []Param{{"charset", "us-ascii"}}}, {"text", m.S, []Param{{"format", "flowed"}}}, {T: "text", S: pickOf(r, "css", m.S+"5", m.S+"+xml", "x+"+m.S, "x-"+m.S, m.S[:3])}, {T: pickOf(r, "application", "texts", "tex", "x-text"), S: "*"}}
	if r.Bool() {
		candidates = append(candidates[:5:5], candidates[6:]...)
	} else {
		candidates = append(candidates[:4:4], candidates[5:]...)
	}
	if len(params[1]) > 1 {
		// the case of values matters.
		candidates = append(candidates, Media{"text", m.S, []Param{{"charset", "utf-8"}, {"title", pickOf(r, "aBc", "abc", "ABC", "X", "x", "q1", "Q1")}}})
	}
	if len(many) > 0 {
		// it differs in one of many.
		other := shuffled(r, params[2])
		other[r.Intn(len(other))].V = "other"
		candidates = append(candidates, Media{"text", m.S, other})
	}
	// parameters don't make a wildcard more specific than a type without them.
	if r.P(30) {
		candidates = append(candidates, Media{pickOf(r, "*", "text"), "*", params[r.Range(1, 2)]})
		i := pickOf(r, 0, 1)
		if r.P(80) {
			candidates = append(candidates[:i:i], candidates[i+1:]...)
		}
	}
	w := g.distinctWeights(len(candidates))
	var ranges []MRange
	for i, cand := range candidates {
		if r.P(60) {
			ranges = append(ranges, MRange{cand, w[i]})
		}
	}
	ranges = shuffled(r, ranges)
	gov := govMedia(ranges, m)
	if gov.ambiguous {
		c.Skip("several equally specific ranges match")
		return
	}
	matching := 0
	for _, rg := range ranges {
		if ok, spec := mediaMatches(rg.Media, m); ok {
			matching++
			switch {
			case spec > 2:
				c.Count("overlap:params")
			case spec == 1:
				c.Count("overlap:subtype")
			case spec == 0:
				c.Count("overlap:wildcard")
			}
		}
	}
	if matching > 1 {
		c.Nontrivial(Req{Accept: ranges}.key(), m.String())
	}
	probeType := Media{T: "image", S: "x-probe"}
	c05Probe(c, func(req *Req, q int) (*Rep, *Rep) {
		req.Accept = append(append([]MRange{}, ranges...), MRange{probeType, q})
		req.Accept = shuffled(r, req.Accept)
		return &Rep{Media: &m}, &Rep{Media: &probeType}
	}, gov.q, gov.wildcard, true)
}

func c05Language(c *Case) {
	r := c.R
	g := &Gen{R: r, Types: typePool, Langs: langPool, Charsets: charsetPool}
	tag := pickOf(r, "en", "en-GB", "en-US", "fr-CA", "fr")
	names := []string{"*", tag, "de", "ja"}
	if r.P(30) {
		// tags that only look alike.
		tag = pickOf(r, "enm", "frr-DE", "frm", "en", "fr")
		names = []string{"*", tag, "de", pickOf(r, "en", "fr", "fr-CA", "enm", "frr", "frm")}
		if primary(names[3]) == primary(tag) {
			names[3] = "ja"
		}
	}
	// at most one related language.
	for _, i := range r.Perm(len(langPool)) {
		if n := langPool[i]; n != tag && primary(n) == primary(tag) {
			names = append(names, n)
			break
		}
	}
	w := g.distinctWeights(len(names))
	var ranges []TRange
	for i, n := range names {
		if r.P(60) {
			ranges = append(ranges, TRange{n, w[i]})
		}
	}
	gov := govLang(ranges, tag)
	if gov.ambiguous {
		c.Skip("several related languages")
		return
	}
	matching := 0
	for _, rg := range ranges {
		if rg.Name == "*" || primary(rg.Name) == primary(tag) {
			matching++
		}
	}
	if matching > 1 {
		c.Nontrivial(tokensKey(ranges), tag)
	}
	c05Probe(c, func(req *Req, q int) (*Rep, *Rep) {
		req.Lang = append(append([]TRange{}, ranges...), TRange{"es", q})
		req.Lang = shuffled(r, req.Lang)
		return &Rep{Lang: tag}, &Rep{Lang: "es"}
	}, gov.q, gov.wildcard, true)
}

func c05Charset(c *Case) {
	r := c.R
	g := &Gen{R: r, Types: typePool, Langs: langPool, Charsets: charsetPool}
	cs := pick(r, charsetPool)
	var ranges []TRange
	w := g.distinctWeights(4)
	names := []string{"*", cs, "koi8-r", "windows-1252"}
	if r.P(40) {
		// names that only look alike.
		names[3] = pickOf(r, cs+"5", cs+"-x", "x-"+cs, cs[:len(cs)-1], strings.ReplaceAll(cs, "-", "_")+"_", strings.ReplaceAll(cs, "-", "")+"0", "cs"+cs)
	}
	for i, n := range names {
		if r.P(65) {
			ranges = append(ranges, TRange{n, w[i]})
		}
	}
	gov := govToken(ranges, cs)
	if len(ranges) > 1 {
		c.Nontrivial(tokensKey(ranges), cs)
	}
	c05Probe(c, func(req *Req, q int) (*Rep, *Rep) {
		req.Charset = shuffled(r, append(append([]TRange{}, ranges...), TRange{"x-probe", q}))
		return &Rep{Charset: cs}, &Rep{Charset: "x-probe"}
	}, gov.q, gov.wildcard, true)
}

func c05Coding(c *Case) {
	r := c.R
	g := &Gen{R: r, Types: typePool, Langs: langPool, Charsets: charsetPool}
	probe := pickOf(r, "deflate", "compress")
	cdg := pickOf(r, "gzip", "identity", "x-gzip", "none")
	name := cdg
	if name == "none" {
		name = "identity"
	}
	var ranges []TRange
	w := g.distinctWeights(3)
	names := []string{"*", name, "br"}
	if r.P(40) {
		// names that only look alike.
		names[2] = pickOf(r, name+"2", name+"-x", "y-"+name, name[:len(name)-1], "un"+name)
	}
	for i, n := range names {
		if r.P(65) {
			ranges = append(ranges, TRange{n, w[i]})
		}
	}
	gov := govToken(ranges, name)
	if !gov.matched && name == "identity" {
		gov.q = 1000
	}
	if len(ranges) > 1 {
		c.Nontrivial(tokensKey(ranges), cdg)
	}
	c05Probe(c, func(req *Req, q int) (*Rep, *Rep) {
		req.Enc = shuffled(r, append(append([]TRange{}, ranges...), TRange{probe, q}))
		t := &Rep{Enc: []string{cdg}}
		if cdg == "none" {
			t.Enc = nil
		}
		return t, &Rep{Enc: []string{probe}}
	}, gov.q, gov.wildcard, false)
}

func joinReps(rs []representation.Representation) string {
	var b strings.Builder
	for _, r := range rs {
		if rep, ok := r.(*Rep); ok {
			b.WriteString(fmt.Sprintf("#%d ", rep.ID))
		} else {
			b.WriteString(fmt.Sprintf("%T ", r))
		}
	}
	return b.String()
}
