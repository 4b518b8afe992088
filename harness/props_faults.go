package main

import (
	"fmt"
	"net/http"
	"strconv"
	"strings"
	"time"

	"github.com/freerware/negotiator"
	"github.com/freerware/negotiator/proactive"
	"github.com/freerware/negotiator/reactive"
	"github.com/freerware/negotiator/representation"
	"github.com/freerware/negotiator/transparent"
)

func init() {
	register(&Property{
		ID:   "C17",
		More: 8,
		Rule: "for every generated negotiation the calls it makes into the application (serialization of offers and lists, algorithm, response writer) are counted in a first run; " +
			"then one run per call makes exactly that call fail, once or from then on, and the writer fail after some bytes. Each run's error, response and headers are judged. " +
			"Non-trivial: a fault was triggered; distinct by kind, offer, request and faulting call.",
		Subs: []Sub{
			{Name: "every-call", Quick: 6000, Thorough: 150000, Run: c17EveryCall},
			{Name: "malformed", Quick: 15000, Thorough: 300000, Run: c17Malformed},
		},
		MinEvents: []string{"fault:bytes", "fault:list-bytes", "fault:choose", "fault:write", "fault:choose-again", "fault:later-bytes", "capable-writer", "kind:proactive", "kind:reactive", "kind:transparent",
			"clean:200", "clean:201", "clean:300", "clean:406", "malformed:error", "malformed:offer"},
	})
	register(&Property{
		ID:   "C18",
		More: 2,
		Rule: "arbitrary bytes, grammar fragments in any order, mutations of valid headers and very long values in the six negotiation headers, for the three kinds of negotiation, with a watchdog; " +
			"panics, hangs, undocumented statuses and partial answers are violations. Non-trivial: distinct by headers.",
		Subs: []Sub{
			{Name: "hostile", Quick: 60000, Thorough: 2000000, Run: c18Hostile},
			{Name: "mutated", Quick: 60000, Thorough: 2000000, Run: c18Mutated},
			{Name: "long", Quick: 60, Thorough: 1200, Run: c18Long},
		},
		MinEvents: []string{"answer:200", "answer:201", "answer:300", "answer:406", "answer:error", "kind:proactive", "kind:reactive", "kind:transparent", "long"},
	})
}

// injector makes one of the calls of a negotiation into the application fail.
type injector struct {
	calls     int
	failAt    int // 0 is never; the first call is 1.
	sticky    bool
	keep      int // bytes taken by a failing write.
	err       error
	triggered []string
	sites     []string
}

func (j *injector) hit(site string) error {
	j.calls++
	j.sites = append(j.sites, site)
	if j.failAt > 0 && (j.calls == j.failAt || j.sticky && j.calls > j.failAt && len(j.triggered) > 0 && j.triggered[0] == site) {
		j.triggered = append(j.triggered, site)
		return j.err
	}
	return nil
}

// faultyRep is a representation whose serialization is subject to injection.
type faultyRep struct {
	representation.Representation
	j    *injector
	site string
}

func (f *faultyRep) Bytes() ([]byte, error) {
	if err := f.j.hit(f.site); err != nil {
		return nil, err
	}
	return f.Representation.Bytes()
}

type faultyChooser struct {
	representation.Chooser
	j *injector
}

func (f faultyChooser) Choose(r *http.Request, reps ...representation.Representation) (representation.Representation, error) {
	if err := f.j.hit("choose"); err != nil {
		return nil, err
	}
	return f.Chooser.Choose(r, reps...)
}

func (j *injector) list(c representation.ListConstructor) representation.ListConstructor {
	return func(reps ...representation.Representation) representation.Representation {
		return &faultyRep{c(reps...), j, "list-bytes"}
	}
}

// faultyWriter is a recorder whose writes are subject to injection.
type faultyWriter struct {
	*Recorder
	j *injector
}

func (w *faultyWriter) Write(b []byte) (int, error) {
	if err := w.j.hit("write"); err != nil {
		n := w.j.keep
		if n > len(b) {
			n = len(b)
		}
		w.Recorder.WriteErr, w.Recorder.FailAfter = err, w.Recorder.Body.Len()+n
		if n == len(b) {
			// everything was taken, and yet it failed.
			w.Recorder.FailAfter = -1
			_, _ = w.Recorder.Write(b)
			w.Recorder.WriteFailed = true
			return n, err
		}
		return w.Recorder.Write(b)
	}
	return w.Recorder.Write(b)
}

func c17EveryCall(c *Case) {
	r := c.R
	kind := pickOf(r, "proactive", "proactive", "reactive", "transparent", "transparent")
	c.Count("kind:" + kind)
	g := newGen(r)
	n := r.Range(1, 5)
	offers := g.reps(n)
	if r.P(30) {
		for _, o := range offers {
			if r.Bool() {
				o.Body = []byte{}
			}
		}
	}
	q := g.req(pickOf(r, 0, 50, 90))
	if kind == "transparent" {
		q.Negotiate = []string{"trans", pickOf(r, "1.0", "guess-small", "trans", "*")}
		q.Enc = nil
	}
	h := q.Header(Style{})
	creation := r.Bool()
	preset := appHeaders(r)
	pickLast := r.P(40)
	disable := r.P(30)
	capable := r.P(40)
	nlists := r.Range(1, 3)
	useDefaultLists := r.P(30)

	build := func(j *injector) (negotiator.Negotiator, []representation.Representation) {
		reps := make([]representation.Representation, n)
		for i := range reps {
			reps[i] = &faultyRep{offers[i], j, "bytes"}
		}
		picking := func(fallback representation.Chooser) representation.Chooser {
			if pickLast {
				return faultyChooser{stubChooser{func(_ *http.Request, reps []representation.Representation) (representation.Representation, error) {
					return reps[len(reps)-1], nil
				}}, j}
			}
			return faultyChooser{fallback, j}
		}
		switch kind {
		case "proactive":
			opts := []proactive.Option{proactive.Algorithm(picking(proactive.ApacheHTTPD()))}
			if !useDefaultLists {
				var cons []representation.ListConstructor
				for k := 0; k < nlists; k++ {
					cons = append(cons, j.list(listConstructor([]string{"application/json", "application/xml", "application/yaml"}[k], "en-US", 1)))
				}
				opts = append(opts, proactive.Representations(cons...), proactive.DefaultRepresentation(j.list(listConstructor("application/json", "en-US", 1))))
			}
			if disable {
				opts = append(opts, proactive.DisableStrictMode())
			}
			return proactive.New(opts...), reps
		case "reactive":
			return reactive.New(reactive.Representation(j.list(listConstructor("application/json", "en-US", 1)))), reps
		}
		return transparent.New(transparent.RVSA(picking(transparent.RVSA1())), transparent.ListRepresentation(j.list(listConstructor("application/json", "en-US", 1)))), reps
	}
	perform := func(j *injector) (Outcome, http.Header) {
		neg, reps := build(j)
		rec := NewRecorder()
		rec.H = preset.Clone()
		var w http.ResponseWriter = &faultyWriter{rec, j}
		if capable {
			w = capableWriter{w, rec}
		}
		o := observe(rec, func() error {
			return neg.Negotiate(negotiator.NegotiationContext{ResponseWriter: w, Request: newRequest(resourceURL, h.Clone()), IsCreation: creation}, reps...)
		})
		return o, preset
	}

	c.Desc("%s negotiation", kind)
	describe(c, h, offers)
	if capable {
		c.Count("capable-writer")
		c.Desc("the response writer can do everything that those of a server can")
	}
	clean := &injector{}
	o, _ := perform(clean)
	c.Eval(1)
	if o.Panic != nil || o.Err != nil {
		c.Fail("without faults: %s", o.Short())
		return
	}
	c.Count(fmt.Sprintf("clean:%d", o.StatusCode()))
	if err := checkComplete(o, preset); err != nil {
		c.Fail("without faults: %v", err)
	}
	chooses, bytesCalls := 0, 0
	max := clean.calls
	for at := 1; at <= max; at++ {
		site := clean.sites[at-1]
		if max > 25 && at < max-12 && r.P(60) {
			continue
		}
		name := site
		switch site {
		case "choose":
			chooses++
			if chooses > 1 {
				name = "choose-again"
			}
		case "bytes":
			bytesCalls++
			if bytesCalls > 1 {
				name = "later-bytes"
			}
		}
		boom := fmt.Errorf("injected into %s", site)
		j := &injector{failAt: at, sticky: r.Bool(), err: boom, keep: pickOf(r, 0, 1, 10, 1<<20)}
		o, _ := perform(j)
		c.Eval(1)
		if len(j.triggered) == 0 {
			// negotiation is free to make other calls in another run.
			c.Skip("fault not reached")
			continue
		}
		c.Count("fault:" + site)
		if name != site {
			c.Count("fault:" + name)
		}
		c.Nontrivial(kind, headerString(h), offerKey(offers), fmt.Sprint(at, j.sticky))
		where := fmt.Sprintf("call %d (%s) of %d failed", at, site, max)
		switch {
		case o.Panic != nil:
			c.Fail("%s: %s", where, o.Short())
		case o.Err == nil:
			c.Fail("%s, but negotiation reports success: %s", where, o.Short())
		case o.Err != boom:
			c.Fail("%s, but negotiation returns another error: %v", where, o.Err)
		case site != "write":
			if err := o.nothingAnswered(preset); err != nil {
				c.Fail("%s and negotiation failed, but %v", where, err)
			}
		}
	}
	c.Sample(map[string]any{"kind": kind, "request": headerString(h), "calls": clean.sites, "faulted": max})
}

// checkComplete checks that the complete response was written.
func checkComplete(o Outcome, preset http.Header) error {
	if err := checkOrder(o); err != nil {
		return err
	}
	cl := o.Header["Content-Length"]
	if o.StatusCode() == 204 || o.StatusCode() == 406 && len(cl) == len(preset["Content-Length"]) {
		if len(o.Body) > 0 {
			return fmt.Errorf("%d body bytes that no Content-Length announces", len(o.Body))
		}
		return nil
	}
	if len(cl) != 1 || cl[0] != strconv.Itoa(len(o.Body)) {
		return fmt.Errorf("Content-Length is %q, but the body has %d bytes", cl, len(o.Body))
	}
	return nil
}

// c17Malformed has requests, and offers, that make negotiation fail.
func c17Malformed(c *Case) {
	r := c.R
	g := newGen(r)
	reps := g.reps(r.Range(1, 13))
	h := hostileHeader(r)
	neg, kind := anyNegotiator(r)
	if r.P(15) && kind == "transparent" {
		reps[r.Intn(len(reps))].Feat = []string{pickOf(r, "[", "tables;+", "a=[1-", "=", ";+1", "[]", "a b")}
		h["Negotiate"] = []string{"*"}
	}
	if r.P(30) {
		// metadata that isn't well-formed: what happens to it isn't specified,
		// but it's all or nothing.
		if r.P(70) {
			h = newGen(r).req(70).Header(Style{R: r})
			h["Negotiate"] = genNegotiate(r)
		}
		for k := pickOf(r, 1, 1, 2); k > 0; k-- {
			x := reps[r.Intn(len(reps))]
			switch r.Intn(5) {
			case 0, 1:
				x.Media = pickOf(r, &Media{"text", "html", []Param{{"level", pickOf(r, "abc", "-1", "99999999999", "1.5", " ")}}},
					&Media{T: "text", S: "html; level"}, &Media{T: "text", S: "html;=;"}, &Media{T: "", S: "plain"}, &Media{T: "text", S: ""},
					&Media{T: "*", S: "*"}, &Media{T: "text", S: "html/x"}, &Media{"text", "plain", []Param{{"a", "1"}, {"a", "2"}}}, &Media{T: "te xt", S: "\x00"})
			case 2:
				x.Lang = pickOf(r, "not a language", "*", "-", "\xff", strings.Repeat("a-", 50), "en,fr")
			case 3:
				x.Enc = [][]string{{""}, {"gzip, deflate"}, {"*"}, {"gzip", ""}, {"\xff"}}[r.Intn(5)]
			case 4:
				x.Charset = pickOf(r, "*", "utf 8", ",", "\xff")
			}
		}
		c.Count("malformed:offer")
	}
	preset := appHeaders(r)
	rec := NewRecorder()
	rec.H = preset.Clone()
	o := negotiateOn(neg, rec, ambient(r, newRequest(resourceURL, h)), r.Bool(), asReps(reps))
	c.Eval(1)
	c.Desc("%s negotiation", kind)
	describe(c, h, reps)
	c.Nontrivial(kind, headerString(h))
	switch {
	case o.Panic != nil:
		c.Fail("%s\n%s", o.Short(), o.Stack)
	case o.Err != nil:
		c.Count("malformed:error")
		if err := o.nothingAnswered(preset); err != nil {
			c.Fail("negotiation returned %q, but %v", o.Err, err)
		}
	default:
		c.Count("malformed:answered")
		if err := checkComplete(o, preset); err != nil {
			c.Fail("%v", err)
		}
	}
	c.Sample(map[string]any{"kind": kind, "request": headerString(h), "response": o.Short()})
}

var sharedNegotiators = []struct {
	kind string
	n    negotiator.Negotiator
}{
	{"proactive", proactive.Default},
	{"proactive", proactive.New(proactive.DisableStrictMode())},
	{"proactive", proactive.New(proactive.DisableNotAcceptableRepresentation())},
	{"reactive", reactive.Default},
	{"transparent", transparent.Default},
	{"transparent", transparent.New(transparent.MaximumVariantListSize(40), transparent.GuessSmallThreshold(500))},
}

func anyNegotiator(r *Rand) (negotiator.Negotiator, string) {
	s := sharedNegotiators[r.Intn(len(sharedNegotiators))]
	return s.n, s.kind
}

// ---------------------------------------------------------------------------

func documentedStatus(kind string, status int, creation bool) bool {
	switch kind {
	case "proactive":
		return status == 406 || status == 200 && !creation || status == 201 && creation
	case "reactive":
		return status == 300
	}
	return status == 200 || status == 300
}

func c18Judge(c *Case, h http.Header) {
	r := c.R
	neg, kind := anyNegotiator(r)
	g := newGen(r)
	g.Features = r.Bool()
	g.Undeclared = pickOf(r, 0, 20)
	reps := g.reps(r.Range(1, 5))
	creation := r.Bool()
	c.Desc("%s negotiation, creation %v", kind, creation)
	describe(c, h, reps)
	preset := appHeaders(r)
	rec := NewRecorder()
	rec.H = preset.Clone()
	req := newRequest(resourceURL, h)
	req.Method = pickOf(r, "GET", "HEAD", "PUT", "")
	done := make(chan Outcome, 1)
	go func() { done <- negotiateOn(neg, rec, req, creation, asReps(reps)) }()
	var o Outcome
	select {
	case o = <-done:
	case <-time.After(120 * time.Second):
		c.Fail("negotiation hangs")
		c.hung = true
		return
	}
	c.Eval(1)
	c.Count("kind:" + kind)
	c.Nontrivial(kind, headerString(h))
	c.Sample(map[string]any{"kind": kind, "request": short(headerString(h), 400), "response": o.Short()})
	switch {
	case o.Panic != nil:
		c.Fail("%s\n%s", o.Short(), o.Stack)
	case o.Err != nil:
		c.Count("answer:error")
		if err := o.nothingAnswered(preset); err != nil {
			c.Fail("negotiation returned %q, but %v", o.Err, err)
		}
	case !documentedStatus(kind, o.StatusCode(), creation):
		c.Fail("undocumented response %s", o.Short())
	default:
		c.Count(fmt.Sprintf("answer:%d", o.StatusCode()))
		if err := checkComplete(o, preset); err != nil {
			c.Fail("%v", err)
		}
		if s := o.StatusCode(); s == 200 || s == 201 {
			if id := o.Served(); id < 0 || id >= len(reps) || string(reps[id].Body) != string(o.Body) {
				c.Fail("the response doesn't carry an offered representation: %s", o.Short())
			}
		}
	}
}

func short(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func c18Hostile(c *Case) {
	h := hostileHeader(c.R)
	// mostly one header is hostile, otherwise the first error hides the others.
	if c.R.P(60) {
		keep := pick(c.R, negotiationHeaders)
		for _, n := range negotiationHeaders {
			if n != keep {
				delete(h, n)
			}
		}
		if keep == "Accept-Features" || c.R.Bool() {
			h["Negotiate"] = []string{"*"}
		}
	}
	c18Judge(c, h)
}

func mutate(r *Rand, s string) string {
	b := []byte(s)
	for k := r.Range(1, 3); k > 0; k-- {
		if len(b) == 0 {
			b = append(b, ' ')
		}
		i := r.Intn(len(b))
		switch r.Intn(7) {
		case 0:
			b[i] = byte(r.U64())
		case 1:
			b = append(b[:i], b[i+1:]...)
		case 2:
			a := pick(r, hostileAtoms)
			b = append(b[:i:i], append([]byte(a), b[i:]...)...)
		case 3:
			j := i + r.Intn(len(b)-i)
			b = append(b[:j:j], append(append([]byte{}, b[i:j]...), b[j:]...)...)
		case 4:
			b = b[:i]
		case 5:
			b[i] ^= 0x20
		case 6:
			j := r.Intn(len(b))
			b[i], b[j] = b[j], b[i]
		}
	}
	return string(b)
}

func c18Mutated(c *Case) {
	r := c.R
	g := newGen(r)
	q := g.req(pickOf(r, 40, 90))
	if r.P(70) {
		q.Feat = genFeatures(r)
	}
	q.Negotiate = genNegotiate(r)
	h := q.Header(Style{R: r})
	var names []string
	for _, n := range negotiationHeaders {
		if len(h[n]) > 0 {
			names = append(names, n)
		}
	}
	if len(names) > 0 {
		for k := pickOf(r, 1, 1, 2); k > 0; k-- {
			n := pick(r, names)
			i := r.Intn(len(h[n]))
			h[n][i] = mutate(r, h[n][i])
		}
	}
	c18Judge(c, h)
}

func c18Long(c *Case) {
	r := c.R
	name := pick(r, negotiationHeaders)
	size := pickOf(r, 2000, 20000, 60000)
	var v string
	switch r.Intn(4) {
	case 0:
		v = strings.Repeat(pick(r, hostileAtoms), size/4)
	case 1:
		v = strings.Repeat(pick(r, hostileAtoms)+",", size/8)
	case 2:
		var parts []string
		for k := 0; k < size/12; k++ {
			parts = append(parts, pickOf(r, "text/html;q=0.5", "en-US;q=0.1", "utf-8", "gzip;q=0.3", "tables=5", "trans"))
		}
		v = strings.Join(parts, ",")
	case 3:
		v = strings.Repeat(pickOf(r, "a", "-", "en-", ";a=b", "[", "\"", "{", "a/", "\\", "("), size)
	}
	if len(v) > 200000 {
		v = v[:200000]
	}
	c.Count("long")
	h := http.Header{name: {v}}
	if r.Bool() || name == "Accept-Features" {
		h.Set("Negotiate", "*")
		if name == "Negotiate" {
			h[name] = []string{v, "*"}
		}
	}
	// the description of the case would be as long.
	c.Desc("long %s: %.100q", name, v)
	c18JudgeLong(c, h)
}

func c18JudgeLong(c *Case, h http.Header) {
	n := len(c.desc)
	c18Judge(c, h)
	for i := n; i < len(c.desc); i++ {
		c.desc[i] = short(c.desc[i], 500)
	}
	for i := range c.fails {
		for k := range c.fails[i].Context {
			c.fails[i].Context[k] = short(c.fails[i].Context[k], 500)
		}
	}
}
