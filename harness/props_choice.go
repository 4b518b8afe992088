package main

import (
	"fmt"
	"net/http"
	"sort"
	"strconv"
	"strings"

	"github.com/freerware/negotiator"
	"github.com/freerware/negotiator/proactive"
	"github.com/freerware/negotiator/reactive"
	"github.com/freerware/negotiator/representation"
	"github.com/freerware/negotiator/transparent"
)

func init() {
	register(&Property{
		ID:   "C23",
		More: 10,
		Rule: "every weight from 0 to 1 in thousandths against its neighbours, itself, zero, one and random ones, in every legal spelling, in each weighted header and both weighing kinds of negotiation; " +
			"the response must be the one the weights order. Then weights that aren't numbers from 0 to 1 at any position of each header. Non-trivial: distinct by header, kind, weights and spelling.",
		Subs: []Sub{
			{Name: "weights", Quick: 1001 * 7 * 8, Thorough: 1001 * 7 * 160, Run: c23Weights},
			{Name: "illegal", Quick: 8000, Thorough: 200000, Run: c23Illegal},
		},
		MinEvents: []string{"header:Accept", "header:Accept-Language", "header:Accept-Charset", "header:Accept-Encoding", "transparent:Accept", "transparent:Accept-Language", "transparent:Accept-Charset",
			"outcome:larger", "outcome:tie", "outcome:zero", "outcome:both-zero", "refused"},
	})
	register(&Property{
		ID:   "C24",
		More: 3,
		Rule: "recording algorithms that pick any offered representation, another one, none, or fail, and recording list constructors, under all options of the three kinds of negotiation (options repeated, the last one wins); " +
			"the recorded consultations and the response are compared with what the configuration prescribes. Non-trivial: distinct by script, configuration, request and offer.",
		Subs: []Sub{
			{Name: "proactive", Quick: 40000, Thorough: 900000, Run: c24Proactive},
			{Name: "transparent", Quick: 20000, Thorough: 400000, Run: c24Transparent},
			{Name: "reactive", Quick: 5000, Thorough: 100000, Run: c24Reactive},
		},
		MinEvents: []string{"pick:offered", "pick:foreign", "pick:none", "pick:error", "lists:offered", "lists:none", "lists:error", "strict-406", "asked-again", "transparent:200", "transparent:300", "reactive:300",
			"overridden", "no-lists"},
	})
	register(&Property{
		ID: "C25",
		Rule: "metamorphic: for a generated request and offer for which the default algorithm picks a representation, losers are removed, unacceptable representations inserted, representations duplicated and the offer permuted (ties kept in order), " +
			"through the algorithm and through negotiation. Non-trivial: the changed offer differs; distinct by request and changed offer.",
		Subs: []Sub{
			{Name: "proactive", Quick: 12000, Thorough: 300000, Run: func(c *Case) { c25Run(c, false) }},
			{Name: "transparent", Quick: 12000, Thorough: 300000, Run: func(c *Case) { c25Run(c, true) }},
		},
		MinEvents: []string{"proactive:removed", "proactive:inserted", "proactive:permuted", "proactive:duplicated", "transparent:removed", "transparent:inserted", "transparent:permuted", "transparent:duplicated", "negotiated", "tied"},
	})
	register(&Property{
		ID:   "C26",
		More: 20,
		Rule: "random sequences of filtering and stable sorting of sets of up to 2000 ranked representations with many equal keys, compared with a model after every step. Non-trivial: the set has at least two elements; distinct by contents and operation.",
		Subs: []Sub{
			{Name: "sequence", Quick: 6000, Thorough: 150000, Run: c26Sequence},
			{Name: "large", Quick: 200, Thorough: 4000, Run: c26Large},
		},
		MinEvents: []string{"where", "sort", "empty", "large", "equal-keys", "all-match", "none-match"},
	})
}

// ---------------------------------------------------------------------------
// C23.

// spellings are all the legal spellings of a weight; "" is no weight at all.
func spellings(w int) []string {
	switch w {
	case 0:
		return []string{"0", "0.", "0.0", "0.00", "0.000"}
	case 1000:
		return []string{"", "1", "1.", "1.0", "1.00", "1.000"}
	}
	full := fmt.Sprintf("%03d", w)
	least := len(strings.TrimRight(full, "0"))
	var out []string
	for n := least; n <= 3; n++ {
		out = append(out, "0."+full[:n])
	}
	return out
}

var weighted = []struct {
	header      string
	a, b        string
	transparent bool
}{
	{"Accept", "text/html", "text/plain", false},
	{"Accept-Language", "en", "fr", false},
	{"Accept-Charset", "utf-8", "utf-16", false},
	{"Accept-Encoding", "gzip", "deflate", false},
	{"Accept", "image/png", "image/gif", true},
	{"Accept-Language", "de", "ja", true},
	{"Accept-Charset", "utf-8", "us-ascii", true},
}

func weightedRep(id int, header, value string, size int) *Rep {
	rep := &Rep{ID: id, SQ: 1000, Body: uniqueBody(id, size), Loc: *mustURL("http://example.com/r/" + strconv.Itoa(id))}
	switch header {
	case "Accept":
		rep.CT = value
	case "Accept-Language":
		rep.Lang = value
	case "Accept-Charset":
		rep.Charset = value
	case "Accept-Encoding":
		rep.Enc = []string{value}
	}
	return rep
}

func c23Weights(c *Case) {
	r := c.R
	dim := weighted[c.Idx%len(weighted)]
	wa := c.Idx / len(weighted) % 1001
	var wb int
	switch k := c.Idx / len(weighted) / 1001 % 8; k {
	case 0:
		wb = wa
	case 1, 2:
		wb = wa + 1
	case 3, 4:
		wb = wa - 1
	case 5:
		wb = pickOf(r, 0, 1000)
	default:
		wb = r.Intn(1001)
	}
	if wb < 0 || wb > 1000 {
		wb = 1000 - wa
	}
	sa, sb := pick(r, spellings(wa)), pick(r, spellings(wb))
	el := func(v, s string) string {
		if s == "" {
			return v
		}
		return v + pickOf(r, ";q=", ";q=", "; q=", ";Q=", " ; q=") + s
	}
	elements := []string{el(dim.a, sa), el(dim.b, sb)}
	first := 0
	if r.Bool() {
		elements[0], elements[1] = elements[1], elements[0]
		first = 1
	}
	lines := []string{strings.Join(elements, pickOf(r, ",", ", "))}
	if r.P(20) {
		lines = elements
	}
	// the small one decides ties, except that of languages.
	small := r.Intn(2)
	sizes := [2]int{40, 40}
	sizes[small] = 20
	reps := []*Rep{weightedRep(0, dim.header, dim.a, sizes[0]), weightedRep(1, dim.header, dim.b, sizes[1])}
	offered := reps
	if r.Bool() {
		offered = []*Rep{reps[1], reps[0]}
	}
	h := http.Header{dim.header: lines}
	var neg negotiator.Negotiator = proactive.Default
	kind := "header:"
	none := 406
	if dim.transparent {
		h["Negotiate"] = []string{pickOf(r, "*", "1.0")}
		neg = transparent.Default
		kind = "transparent:"
		none = 300
	}
	want, outcome := -1, "both-zero"
	switch {
	case wa > wb:
		want, outcome = 0, "larger"
	case wb > wa:
		want, outcome = 1, "larger"
	case wa > 0:
		outcome = "tie"
		switch {
		case dim.transparent:
			want = offered[0].ID
		case dim.header == "Accept-Language":
			want = first
		default:
			want = small
		}
	}
	if want >= 0 && wa*wb == 0 {
		outcome = "zero"
	}
	o := negotiate(neg, ambient(r, newRequest(resourceURL, h)), offered)
	c.Eval(1)
	c.Count(kind + dim.header)
	c.Count("outcome:" + outcome)
	c.Nontrivial(kind, dim.header, strings.Join(lines, ","), fmt.Sprint(small, offered[0].ID))
	describe(c, h, offered)
	switch {
	case o.Panic != nil || o.Err != nil:
		c.Fail("%s", o.Short())
	case want < 0 && o.StatusCode() != none:
		c.Fail("every weight is zero, but got %s", o.Short())
	case want >= 0 && (o.StatusCode() != 200 || o.Served() != want):
		c.Fail("#%d has to be served (%s), but got %s", want, outcome, o.Short())
	}
	c.Sample(map[string]any{"request": headerString(h), "outcome": outcome, "response": o.Short()})
}

var illegalWeights = []string{"-1", "-0.5", "-0.001", "1.001", "1.1", "1.01", "1.999", "2", "10", "100", "NaN", "nan", "NAN", "Inf", "+Inf", "inf", "-Inf", "Infinity", "-infinity", "",
	"abc", "0.5x", "x0.5", "0..5", "0.5.5", "--1", "one", "1e1", "1e400", "-1e-1", "0.5 0.5", "q", "*", "1/2", "0.5%", "5e", ".", "+", "-", "--0.5", "9999999999999999999999", "0.\x00", "½",
	`""`, `"abc"`, `"2"`, `"-1"`, `"NaN"`}

func c23Illegal(c *Case) {
	r := c.R
	dim := weighted[c.Idx%len(weighted)]
	bad := illegalWeights[c.Idx/len(weighted)%len(illegalWeights)]
	var elements []string
	others := map[string][]string{"Accept": {"text/plain", "image/png", "*/*", "text/*", "application/json"}, "Accept-Language": {"fr", "de", "en-US", "*"},
		"Accept-Charset": {"us-ascii", "iso-8859-1", "*"}, "Accept-Encoding": {"gzip", "deflate", "identity", "*"}}[dim.header]
	for _, v := range shuffled(r, others)[:r.Intn(len(others))] {
		if v != dim.a && v != dim.b {
			elements = append(elements, v+";q="+pickOf(r, "0.5", "1", "0.001"))
		}
	}
	culprit := pickOf(r, dim.a, dim.b, others[len(others)-1])
	if r.Intn(100) == 0 {
		for i, n := 0, pickOf(r, 9, 16, 17, 33, 65, 101, 129, 257); i < n; i++ {
			switch dim.header {
			case "Accept":
				elements = append(elements, fmt.Sprintf("text/x-pad%d;q=0.5", i))
			case "Accept-Language":
				elements = append(elements, fmt.Sprintf("fr-x-p%d;q=0.5", i))
			default:
				elements = append(elements, fmt.Sprintf("x-pad%d;q=0.5", i))
			}
		}
		c.Count("refused-in-a-crowd")
	}
	elements = append(elements, culprit+pickOf(r, ";q=", "; q=", ";Q=")+bad)
	for i, e := range elements {
		if i != len(elements)-1 && strings.HasPrefix(e, culprit+";") {
			elements[i] = elements[0]
		}
	}
	elements = shuffled(r, elements)
	h := http.Header{dim.header: elements}
	if r.Bool() {
		h[dim.header] = []string{strings.Join(elements, ", ")}
	}
	var neg negotiator.Negotiator = proactive.Default
	if dim.transparent {
		h["Negotiate"] = []string{"*"}
		neg = transparent.Default
	} else if r.Bool() {
		neg = proactive.New(proactive.DisableStrictMode())
	}
	reps := []*Rep{weightedRep(0, dim.header, dim.a, 20), weightedRep(1, dim.header, dim.b, 20)}
	preset := appHeaders(r)
	rec := NewRecorder()
	rec.H = preset.Clone()
	o := negotiateOn(neg, rec, ambient(r, newRequest(resourceURL, h)), r.Bool(), asReps(reps))
	c.Eval(1)
	c.Nontrivial(headerString(h), fmt.Sprint(dim.transparent))
	describe(c, h, reps)
	switch {
	case o.Panic != nil:
		c.Fail("%s", o.Short())
	case o.Err == nil:
		c.Fail("the weight %q isn't refused: %s", bad, o.Short())
	default:
		c.Count("refused")
		if err := o.nothingAnswered(preset); err != nil {
			c.Fail("the weight %q is refused, but %v", bad, err)
		}
	}
}

// ---------------------------------------------------------------------------
// C24.

// script is what a scripted algorithm answers.
type script struct {
	kind string // "offered", "foreign", "none" or "error".
	idx  int
	rep  *Rep
	err  error
}

func genScript(r *Rand, id int) script {
	return script{kind: pickOf(r, "offered", "offered", "foreign", "none", "error"), idx: r.Intn(1 << 20),
		rep: &Rep{ID: id, CT: pickOf(r, "x/y", "text/html", ""), Lang: pickOf(r, "", "xx"), SQ: pickOf(r, 0, 1000), Enc: pickOf(r, nil, []string{"br"}), Body: uniqueBody(id, 15),
			Loc: *mustURL("http://example.com/r/foreign")}, err: fmt.Errorf("refusal %d", id)}
}

func (s script) answer(reps []representation.Representation) (representation.Representation, error) {
	switch s.kind {
	case "offered":
		if len(reps) == 0 {
			return nil, nil
		}
		return reps[s.idx%len(reps)], nil
	case "foreign":
		return s.rep, nil
	case "error":
		return nil, s.err
	}
	return nil, nil
}

func (s script) String() string { return fmt.Sprintf("%s(%d)", s.kind, s.idx) }

// consultation is a recorded call of an algorithm.
type consultation struct {
	req  string
	same bool // the request itself.
	reps []representation.Representation
}

func sameReps(a, b []representation.Representation) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// recordingList is a list constructor that records what it is given.
type recordingList struct {
	list  *Rep
	calls [][]representation.Representation
}

func newRecordingList(r *Rand, id int) *recordingList {
	return &recordingList{list: &Rep{ID: id, CT: pickOf(r, "application/x-list", "application/json"), Lang: "en", Charset: "us-ascii", SQ: 1000, Body: uniqueBody(id, 30)}}
}

func (l *recordingList) construct(reps ...representation.Representation) representation.Representation {
	l.calls = append(l.calls, append([]representation.Representation{}, reps...))
	return l.list
}

func (l *recordingList) check(offered []representation.Representation) error {
	for _, c := range l.calls {
		if !sameReps(c, offered) {
			return fmt.Errorf("a list constructor got %s, want %s", joinReps(c), joinReps(offered))
		}
	}
	return nil
}

func forbiddenList(c *Case, what string) representation.ListConstructor {
	return func(reps ...representation.Representation) representation.Representation {
		c.Fail("%s is used", what)
		return &Rep{}
	}
}

func c24Proactive(c *Case) {
	r := c.R
	g := newGen(r)
	offers := g.reps(offerSize(r, r.Range(1, 5)))
	for _, o := range offers {
		if r.P(20) {
			o.SQ = 0
		}
	}
	q := g.req(pickOf(r, 0, 30, 70))
	if r.P(25) {
		q.Accept = []MRange{{Media{T: "video", S: "mp4"}, 1000}}
	}
	relaxed := r.Intn(8)
	if r.Bool() {
		relaxed = 0
	}
	offered := asReps(offers)
	onOffer, onAgain, onLists := genScript(r, 100), genScript(r, 110), genScript(r, 120)
	if r.P(30) {
		onOffer.kind = "none"
	}
	var lists []*recordingList
	for k := r.Intn(4); k > 0; k-- {
		lists = append(lists, newRecordingList(r, 200+k))
	}
	fallback := newRecordingList(r, 300)
	isList := func(reps []representation.Representation) bool {
		if len(reps) == 0 {
			return true
		}
		rep, ok := reps[0].(*Rep)
		return ok && rep.ID >= 200
	}
	req := ambient(r, newRequest(resourceURL, q.Header(Style{R: r, Reorder: true})))
	req.Header["X-Other"] = []string{"kept"}
	if r.P(30) {
		req.Method = "PUT"
	}
	reqBefore := requestSnapshot(req)
	var seen []consultation
	var offerCalls int
	chooser := stubChooser{func(got *http.Request, reps []representation.Representation) (representation.Representation, error) {
		seen = append(seen, consultation{requestSnapshot(got), got == req, append([]representation.Representation{}, reps...)})
		if isList(reps) {
			return onLists.answer(reps)
		}
		offerCalls++
		if offerCalls > 1 {
			return onAgain.answer(reps)
		}
		return onOffer.answer(reps)
	}}
	var opts []proactive.Option
	if r.P(40) {
		c.Count("overridden")
		opts = append(opts, proactive.Algorithm(stubChooser{func(*http.Request, []representation.Representation) (representation.Representation, error) {
			c.Fail("an algorithm that was replaced by a later option is consulted")
			return nil, nil
		}}), proactive.Representations(forbiddenList(c, "a list constructor that was replaced by a later option")),
			proactive.DefaultRepresentation(forbiddenList(c, "a default list constructor that was replaced by a later option")))
		opts = shuffled(r, opts)
	}
	var last []proactive.Option
	var cons []representation.ListConstructor
	for _, l := range lists {
		cons = append(cons, l.construct)
	}
	last = append(last, proactive.Algorithm(chooser), proactive.Representations(cons...), proactive.DefaultRepresentation(fallback.construct))
	if relaxed&1 != 0 {
		last = append(last, proactive.DisableStrictAccept())
	}
	if relaxed&2 != 0 {
		last = append(last, proactive.DisableStrictAcceptLanguage())
	}
	if relaxed&4 != 0 {
		last = append(last, proactive.DisableStrictAcceptCharset())
	}
	opts = append(opts, shuffled(r, last)...)
	ua, ul, uc, ambiguous := unmatchedHeaders(q, offers)
	if ambiguous {
		c.Skip("several equally specific ranges match")
		return
	}
	forced := ua && relaxed&1 == 0 || ul && relaxed&2 == 0 || uc && relaxed&4 == 0
	creation := r.Bool()
	rec := NewRecorder()
	o := negotiateOn(proactive.New(opts...), rec, req, creation, offered)
	c.Eval(1)
	c.Desc("script: offer %v, again %v, lists %v; %d lists; relaxed %03b; unmatched %v %v %v", onOffer, onAgain, onLists, len(lists), relaxed, ua, ul, uc)
	describe(c, req.Header, offers)
	c.Nontrivial(onOffer.String(), onAgain.String(), onLists.String(), fmt.Sprint(relaxed, len(lists)), q.key(), offerKey(offers))
	if len(c.fails) > 0 {
		return
	}
	// what must have happened.
	var wantRep representation.Representation
	var wantErr error
	wantStatus := 200
	if creation {
		wantStatus = 201
	}
	i := 0
	next := func(what string, reps []representation.Representation) bool {
		if i >= len(seen) {
			c.Fail("the algorithm isn't consulted for %s", what)
			return false
		}
		if !sameReps(seen[i].reps, reps) {
			c.Fail("the algorithm is consulted for %s with %s, want %s", what, joinReps(seen[i].reps), joinReps(reps))
			return false
		}
		i++
		return true
	}
	if forced {
		c.Count("strict-406")
		// asking first and checking afterwards gives the same answers.
		if len(seen) > 0 && sameReps(seen[0].reps, offered) && onOffer.kind != "error" {
			i++
		}
	} else {
		if !next("the offer", offered) {
			return
		}
		if !seen[0].same && seen[0].req != reqBefore {
			c.Fail("the algorithm is consulted with the request %s, want %s", seen[0].req, reqBefore)
		}
		c.Count("pick:" + onOffer.kind)
		wantRep, wantErr = onOffer.answer(offered)
		if wantRep == nil && wantErr == nil && (ua || ul || uc) {
			// once more, without the headers that nothing matches.
			if !next("the offer without the headers that nothing matches", offered) {
				return
			}
			c.Count("asked-again")
			stripped := req.Clone(req.Context())
			for name, u := range map[string]bool{"Accept": ua, "Accept-Language": ul, "Accept-Charset": uc} {
				if u {
					delete(stripped.Header, name)
				}
			}
			if want := requestSnapshot(stripped); seen[i-1].req != want {
				c.Fail("the algorithm is consulted again with the request %s, want %s", seen[i-1].req, want)
			}
			wantRep, wantErr = onAgain.answer(offered)
		}
	}
	if wantRep == nil && wantErr == nil {
		wantStatus = 406
		var constructed []representation.Representation
		for _, l := range lists {
			constructed = append(constructed, l.list)
			if len(l.calls) == 0 {
				c.Fail("a configured list constructor isn't called")
			}
			if err := l.check(offered); err != nil {
				c.Fail("%v", err)
			}
		}
		if len(lists) == 0 {
			c.Count("no-lists")
			// the algorithm may be asked about no lists, or not.
			if i < len(seen) {
				next("no lists", nil)
				wantRep, wantErr = onLists.answer(nil)
			}
		} else {
			if !next("the lists", constructed) {
				return
			}
			c.Count("lists:" + onLists.kind)
			wantRep, wantErr = onLists.answer(constructed)
		}
		if wantRep == nil && wantErr == nil {
			if len(fallback.calls) == 0 {
				c.Fail("the default list constructor isn't called")
			}
			wantRep = fallback.list
		}
		if err := fallback.check(offered); err != nil {
			c.Fail("%v", err)
		}
	}
	if i != len(seen) {
		c.Fail("the algorithm is consulted %d times, want %d", len(seen), i)
	}
	c24Answer(c, o, wantStatus, wantRep, wantErr)
	c.Sample(map[string]any{"script": fmt.Sprint(onOffer, onAgain, onLists), "request": headerString(req.Header), "consultations": len(seen), "response": o.Short()})
}

func c24Answer(c *Case, o Outcome, wantStatus int, wantRep representation.Representation, wantErr error) {
	switch {
	case o.Panic != nil:
		c.Fail("%s\n%s", o.Short(), o.Stack)
	case wantErr != nil:
		if o.Err != wantErr {
			c.Fail("the error of the algorithm (%v) isn't returned: %s", wantErr, o.Short())
		} else if err := o.nothingAnswered(nil); err != nil {
			c.Fail("the algorithm failed, but %v", err)
		}
	case o.Err != nil:
		c.Fail("%s", o.Short())
	case o.StatusCode() != wantStatus:
		c.Fail("want status %d, but got %s", wantStatus, o.Short())
	default:
		b, err := wantRep.Bytes()
		must(err)
		if string(b) != string(o.Body) {
			c.Fail("%s has to be served, but the body is %.60q", wantRep, o.Body)
		} else if err := checkMeta(o, metaOf(wantRep, b, wantStatus < 300)); err != nil {
			c.Fail("%s has to be served, but %v", wantRep, err)
		}
	}
}

func c24Transparent(c *Case) {
	r := c.R
	q, offers := genTransparent(r)
	if len(offers) > 10 {
		offers = offers[:10]
	}
	q.Negotiate = genNegotiate(r)
	may, guess := mayChoose(q.Negotiate)
	s := genScript(r, 100)
	if s.kind == "foreign" {
		// what is served must be a neighbor.
		s.rep.Loc = *mustURL("http://example.com/r/foreign")
	}
	offered := asReps(offers)
	req := ambient(r, newRequest(resourceURL, q.Header(Style{R: r})))
	before := requestSnapshot(req)
	calls := 0
	chooser := stubChooser{func(got *http.Request, reps []representation.Representation) (representation.Representation, error) {
		calls++
		if !sameReps(reps, offered) {
			c.Fail("the algorithm is consulted with %s, want %s", joinReps(reps), joinReps(offered))
		}
		if got != req && requestSnapshot(got) != before {
			c.Fail("the algorithm is consulted with another request")
		}
		return s.answer(reps)
	}}
	list := newRecordingList(r, 300)
	var opts []transparent.Option
	if r.P(40) {
		c.Count("overridden")
		opts = append(opts, transparent.RVSA(stubChooser{func(*http.Request, []representation.Representation) (representation.Representation, error) {
			c.Fail("an algorithm that was replaced by a later option is consulted")
			return nil, nil
		}}), transparent.ListRepresentation(forbiddenList(c, "a list constructor that was replaced by a later option")), transparent.MaximumVariantListSize(1), transparent.GuessSmallThreshold(0))
	}
	opts = append(opts, shuffled(r, []transparent.Option{transparent.RVSA(chooser), transparent.ListRepresentation(list.construct), transparent.MaximumVariantListSize(10), transparent.GuessSmallThreshold(1 << 20)})...)
	o := negotiateOn(transparent.New(opts...), NewRecorder(), req, false, offered)
	c.Eval(1)
	c.Desc("script %v", s)
	describe(c, req.Header, offers)
	c.Nontrivial(s.String(), q.key(), offerKey(offers))
	if len(c.fails) > 0 {
		return
	}
	wantStatus := 300
	var wantRep representation.Representation
	var wantErr error
	if may {
		if calls != 1 {
			c.Fail("the algorithm is consulted %d times", calls)
		}
		wantRep, wantErr = s.answer(offered)
		c.Count("pick:" + s.kind)
	}
	if wantRep != nil {
		wantStatus = 200
	} else if wantErr == nil {
		wantRep = list.list
		if len(list.calls) == 0 {
			c.Fail("the configured list constructor isn't called")
		}
	}
	_ = guess
	if err := list.check(offered); err != nil {
		c.Fail("%v", err)
	}
	if o.Err == nil {
		c.Count(fmt.Sprintf("transparent:%d", o.StatusCode()))
	}
	c24Answer(c, o, wantStatus, wantRep, wantErr)
}

func c24Reactive(c *Case) {
	r := c.R
	g := newGen(r)
	offers := g.reps(offerSize(r, r.Range(1, 20)))
	offered := asReps(offers)
	list := newRecordingList(r, 300)
	var opts []reactive.Option
	if r.P(40) {
		c.Count("overridden")
		opts = append(opts, reactive.Representation(forbiddenList(c, "a list constructor that was replaced by a later option")))
	}
	opts = append(opts, reactive.Representation(list.construct))
	h := g.req(50).Header(Style{R: r})
	o := negotiateOn(reactive.New(opts...), NewRecorder(), ambient(r, newRequest(resourceURL, h)), r.Bool(), offered)
	c.Eval(1)
	describe(c, h, offers)
	c.Nontrivial(headerString(h), offerKey(offers))
	if len(list.calls) == 0 {
		c.Fail("the configured list constructor isn't called")
	}
	if err := list.check(offered); err != nil {
		c.Fail("%v", err)
	}
	if o.Err == nil {
		c.Count(fmt.Sprintf("reactive:%d", o.StatusCode()))
	}
	c24Answer(c, o, 300, list.list, nil)
}

// ---------------------------------------------------------------------------
// C25.

func c25Run(c *Case, trans bool) {
	r := c.R
	kind := "proactive"
	var chooser representation.Chooser = proactive.ApacheHTTPD()
	var neg negotiator.Negotiator = proactive.Default
	var offers []*Rep
	var q Req
	if trans {
		kind = "transparent"
		chooser = transparent.RVSA1()
		neg = transparent.New(transparent.MaximumVariantListSize(1000))
		q, offers = genTransparent(r)
		q.Negotiate = []string{"*"}
	} else {
		g := newGen(r)
		g.FineSQ = r.P(25)
		q = g.req(pickOf(r, 30, 60, 90))
		offers = g.reps(g.offerSize())
		if g.FineSQ {
			c.Count("low-source-qualities")
		}
	}
	// more ties.
	for i := range offers {
		if i > 0 && r.P(20) {
			d := offers[r.Intn(i)].clone()
			d.ID = i
			d.Body = uniqueBody(i, len(d.Body))
			d.Loc = offers[i].Loc
			offers[i] = d
		}
	}
	// a crowd, which differs in nothing but its size.
	if r.P(2) {
		n := r.Range(25, 90)
		w := pick(r, offers)
		for i := len(offers); i < n; i++ {
			if r.P(5) {
				w = pick(r, offers)
			}
			d := w.clone()
			d.ID = i
			d.Body = uniqueBody(i, r.Range(8, 8+n))
			offers = append(offers, d)
		}
		c.Count("crowded")
	}
	h := q.Header(Style{R: r})
	failed := false
	choose := func(reps []*Rep) *Rep {
		got, err := chooser.Choose(ambient(r, newRequest(resourceURL, h)), asReps(reps)...)
		c.Eval(1)
		if err != nil {
			failed = true
			c.Fail("the algorithm failed: %v", err)
			return nil
		}
		rep, _ := got.(*Rep)
		return rep
	}
	x := choose(offers)
	if failed {
		return
	}
	if x == nil {
		c.Count("nothing-chosen")
		return
	}
	tied := map[*Rep]bool{}
	for _, w := range offers {
		// whoever is as good wins, or is picked and then found to be indefinite,
		// when it is offered first.
		if w != x && choose([]*Rep{w, x}) != x {
			tied[w] = true
			c.Count("tied")
		}
	}
	describe(c, h, offers)
	c.Desc("chosen: #%d", x.ID)
	unacceptable := func(id int) *Rep {
		var w *Rep
		for k := 0; k < 30; k++ {
			g := newGen(r)
			g.Features = trans
			w = g.rep(id)
			if trans && r.Bool() {
				w.SQ = 0
				return w
			}
			if kq := rate(q, w); !kq.ambiguous && !(kq.t > 0 && kq.l > 0 && kq.c > 0 && (kq.e > 0 || trans)) {
				return w
			}
		}
		return nil
	}
	for round := 0; round < 4; round++ {
		changed := append([]*Rep{}, offers...)
		var ops []string
		if r.P(50) {
			var kept []*Rep
			for _, w := range changed {
				if w == x || r.P(60) {
					kept = append(kept, w)
				}
			}
			if len(kept) != len(changed) {
				ops = append(ops, "removed")
			}
			changed = kept
		}
		if r.P(50) && len(changed) > 1 {
			changed = shuffled(r, changed)
			// what ties with the chosen one stays behind it.
			var at []int
			var class []*Rep
			for _, w := range offers {
				for i, v := range changed {
					if v == w && (w == x || tied[w]) {
						at = append(at, i)
						class = append(class, w)
					}
				}
			}
			sort.Ints(at)
			for i, p := range at {
				changed[p] = class[i]
			}
			ops = append(ops, "permuted")
		}
		insert := func(w *Rep, at int) {
			changed = append(changed[:at:at], append([]*Rep{w}, changed[at:]...)...)
		}
		if r.P(50) {
			for k := r.Range(1, 3); k > 0; k-- {
				if w := unacceptable(500 + k); w != nil {
					insert(w, r.Intn(len(changed)+1))
					ops = append(ops, "inserted")
				}
			}
		}
		if r.P(50) {
			for k := r.Range(1, 3); k > 0; k-- {
				w := pick(r, changed)
				d := w.clone()
				d.ID = 600 + k
				d.Body = uniqueBody(d.ID, len(w.Body))
				at := r.Intn(len(changed) + 1)
				if len(d.Body) != len(w.Body) {
					continue
				}
				// duplicates of what ties with the chosen one stay behind it.
				pos := 0
				for i, v := range changed {
					if v == x {
						pos = i
					}
				}
				if w == x || tied[w] {
					at = pos + 1 + r.Intn(len(changed)-pos)
					tied[d] = true
				}
				insert(d, at)
				ops = append(ops, "duplicated")
			}
		}
		if len(ops) == 0 {
			continue
		}
		for _, op := range ops {
			c.Count(kind + ":" + op)
		}
		c.Nontrivial(q.key(), offerKey(changed))
		var got *Rep
		if r.Bool() {
			got = choose(changed)
		} else {
			c.Count("negotiated")
			o := negotiate(neg, ambient(r, newRequest(resourceURL, h)), changed)
			c.Eval(1)
			if o.StatusCode() == 200 {
				for _, w := range changed {
					if string(w.Body) == string(o.Body) {
						got = w
					}
				}
			}
		}
		if failed {
			return
		}
		if got != x {
			for _, w := range changed {
				c.Desc("changed offer: %s", w)
			}
			c.Fail("after losers were %s, %v is chosen instead of %v", strings.Join(ops, ", "), got, x)
			return
		}
		c.Sample(map[string]any{"kind": kind, "request": headerString(h), "offered": len(offers), "changed_to": len(changed), "ops": ops, "chosen": x.ID})
	}
}

// ---------------------------------------------------------------------------
// C26.

func genRanked(r *Rand, n, keys int) []representation.RankedRepresentation {
	out := make([]representation.RankedRepresentation, n)
	for i := range out {
		out[i] = representation.RankedRepresentation{
			Representation:     &Rep{ID: i},
			SourceQualityValue: float32(r.Intn(keys)), MediaTypeQualityValue: float32(r.Intn(keys)), CharsetQualityValue: float32(r.Intn(keys)), LanguageQualityValue: float32(r.Intn(keys)),
			EncodingQualityValue: float32(r.Intn(keys)), FeatureQualityValue: float32(r.Intn(keys)), IsDefinite: r.Bool(), LanguageOrderScore: r.Intn(keys),
		}
	}
	return out
}

func sameRanked(a, b []representation.RankedRepresentation) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func rankedKey(a []representation.RankedRepresentation) string {
	var b strings.Builder
	for _, v := range a {
		fmt.Fprintf(&b, "%d:%v:%d ", v.Representation.(*Rep).ID, v.SourceQualityValue, v.LanguageOrderScore)
	}
	return b.String()
}

func c26Run(c *Case, n, steps int) {
	r := c.R
	keys := pickOf(r, 1, 2, 3, 10, 1000)
	model := genRanked(r, n, keys)
	buf := append(make([]representation.RankedRepresentation, 0, n+3), model...)
	sentinel := representation.RankedRepresentation{LanguageOrderScore: -77}
	for i := n; i < cap(buf); i++ {
		buf[:cap(buf)][i] = sentinel
	}
	set := representation.Set(buf)
	var trace []string
	consistent := func(what string, s representation.Set, want []representation.RankedRepresentation) bool {
		if !sameRanked(s, want) || !sameRanked(s.AsSlice(), want) {
			for _, t := range trace {
				c.Desc("%s", t)
			}
			c.Fail("%s: the set has %s, want %s", what, short(rankedKey(s.AsSlice()), 400), short(rankedKey(want), 400))
			return false
		}
		if s.Size() != len(want) || s.Empty() != (len(want) == 0) {
			c.Fail("%s: size %d, empty %v, but there are %d elements", what, s.Size(), s.Empty(), len(want))
			return false
		}
		if len(want) > 0 && s.First() != want[0] {
			c.Fail("%s: the first element is %v, want %v", what, s.First(), want[0])
			return false
		}
		return true
	}
	if !consistent("at first", set, model) {
		return
	}
	// sets that were filtered, and the results that weren't used: what happens
	// to other sets doesn't change them.
	type pair struct {
		set   representation.Set
		model []representation.RankedRepresentation
	}
	var others []pair
	unaffected := func() bool {
		for _, o := range others {
			if !consistent("another set afterwards", o.set, o.model) {
				return false
			}
		}
		return true
	}
	for k := 0; k < steps; k++ {
		c.Eval(1)
		if len(model) == 0 {
			c.Count("empty")
		}
		if len(model) > 1 {
			c.Nontrivial(rankedKey(model), strconv.Itoa(k))
		}
		if r.P(60) {
			c.Count("sort")
			f := r.Intn(5)
			less := func(a, b representation.RankedRepresentation) bool {
				switch f {
				case 0:
					return a.SourceQualityValue > b.SourceQualityValue
				case 1:
					return a.LanguageOrderScore > b.LanguageOrderScore
				case 2:
					return a.EncodingQualityValue < b.EncodingQualityValue
				case 3:
					return a.SourceQualityValue*a.MediaTypeQualityValue > b.SourceQualityValue*b.MediaTypeQualityValue
				}
				return !a.IsDefinite && b.IsDefinite
			}
			trace = append(trace, fmt.Sprintf("sorted by %d", f))
			s := set
			s.Sort(func(i, j int) bool { return less(s[i], s[j]) })
			// the model sorts by insertion, which is stable.
			var sorted []representation.RankedRepresentation
			for _, v := range model {
				at := sort.Search(len(sorted), func(i int) bool { return less(v, sorted[i]) })
				if at > 0 && !less(sorted[at-1], v) && !less(v, sorted[at-1]) {
					c.Count("equal-keys")
				}
				sorted = append(sorted, v)
				copy(sorted[at+1:], sorted[at:])
				sorted[at] = v
			}
			model = sorted
			if !consistent("after sorting", set, model) || !unaffected() {
				return
			}
			continue
		}
		c.Count("where")
		mask, want := r.Intn(6), r.Intn(3)
		p := func(v representation.RankedRepresentation) bool {
			switch mask {
			case 0:
				return true
			case 1:
				return false
			case 2:
				return v.IsDefinite
			case 3:
				return v.Representation.(*Rep).ID%3 != want
			case 4:
				return v.LanguageOrderScore == want
			}
			return v.SourceQualityValue >= float32(want)
		}
		trace = append(trace, fmt.Sprintf("filtered by %d/%d", mask, want))
		before := append([]representation.RankedRepresentation{}, model...)
		got := set.Where(p)
		var matching []representation.RankedRepresentation
		for _, v := range model {
			if p(v) {
				matching = append(matching, v)
			}
		}
		switch len(matching) {
		case len(model):
			c.Count("all-match")
		case 0:
			c.Count("none-match")
		}
		if !consistent("filtered", got, matching) || !consistent("the original after filtering", set, before) {
			return
		}
		if len(others) > 3 {
			others = others[1:]
		}
		if r.P(60) && (len(matching) > 1 || k > steps/2) {
			others = append(others, pair{set, append([]representation.RankedRepresentation{}, model...)})
			set, model = got, matching
		} else {
			others = append(others, pair{got, append([]representation.RankedRepresentation{}, matching...)})
		}
	}
	for _, v := range buf[n:cap(buf)] {
		if v != sentinel {
			c.Fail("something was written behind the set")
		}
	}
	if !representation.EmptySet.Empty() || representation.EmptySet.Size() != 0 {
		c.Fail("the empty set isn't empty")
	}
	c.Sample(map[string]any{"elements": n, "operations": trace})
}

func c26Sequence(c *Case) { c26Run(c, c.R.Range(0, 40), c.R.Range(2, 12)) }
func c26Large(c *Case) {
	c.Count("large")
	c26Run(c, c.R.Range(200, 2000), c.R.Range(2, 5))
}
