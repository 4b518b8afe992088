package main

import (
	"errors"
	"fmt"
	"math"
	"net/http"
	"net/url"
	"regexp"
	"strconv"
	"strings"

	"github.com/freerware/negotiator"
	"github.com/freerware/negotiator/reactive"
	"github.com/freerware/negotiator/representation"
	"github.com/freerware/negotiator/transparent"
)

var reactiveDefault negotiator.Negotiator = reactive.Default

func init() {
	register(&Property{
		ID:   "C09",
		More: 8,
		Rule: "Negotiate directives, URL pairs, body sizes around the guess-small boundary, offer sizes around the maximum and algorithm verdicts combined at random; " +
			"the decision between choice, list and error is compared with a model. Non-trivial: distinct by the tuple of conditions and URL pair.",
		Subs: []Sub{
			{Name: "decision", Quick: 40000, Thorough: 800000, Run: c09Decision},
			{Name: "neighbors", Quick: 40000, Thorough: 800000, Run: c09Neighbors},
			{Name: "boundaries", Quick: 6000, Thorough: 100000, Run: c09Boundaries},
		},
		MinEvents: []string{"choice", "list:directive", "list:algorithm", "list:neighbor", "list:guess-small", "error:maximum", "size:at-threshold", "size:above-threshold", "neighbor:yes", "neighbor:no"},
	})
	register(&Property{
		ID: "C10",
		Rule: "random and tie-biased variant lists and requests given to the default remote variant selection algorithm, directly and through Negotiate; the variant picked is compared with an exact " +
			"model of the scores. Non-trivial: at least two variants have a positive score; distinct by request and list.",
		Subs: []Sub{
			{Name: "algorithm", Quick: 60000, Thorough: 1500000, Run: c10Algorithm},
			{Name: "negotiate", Quick: 15000, Thorough: 300000, Run: c10Negotiate},
			{Name: "precision", Quick: 15000, Thorough: 300000, Run: c10Precision},
		},
		MinEvents: []string{"picked:score", "picked:first-offered", "picked:zero", "picked:indefinite"},
	})
	register(&Property{
		ID:   "C11",
		More: 6,
		Rule: "feature lists of predicates, ranges, bags and factors against consistent Accept-Features headers; the quality the algorithm derives is bracketed by probe variants " +
			"with source qualities around the value of an independent evaluator. Non-trivial: distinct by feature list and header.",
		Subs: []Sub{
			{Name: "lists", Quick: 50000, Thorough: 900000, Run: c11Lists},
			{Name: "predicates", Quick: 30000, Thorough: 400000, Run: c11Predicates},
			{Name: "order", Quick: 8000, Thorough: 100000, Run: c11Order},
		},
		MinEvents: []string{"holds:", "holds:!", "holds:=", "holds:!=", "holds:range", "fails:", "fails:!", "fails:=", "fails:!=", "fails:range", "bag:holds", "bag:fails", "factor:default-1", "quality:zero", "quality:perfect", "quality:degraded"},
	})
	register(&Property{
		ID:   "C12",
		More: 6,
		Rule: "variant lists of every size up to the maximum with arbitrary metadata; the Alternates header of every 200 and 300 is parsed by an independent parser and compared with the variants, " +
			"together with TCN and the metadata headers. Non-trivial: at least two variants; distinct by list and kind of response.",
		Subs: []Sub{
			{Name: "describe", Quick: 40000, Thorough: 800000, Run: c12Describe},
		},
		MinEvents: []string{"response:200", "response:300", "features-described", "size:10", "size:1", "tagged-url"},
	})
}

func genNegotiate(r *Rand) []string {
	switch r.Intn(8) {
	case 0:
		return nil
	case 1:
		return []string{"trans"}
	case 2:
		return []string{"trans", "1.0"}
	case 3:
		return []string{"guess-small"}
	case 4:
		return []string{"vlist", "*"}
	case 5:
		return shuffled(r, []string{"trans", "guess-small", pickOf(r, "*", "1.0", "vlist")})
	}
	pool := []string{"trans", "vlist", "1.0", "guess-small", "*", "2.0", "1.1", "x-ext", "10", "0.1",
		"11.0", "1.01", "1.10", "guess-smaller", "guess", "x-guess-small", "small"}
	return shuffled(r, pool)[:r.Range(1, 4)]
}

func mayChoose(dirs []string) (may, guess bool) {
	for _, d := range dirs {
		switch strings.ToLower(d) {
		case "*", "1.0":
			may = true
		case "guess-small":
			may, guess = true, true
		}
	}
	return
}

// stubChooser is a selection algorithm under control of the harness.
type stubChooser struct {
	f func(*http.Request, []representation.Representation) (representation.Representation, error)
}

func (s stubChooser) Choose(r *http.Request, reps ...representation.Representation) (representation.Representation, error) {
	return s.f(r, reps)
}

func pickingChooser(i int) stubChooser {
	return stubChooser{func(_ *http.Request, reps []representation.Representation) (representation.Representation, error) {
		if i < 0 {
			return nil, nil
		}
		return reps[i], nil
	}}
}

// fixedList is a list constructor whose list has a body of n bytes.
func fixedList(n int, calls *int) representation.ListConstructor {
	return func(reps ...representation.Representation) representation.Representation {
		if calls != nil {
			*calls++
		}
		return &Rep{ID: -1, CT: "application/x-list", Charset: "us-ascii", Lang: "en", Enc: []string{"identity"}, Body: []byte(strings.Repeat("L", n))}
	}
}

func mustURL(s string) *url.URL {
	u, err := url.Parse(s)
	must(err)
	return u
}

// neighborModel decides independently of net/url's resolution whether a variant
// location is a neighbor of the resource: it works on the components the URLs
// were generated from.
type urlParts struct {
	scheme, host, port, dir, file, query, frag string
}

func (u urlParts) String() string {
	s := u.scheme + "://" + u.host
	if u.port != "" {
		s += ":" + u.port
	}
	s += u.dir + u.file
	if u.query != "" {
		s += "?" + u.query
	}
	if u.frag != "" {
		s += "#" + u.frag
	}
	return s
}

func (u urlParts) effectivePort() string {
	if u.port != "" {
		return u.port
	}
	if strings.EqualFold(u.scheme, "https") {
		return "443"
	}
	return "80"
}

func (u urlParts) neighborOf(v urlParts) bool {
	dir := func(p urlParts) string {
		if p.dir == "" {
			return "/"
		}
		return p.dir
	}
	return strings.EqualFold(u.scheme, v.scheme) && strings.EqualFold(u.host, v.host) &&
		u.effectivePort() == v.effectivePort() && dir(u) == dir(v)
}

func genURLParts(r *Rand) urlParts {
	u := urlParts{scheme: pickOf(r, "http", "https"), host: pickOf(r, "example.com", "example.com", "www.example.com", "127.0.0.1", "[::1]"),
		port: pickOf(r, "", "", "80", "443", "8080"), dir: pickOf(r, "/", "/a/", "/a/b/", "/a/c/", "/A/", "/a%2Fb/", "/a%20b/"), file: pickOf(r, "", "x", "y.html", "z%2Fw", "q;v=1")}
	u.query = pickOf(r, "", "", "", "k=v", "k=a/b")
	return u
}

// mutateURL changes some components, sometimes into equivalent ones.
func mutateURL(r *Rand, u urlParts) urlParts {
	v := u
	v.file = pickOf(r, u.file, "other", "z.en.html", "a%2Fb", "")
	v.query = pickOf(r, "", "", "v=2", "v=a/b/c")
	v.frag = pickOf(r, "", "", "", "f/g")
	switch r.Intn(11) {
	case 0:
		v.scheme = pickOf(r, "http", "https")
	case 1:
		v.host = pickOf(r, "example.org", "www.example.com", "example.com", "example.com.org", "xample.com", "example.co", "127.0.0.10", "[::11]", "[::]", u.host+"m")
		if strings.HasPrefix(u.host, "[") && !strings.HasSuffix(v.host, "]") {
			v.host = "[::1:1]"
		}
	case 2:
		v.port = pickOf(r, "", "80", "443", "8080", "8081", "8", "808", "44", "4433")
	case 3:
		v.dir = pickOf(r, "/", "/a/", "/a/b/", "/a/c/", "/ab/", "/a/b/c/", "/a%2Fb/", "/a/bb/", "/a/b/b/", "/aa/", "/a//", "//", "//a/", "/a/b", "/a/b;x/", "/a/b//", "/"+strings.Trim(u.dir, "/")+"x/")
		if !strings.HasSuffix(v.dir, "/") {
			// a directory is what precedes the last slash.
			v.dir, v.file = "/a/", "b"
		}
	case 4:
		v.scheme, v.host = strings.ToUpper(v.scheme), strings.ToUpper(v.host)
	case 5:
		if v.port == "" {
			v.port = v.effectivePort()
		} else if v.port == "80" && v.scheme == "http" || v.port == "443" && v.scheme == "https" {
			v.port = ""
		}
	case 6:
		v.dir = u.dir + "deeper/"
	case 7:
		v.dir = strings.ToUpper(u.dir)
	}
	return v
}

func c09Neighbors(c *Case) {
	r := c.R
	res := genURLParts(r)
	loc := mutateURL(r, res)
	want := loc.neighborOf(res)
	locString := loc.String()
	how := "absolute"
	if r.P(12) {
		// the same location, with dot segments.
		how = "dotted"
		dotted := loc
		if dotted.dir == "" {
			dotted.dir = "/"
		}
		i := pickOf(r, 0, strings.LastIndex(strings.TrimSuffix(dotted.dir, "/"), "/"), len(dotted.dir)-1)
		if i < 0 {
			i = 0
		}
		dotted.dir = dotted.dir[:i] + pickOf(r, "/.", "/./.", "/q/..", "/a/..", "/q/r/../..", "/q/./..") + dotted.dir[i:]
		if !strings.Contains(loc.dir, "//") {
			locString = dotted.String()
		}
	}
	// relative locations.
	if r.P(35) {
		how = "relative"
		last := res.dir[strings.LastIndex(strings.TrimSuffix(res.dir, "/"), "/")+1:]
		switch r.Intn(13) {
		case 7:
			locString, want = pickOf(r, "./variant", "././v", ".", "./", "./?q=../x"), true
		case 8:
			locString, want = pickOf(r, "sub/../variant", "sub/..", "a/b/../../v", "./a/./../v?x=/"), true
		case 9:
			locString, want = pickOf(r, "..%2Fx", ".x", "..x", "...", "x..", "%2E%2E%2Fx"), true
		case 10:
			locString, want = pickOf(r, ".../x", "a/./x", "..x/y", "a/b/../v"), false
		case 11:
			locString, want = "../"+last+"variant", true
		case 12:
			locString, want = "../sub/variant", last == "sub/"
		case 0:
			locString, want = "variant.html", true
		case 1:
			locString, want = "", true
		case 2:
			locString, want = res.dir+"variant", true
		case 3:
			locString, want = "sub/variant", false
		case 4:
			locString, want = "//"+res.host+"/zzz/x", false
			if res.port != "" {
				locString = "//" + res.host + ":" + res.port + res.dir + "x"
				want = true
			}
		case 5:
			locString, want = "../variant", res.dir == "/"
		case 6:
			locString, want = "?v=a/b", true
		}
	}
	n := r.Range(1, 3)
	i := r.Intn(n)
	reps := make([]*Rep, n)
	for k := range reps {
		reps[k] = &Rep{ID: k, Media: &typePool[0], SQ: 1000, Body: uniqueBody(k, 20)}
		reps[k].Loc = *mustURL(res.String())
	}
	reps[i].Loc = *mustURL(locString)
	req := ambient(r, newRequest(res.String(), http.Header{"Negotiate": {"*"}}))
	if r.P(30) {
		how += " on a server"
		// what a server sees: the target has no authority.
		req.URL = mustURL(res.dir + res.file)
		req.URL.RawQuery = res.query
		req.Host = res.host
		if res.port != "" {
			req.Host += ":" + res.port
		}
		if strings.EqualFold(res.scheme, "https") {
			req.TLS = tlsState
		}
	}
	before := req.URL.String()
	neg := transparent.New(transparent.RVSA(pickingChooser(i)))
	o := negotiate(neg, req, reps)
	c.Eval(1)
	c.Desc("resource %s, variant location %q (%s)", res, locString, how)
	c.Nontrivial(res.String(), locString, how)
	wantStatus := 300
	if want {
		wantStatus = 200
		c.Count("neighbor:yes")
	} else {
		c.Count("neighbor:no")
		c.Count("list:neighbor")
	}
	if o.Panic != nil || o.Err != nil || o.StatusCode() != wantStatus {
		c.Fail("want %d, but got %s", wantStatus, o.Short())
	} else if want && o.Served() != i {
		c.Fail("variant #%d was picked, but got %s", i, o.Short())
	}
	if req.URL.String() != before {
		c.Fail("the request's URL changed from %s to %s", before, req.URL)
	}
	c.Sample(map[string]any{"resource": res.String(), "location": locString, "how": how, "status": o.StatusCode()})
}

func c09Decision(c *Case) {
	r := c.R
	dirs := genNegotiate(r)
	max := 10
	var opts []transparent.Option
	if r.P(40) {
		m := pickOf(r, -3, 0, 1, 2, 5, 12)
		opts = append(opts, transparent.MaximumVariantListSize(m))
		if m < 1 {
			m = 1
		}
		max = m
	}
	threshold := 50
	if r.P(50) {
		threshold = pickOf(r, -1, 0, 1, 10, 50, 500)
		opts = append(opts, transparent.GuessSmallThreshold(threshold))
	}
	n := pickOf(r, 1, 2, 3, max, max, max+1, max+5)
	res := genURLParts(r)
	reps := make([]*Rep, n)
	listLen := r.Range(40, 120)
	opts = append(opts, transparent.ListRepresentation(fixedList(listLen, nil)))
	i := r.Range(-1, n-1)
	if r.P(70) {
		i = r.Intn(n)
	}
	errChoose := r.P(4)
	var locs []urlParts
	for k := range reps {
		d := pickOf(r, -30, -1, 0, 1, threshold-1, threshold, threshold+1, threshold+40)
		reps[k] = &Rep{ID: k, Media: &typePool[r.Intn(3)], SQ: 1000, Body: uniqueBody(k, listLen+d)}
		l := res
		if r.P(25) {
			l = mutateURL(r, res)
		}
		l.file = "v" + strconv.Itoa(k)
		locs = append(locs, l)
		reps[k].Loc = *mustURL(l.String())
	}
	boom := errors.New("chooser failed")
	chooser := pickingChooser(i)
	if errChoose {
		chooser = stubChooser{func(*http.Request, []representation.Representation) (representation.Representation, error) {
			return nil, boom
		}}
	}
	opts = append(opts, transparent.RVSA(chooser))
	q := Req{Negotiate: dirs}
	h := q.Header(Style{R: r, Reorder: true})
	o := negotiate(transparent.New(shuffled(r, opts)...), ambient(r, newRequest(res.String(), h)), reps)
	c.Eval(1)

	may, guess := mayChoose(dirs)
	var want, why string
	switch {
	case n > max:
		want, why = "error", "maximum"
	case !may:
		want, why = "list", "directive"
	case errChoose:
		want, why = "error", "algorithm"
	case i < 0:
		want, why = "list", "algorithm"
	case guess && len(reps[i].Body) >= listLen && len(reps[i].Body)-listLen > threshold:
		want, why = "list", "guess-small"
	case !locs[i].neighborOf(res):
		want, why = "list", "neighbor"
	default:
		want, why = "choice", ""
	}
	c.Desc("Negotiate: %q, resource %s, picked #%d, list body %d bytes, threshold %d, maximum %d", h["Negotiate"], res, i, listLen, threshold, max)
	describe(c, h, reps)
	if why != "" {
		c.Count(want + ":" + why)
	} else {
		c.Count(want)
	}
	if guess && i >= 0 && may {
		switch d := len(reps[i].Body) - listLen; {
		case d == threshold:
			c.Count("size:at-threshold")
		case d == threshold+1:
			c.Count("size:above-threshold")
		}
	}
	c.Nontrivial(strings.Join(dirs, ","), want, why, fmt.Sprint(n, max, threshold, i, listLen), res.String())
	c.Sample(map[string]any{"negotiate": h["Negotiate"], "want": want + " " + why, "response": o.Short()})
	if o.Panic != nil {
		c.Fail("negotiation panicked: %v\n%s", o.Panic, o.Stack)
		return
	}
	switch want {
	case "error":
		if o.Err == nil {
			c.Fail("want an error (%s), but got %s", why, o.Short())
		} else if why == "maximum" && !errors.Is(o.Err, transparent.ErrVariantListSizeExceeded) {
			c.Fail("want ErrVariantListSizeExceeded, but got %v", o.Err)
		} else if err := o.nothingAnswered(nil); err != nil {
			c.Fail("refused, but %v", err)
		}
	case "list":
		if o.Err != nil || o.StatusCode() != 300 || string(o.Body) != strings.Repeat("L", listLen) {
			c.Fail("want the list (%s), but got %s", why, o.Short())
		}
	case "choice":
		if o.Err != nil || o.StatusCode() != 200 || o.Served() != i || len(o.Body) != len(reps[i].Body) {
			c.Fail("want variant #%d, but got %s", i, o.Short())
		}
	}
}

// c09Boundaries walks the exact boundaries of size and count with the defaults.
func c09Boundaries(c *Case) {
	r := c.R
	n := pickOf(r, 9, 10, 11, 1, 12)
	reps := make([]*Rep, n)
	for k := range reps {
		reps[k] = &Rep{ID: k, Media: &typePool[0], SQ: 1000, Body: uniqueBody(k, 20)}
		reps[k].Loc = *mustURL("http://example.com/r/v" + strconv.Itoa(k))
	}
	h := http.Header{"Negotiate": {"trans, guess-small"}, "Accept": {"text/html"}}
	if r.Bool() {
		h = http.Header{"Negotiate": {"guess-small", "1.0"}, "Accept": {"text/html"}}
	}
	if n > 10 {
		o := negotiate(transparent.Default, ambient(r, newRequest(resourceURL, h)), reps)
		c.Eval(1)
		c.Count("error:maximum")
		if !errors.Is(o.Err, transparent.ErrVariantListSizeExceeded) {
			c.Fail("%d variants: %s", n, o.Short())
		}
		return
	}
	// measure the default list: it's what the same request without
	// permission to choose is answered with.
	list := negotiate(transparent.Default, ambient(r, newRequest(resourceURL, http.Header{})), reps)
	if list.StatusCode() != 300 || len(list.Body) == 0 {
		c.Fail("no list response: %s", list.Short())
		return
	}
	d := pickOf(r, -1, 0, 1, 49, 50, 51, 52)
	reps[0].Body = uniqueBody(0, len(list.Body)+d)
	o := negotiate(transparent.Default, ambient(r, newRequest(resourceURL, h)), reps)
	c.Eval(1)
	c.Nontrivial(fmt.Sprint(n, d, h))
	c.Desc("%d variants, list body %d bytes, choice body %d bytes", n, len(list.Body), len(reps[0].Body))
	want := 200
	if d > 50 {
		want = 300
		c.Count("list:guess-small")
	}
	if o.Err != nil || o.StatusCode() != want || (want == 200 && o.Served() != 0) {
		c.Fail("want %d, but got %s", want, o.Short())
	}
}

// ---------------------------------------------------------------------------

func genTransparent(r *Rand) (Req, []*Rep) {
	g := newGen(r)
	g.Enc = false
	g.Features = r.P(60)
	// fewer wildcards and absences, which make every score indefinite.
	g.Undeclared = pickOf(r, 0, 20, 60)
	n := r.Range(1, 6)
	if r.P(12) {
		n = offerSize(r, r.Range(13, 30))
	}
	reps := g.reps(n)
	req := g.req(pickOf(r, 70, 95, 100))
	req.Enc = nil
	if r.P(90) {
		req.Feat = genFeatures(r)
	}
	// let the declared dimensions be mentioned.
	if r.P(60) {
		var accept []MRange
		for _, m := range req.Accept {
			if m.T != "*" && m.S != "*" {
				accept = append(accept, m)
			}
		}
		req.Accept = accept
		strip := func(ts []TRange) (out []TRange) {
			for _, t := range ts {
				if t.Name != "*" {
					out = append(out, t)
				}
			}
			return
		}
		req.Lang, req.Charset = strip(req.Lang), strip(req.Charset)
	}
	return req, reps
}

func c10Judge(c *Case, req Req, reps []*Rep) {
	want := rvsaChoose(req, reps)
	if want.ambiguous != "" {
		c.Skip(want.ambiguous)
		return
	}
	h := req.Header(Style{R: c.R, Reorder: true})
	describe(c, h, reps)
	got, err := transparent.RVSA1().Choose(ambient(c.R, newRequest(resourceURL, h)), asReps(reps)...)
	c.Eval(1)
	c.Count("picked:" + want.by)
	if want.by == "score" || want.by == "first-offered" {
		if len(reps) > 1 {
			c.Nontrivial(req.key(), offerKey(reps))
		}
	}
	if err != nil {
		c.Fail("the algorithm failed: %v", err)
		return
	}
	rep, _ := got.(*Rep)
	switch {
	case want.idx < 0 && got != nil:
		c.Fail("nothing should be picked (%s), but got %v", want.by, rep)
	case want.idx >= 0 && rep != reps[want.idx]:
		c.Fail("variant #%d should be picked (%s), but got %v", want.idx, want.by, rep)
	}
	c.Sample(map[string]any{"request": headerString(h), "offered": len(reps), "picked": want.idx, "by": want.by})
}

func c10Algorithm(c *Case) {
	req, reps := genTransparent(c.R)
	c10Judge(c, req, reps)
}

func c10Precision(c *Case) {
	r := c.R
	q := r.Range(100, 1000)
	req := Req{Accept: []MRange{{typePool[0], q}, {typePool[1], q - pickOf(r, 0, 0, 1)}}, Charset: []TRange{{"utf-8", pickOf(r, 1000, 500, 10)}, {"us-ascii", pickOf(r, 1000, 500, 10, 100)}}}
	var reps []*Rep
	for i, n := 0, r.Range(2, 5); i < n; i++ {
		reps = append(reps, &Rep{ID: i, SQ: pickOf(r, 1000, 900, 500, 1, 10, 100), Media: &typePool[r.Intn(2)], Charset: pickOf(r, "utf-8", "us-ascii", ""), Body: uniqueBody(i, 20)})
	}
	if r.P(40) {
		// a product that is too small by itself.
		c.Count("improved")
		req.Feat = []FExpr{{Tag: "tables"}}
		for i := range req.Charset {
			req.Charset[i].Q = pickOf(r, 1, 2, 3, 10, 37, 100)
		}
		for _, w := range reps {
			if w.Charset == "" {
				w.SQ = pickOf(r, 1, 3, 10)
			}
			if r.P(80) {
				w.FeatEls = []FElem{{Preds: []FPred{{Tag: "tables", Lo: -1, Hi: -1}}, Ti: pickOf(r, 90000, 30000, 15000, 10000, 33330, 500, 99990), Fd: -1}}
				w.Feat = renderFeatureList(r, w.FeatEls)
			}
		}
	}
	c10Judge(c, req, reps)
}

func c10Negotiate(c *Case) {
	req, reps := genTransparent(c.R)
	if len(reps) > 10 {
		reps = reps[:10]
	}
	req.Negotiate = []string{"trans", pickOf(c.R, "1.0", "*")}
	want := rvsaChoose(req, reps)
	if want.ambiguous != "" {
		c.Skip(want.ambiguous)
		return
	}
	h := req.Header(Style{R: c.R, Reorder: true})
	describe(c, h, reps)
	o := negotiate(transparent.Default, ambient(c.R, newRequest(resourceURL, h)), reps)
	c.Eval(1)
	c.Count("picked:" + want.by)
	c.Nontrivial(req.key(), offerKey(reps))
	switch {
	case o.Panic != nil || o.Err != nil:
		c.Fail("%s", o.Short())
	case want.idx < 0 && o.StatusCode() != 300:
		c.Fail("nothing should be picked (%s), but got %s", want.by, o.Short())
	case want.idx >= 0 && (o.StatusCode() != 200 || o.Served() != want.idx):
		c.Fail("variant #%d should be picked (%s), but got %s", want.idx, want.by, o.Short())
	}
}

// ---------------------------------------------------------------------------

// c11Bracket decides whether the algorithm derives the given quality from a
// feature list, by comparing the variant with probes of known score.
func c11Bracket(c *Case, els []FElem, exprs []FExpr) {
	r := c.R
	want := featureQuality(els, exprs)
	scale := 1000
	for want*float64(scale)/1000 > 0.95 {
		scale /= 2
	}
	score := want * float64(scale) / 1000
	target := &Rep{ID: 0, SQ: scale, FeatEls: els, Feat: renderFeatureList(r, els), Body: uniqueBody(0, 20)}
	h := Req{Feat: exprs}.Header(Style{R: r, Reorder: true})
	c.Desc("feature list %q, %s, expected quality %.5f", target.Feat, headerString(h), want)
	c.Nontrivial(strings.Join(target.Feat, ";"), headerString(h))
	switch {
	case want == 0:
		c.Count("quality:zero")
	case want == 1:
		c.Count("quality:perfect")
	default:
		c.Count("quality:degraded")
	}
	choose := func(probeSQ float64) (int, error) {
		probe := &Rep{ID: 1, Body: uniqueBody(1, 20)}
		pr := &probeRep{probe, float32(probeSQ)}
		reps := []representation.Representation{target, pr}
		if r.Bool() {
			reps = []representation.Representation{pr, target}
		}
		rep, err := transparent.RVSA1().Choose(ambient(r, newRequest(resourceURL, h)), reps...)
		c.Eval(1)
		switch {
		case err != nil:
			return -1, err
		case rep == representation.Representation(target):
			return 0, nil
		case rep == representation.Representation(pr):
			return 1, nil
		}
		return -1, nil
	}
	const delta = 0.0002
	if got, err := choose(score + delta); err != nil || got != 1 {
		c.Fail("the variant isn't worse than %.5f: picked %d, %v", score+delta, got, err)
	}
	if low := score - delta; low > 0 {
		if got, err := choose(low); err != nil || got != 0 {
			c.Fail("the variant isn't better than %.5f: picked %d, %v", low, got, err)
		}
	} else {
		got, err := transparent.RVSA1().Choose(ambient(r, newRequest(resourceURL, h)), target)
		c.Eval(1)
		if err != nil || (got != nil) != (math.Round(score*1e5) > 0) {
			c.Fail("the variant scores %.5f, but picked %v, %v", score, got, err)
		}
	}
	c.Sample(map[string]any{"features": target.Feat, "request": headerString(h), "quality": want})
}

// probeRep has an arbitrary source quality.
type probeRep struct {
	*Rep
	sq float32
}

func (p *probeRep) SourceQuality() float32 { return p.sq }

func c11Count(c *Case, els []FElem, exprs []FExpr) {
	m := featureStates(exprs)
	for _, e := range els {
		any := false
		for _, p := range e.Preds {
			if p.holds(m) {
				any = true
				c.Count("holds:" + p.Op)
			} else {
				c.Count("fails:" + p.Op)
			}
		}
		if e.Bag {
			if any {
				c.Count("bag:holds")
			} else {
				c.Count("bag:fails")
			}
		}
		if e.Ti >= 0 && e.Fd < 0 && !any {
			c.Count("factor:default-1")
		}
	}
}

func c11Lists(c *Case) {
	els := genFeatureList(c.R)
	exprs := genFeatures(c.R)
	if len(exprs) == 0 {
		c.Skip("no features")
		return
	}
	c11Count(c, els, exprs)
	c11Bracket(c, els, exprs)
}

// plainValue matches the values that a feature predicate can name.
var plainValue = regexp.MustCompile(`^[\w.-]+$`)

// c11Predicates evaluates single predicates with factors that reveal the result.
func c11Predicates(c *Case) {
	r := c.R
	exprs := genFeatures(r)
	if len(exprs) == 0 {
		exprs = []FExpr{{"", "tables", ""}}
	}
	p := genPred(r)
	e := pick(r, exprs)
	p.Tag = e.Tag
	if e.Val != "" && r.Bool() {
		if p.Op == "=" || p.Op == "!=" {
			if v := strings.Trim(e.Val, `"`); plainValue.MatchString(v) {
				p.Val = v
			}
		}
		if n, err := strconv.Atoi(strings.Trim(e.Val, `"`)); err == nil && p.Op == "range" {
			p.Lo, p.Hi = n+pickOf(r, -1, 0, 0, 1), -1
			if p.Lo < 0 {
				p.Lo = 0
			}
			if r.P(70) {
				p.Hi = n + pickOf(r, -1, 0, 0, 1)
				if p.Hi < 0 {
					p.Hi = 0
				}
				if r.P(30) {
					p.Lo = -1
				}
			}
		}
	}
	els := []FElem{{Preds: []FPred{p}, Ti: 8000, Fd: 5000}}
	c11Count(c, els, exprs)
	c11Bracket(c, els, exprs)
}

// c11Order checks that neither the order of elements nor of expressions matters.
func c11Order(c *Case) {
	r := c.R
	els := append(genFeatureList(r), genFeatureList(r)...)
	exprs := genFeatures(r)
	if len(exprs) == 0 {
		c.Skip("no features")
		return
	}
	c11Bracket(c, shuffled(r, els), shuffled(r, exprs))
}

// ---------------------------------------------------------------------------

// altItem is an item of an Alternates header.
type altItem struct {
	uri      string
	quality  string
	fallback bool
	attrs    map[string]string
	order    []string
}

// parseAlternates is an independent parser of the Alternates header.
func parseAlternates(s string) (items []altItem, err error) {
	i := 0
	ws := func() {
		for i < len(s) && (s[i] == ' ' || s[i] == '\t') {
			i++
		}
	}
	quoted := func() (string, error) {
		if i >= len(s) || s[i] != '"' {
			return "", fmt.Errorf("quoted string expected at %d", i)
		}
		j := i + 1
		for j < len(s) && s[j] != '"' {
			if s[j] == '\\' {
				j++
			}
			j++
		}
		if j >= len(s) {
			return "", errors.New("unterminated string")
		}
		v, err := strconv.Unquote(s[i : j+1])
		i = j + 1
		return v, err
	}
	for {
		ws()
		if i >= len(s) || s[i] != '{' {
			return nil, fmt.Errorf("{ expected at %d of %q", i, s)
		}
		i++
		ws()
		item := altItem{attrs: map[string]string{}}
		if item.uri, err = quoted(); err != nil {
			return nil, err
		}
		ws()
		if i < len(s) && s[i] == '}' {
			item.fallback = true
		} else {
			j := i
			for j < len(s) && s[j] != ' ' && s[j] != '{' {
				j++
			}
			item.quality = s[i:j]
			i = j
			for {
				ws()
				if i >= len(s) {
					return nil, errors.New("unterminated description")
				}
				if s[i] == '}' {
					break
				}
				if s[i] != '{' {
					return nil, fmt.Errorf("attribute expected at %d of %q", i, s)
				}
				j := strings.IndexByte(s[i:], '}')
				if j < 0 {
					return nil, errors.New("unterminated attribute")
				}
				attr := strings.TrimSpace(s[i+1 : i+j])
				i += j + 1
				name, value := attr, ""
				if k := strings.IndexAny(attr, " \t"); k >= 0 {
					name, value = attr[:k], strings.TrimSpace(attr[k:])
				}
				if _, dup := item.attrs[name]; dup {
					return nil, fmt.Errorf("attribute %s twice", name)
				}
				item.attrs[name] = value
				item.order = append(item.order, name)
			}
		}
		i++ // }
		items = append(items, item)
		ws()
		if i == len(s) {
			return items, nil
		}
		if s[i] != ',' {
			return nil, fmt.Errorf(", expected at %d of %q", i, s)
		}
		i++
	}
}

// longPath is nothing, usually.
func longPath(r *Rand) string {
	if r.Intn(150) != 0 {
		return ""
	}
	return strings.Repeat("long", pickOf(r, 16, 32, 64, 75, 128, 150, 300, 1100)) + "-"
}

func c12Describe(c *Case) {
	r := c.R
	n := r.Range(1, 10)
	if r.Intn(150) == 0 {
		n = r.Range(11, 40)
		if r.P(30) {
			n = pickOf(r, 64, 65, 100, 128, 129, 256, 257, 300)
		}
	}
	g := newGen(r)
	g.Features = r.P(60)
	reps := g.reps(n)
	for i, rep := range reps {
		rep.SQ = pickOf(r, 1000, 0, 1, 999, 500, 123, 50)
		l := fmt.Sprintf("http://example.com/r/%s%s%d", longPath(r), pickOf(r, "v", "a%20b", "x,y", "q;p=1-", "a%2Fb", "%7Eu", "\u00fc", "%25"), i)
		if r.P(10) {
			l += "?a=b,c&d=%22"
			c.Count("tagged-url")
		}
		if r.P(20) {
			l = pickOf(r, strings.TrimPrefix(l, "http://example.com/r/"), strings.TrimPrefix(l, "http://example.com"), strings.TrimPrefix(l, "http:"))
			c.Count("relative-location")
		}
		rep.Loc = *mustURL(l)
		if i > 0 && r.P(10) {
			// variants of a resource that negotiates itself.
			rep.Loc = reps[r.Intn(i)].Loc
			c.Count("same-location")
		}
		rep.Body = uniqueBody(i, r.Range(0, 400))
		if r.P(50) {
			rep.Body = varyBody(r, rep.Body)
		}
		if r.P(5) {
			rep.Body = []byte{}
			c.Count("empty-body")
		}
	}
	i := r.Range(-1, n-1)
	mayPick := i >= 0
	listLen := r.Range(1, 100)
	neg := transparent.New(transparent.RVSA(pickingChooser(i)), transparent.ListRepresentation(fixedList(listLen, nil)), transparent.MaximumVariantListSize(1000))
	h := http.Header{"Negotiate": {pickOf(r, "*", "1.0", "trans")}}
	if h["Negotiate"][0] == "trans" {
		mayPick = false
	}
	preset := http.Header{"X-App": {"1", "2"}, "Cache-Control": {"no-store"}}
	rec := NewRecorder()
	rec.H = preset.Clone()
	o := negotiateOn(neg, rec, ambient(r, newRequest(resourceURL, h)), false, asReps(reps))
	c.Eval(1)
	describe(c, h, reps)
	c.Count(fmt.Sprintf("response:%d", o.StatusCode()))
	c.Count(fmt.Sprintf("size:%d", n))
	if n > 1 {
		c.Nontrivial(offerKey(reps), fmt.Sprint(mayPick))
	}
	if o.Panic != nil || o.Err != nil {
		c.Fail("%s", o.Short())
		return
	}
	wantStatus := 300
	tcn := "list"
	if mayPick {
		wantStatus, tcn = 200, "choice"
	}
	if o.StatusCode() != wantStatus {
		c.Fail("want %d, but got %s", wantStatus, o.Short())
		return
	}
	if err := checkOrder(o); err != nil {
		c.Fail("%v", err)
	}
	for k, v := range preset {
		if strings.Join(o.Header[k], "|") != strings.Join(v, "|") {
			c.Fail("the application's header %s became %q", k, o.Header[k])
		}
	}
	if got := headerValues(o.Header, "TCN"); len(got) != 1 || got[0] != tcn {
		c.Fail("TCN is %q, want %s", got, tcn)
	}
	alts := headerValues(o.Header, "Alternates")
	if len(alts) != 1 {
		c.Fail("%d Alternates headers", len(alts))
		return
	}
	items, err := parseAlternates(alts[0])
	if err != nil {
		c.Fail("Alternates can't be parsed: %v in %q", err, alts[0])
		return
	}
	c.Sample(map[string]any{"status": o.StatusCode(), "variants": n, "alternates": alts[0]})
	wantItems := n
	if wantStatus == 300 {
		wantItems++
	}
	if len(items) != wantItems {
		c.Fail("Alternates has %d items, want %d: %q", len(items), wantItems, alts[0])
		return
	}
	for k, rep := range reps {
		it := items[k]
		q, err := strconv.ParseFloat(it.quality, 64)
		if it.fallback || err != nil || it.uri != rep.Loc.String() || math.Abs(q-float64(rep.SQ)/1000) > 0.0005 {
			c.Fail("item %d of Alternates is %q %q (fallback %v), but the variant is %v", k, it.uri, it.quality, it.fallback, rep)
			continue
		}
		want := map[string]string{"type": rep.ContentType(), "charset": rep.Charset, "language": rep.Lang,
			"length": strconv.Itoa(len(rep.Body)), "features": strings.Join(rep.Feat, " ")}
		if len(rep.Feat) > 0 {
			c.Count("features-described")
		}
		for name, v := range want {
			if it.attrs[name] != v {
				c.Fail("attribute %s of item %d of Alternates is %q, want %q", name, k, it.attrs[name], v)
			}
		}
	}
	if wantStatus == 300 {
		if f := items[n]; !f.fallback || f.uri != reps[0].Loc.String() {
			c.Fail("the fallback is %+v, want %s", f, reps[0].Loc.String())
		}
		if err := checkMeta(o, metaOf(fixedList(listLen, nil)(), make([]byte, listLen), false)); err != nil {
			c.Fail("list response: %v", err)
		}
		if string(o.Body) != strings.Repeat("L", listLen) {
			c.Fail("list response: body %q", o.Body)
		}
	} else {
		if err := checkMeta(o, metaOf(reps[i], reps[i].Body, true)); err != nil {
			c.Fail("choice response: %v", err)
		}
		if string(o.Body) != string(reps[i].Body) {
			c.Fail("choice response: body %q, want that of #%d", o.Body, i)
		}
	}
}

// headerValues finds a header ignoring the case of its name.
func headerValues(h http.Header, name string) (out []string) {
	for k, v := range h {
		if strings.EqualFold(k, name) {
			out = append(out, v...)
		}
	}
	return
}
