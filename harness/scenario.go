package main

import (
	"context"
	"crypto/tls"
	"fmt"
	"net/http"
	"strings"

	"github.com/freerware/negotiator"
	"github.com/freerware/negotiator/proactive"
	"github.com/freerware/negotiator/reactive"
	"github.com/freerware/negotiator/representation"
	"github.com/freerware/negotiator/transparent"
	"github.com/uber-go/tally"
	"go.uber.org/zap"
)

// config is a configuration of a negotiator, from which any number of equal
// negotiators can be built.
type config struct {
	kind    string
	def     bool // the package's default negotiator.
	relaxed int  // bits: Accept, Accept-Language, Accept-Charset.
	no406   bool
	lists   []string
	maxSize int
	small   int
	chooser representation.Chooser
	// wrap is applied to the list constructors, if set.
	wrap func(representation.ListConstructor) representation.ListConstructor
}

func (f config) String() string {
	return fmt.Sprintf("%s{default=%v relaxed=%03b no406=%v lists=%v max=%d small=%d}", f.kind, f.def, f.relaxed, f.no406, f.lists, f.maxSize, f.small)
}

func genConfig(r *Rand, kind string) config {
	f := config{kind: kind}
	if r.P(30) {
		f.def = true
		return f
	}
	f.relaxed = pickOf(r, 0, 0, 7, r.Intn(8))
	f.no406 = r.P(20)
	if r.P(50) {
		f.lists = shuffled(r, []string{"application/json", "application/xml", "application/yaml"})[:r.Range(1, 3)]
	}
	f.maxSize = pickOf(r, 10, 40, 40, 3)
	f.small = pickOf(r, 50, 0, 500)
	return f
}

func (f config) build(logger *zap.Logger, scope tally.Scope) negotiator.Negotiator {
	if f.def && logger == nil && scope == nil {
		return map[string]negotiator.Negotiator{"proactive": proactive.Default, "reactive": reactive.Default, "transparent": transparent.Default}[f.kind]
	}
	var cons []representation.ListConstructor
	for _, mt := range f.lists {
		l := listConstructor(mt, "en-US", 1)
		if f.wrap != nil {
			l = f.wrap(l)
		}
		cons = append(cons, l)
	}
	switch f.kind {
	case "proactive":
		var opts []proactive.Option
		if logger != nil {
			opts = append(opts, proactive.Logger(logger))
		}
		if scope != nil {
			opts = append(opts, proactive.Scope(scope))
		}
		if f.def {
			return proactive.New(opts...)
		}
		if f.relaxed&1 != 0 {
			opts = append(opts, proactive.DisableStrictAccept())
		}
		if f.relaxed&2 != 0 {
			opts = append(opts, proactive.DisableStrictAcceptLanguage())
		}
		if f.relaxed&4 != 0 {
			opts = append(opts, proactive.DisableStrictAcceptCharset())
		}
		if f.no406 {
			opts = append(opts, proactive.DisableNotAcceptableRepresentation())
		}
		if len(cons) > 0 {
			opts = append(opts, proactive.Representations(cons...), proactive.DefaultRepresentation(cons[len(cons)-1]))
		}
		if f.chooser != nil {
			opts = append(opts, proactive.Algorithm(f.chooser))
		}
		return proactive.New(opts...)
	case "reactive":
		var opts []reactive.Option
		if logger != nil {
			opts = append(opts, reactive.Logger(logger))
		}
		if scope != nil {
			opts = append(opts, reactive.Scope(scope))
		}
		if len(cons) > 0 {
			opts = append(opts, reactive.Representation(cons[0]))
		}
		return reactive.New(opts...)
	}
	var opts []transparent.Option
	if logger != nil {
		opts = append(opts, transparent.Logger(logger))
	}
	if scope != nil {
		opts = append(opts, transparent.Scope(scope))
	}
	if f.def {
		return transparent.New(opts...)
	}
	opts = append(opts, transparent.MaximumVariantListSize(f.maxSize), transparent.GuessSmallThreshold(f.small))
	if len(cons) > 0 {
		opts = append(opts, transparent.ListRepresentation(cons[0]))
	}
	if f.chooser != nil {
		opts = append(opts, transparent.RVSA(f.chooser))
	}
	return transparent.New(opts...)
}

// job is a negotiation that can be performed any number of times.
type job struct {
	kind     string
	h        http.Header
	target   string
	host     string
	tls      bool
	method   string
	creation bool
	preset   http.Header
	ctx      context.Context
}

func (j job) request() *http.Request {
	req := newRequest(j.target, j.h.Clone())
	req.Method = j.method
	if j.host != "" {
		req.Host = j.host
	}
	if j.tls {
		req.TLS = &tls.ConnectionState{}
	}
	if j.ctx != nil {
		req = req.WithContext(j.ctx)
	}
	return req
}

func (j job) perform(n negotiator.Negotiator, reps []representation.Representation) Outcome {
	rec := NewRecorder()
	rec.H = j.preset.Clone()
	return negotiateOn(n, rec, j.request(), j.creation, reps)
}

func (j job) key() string {
	return fmt.Sprintf("%s %s %v %s %s %v", j.kind, j.method, j.creation, j.target, j.host, j.tls) + headerString(j.h)
}

// goneContext is the context of a request whose client went away.
var goneContext = func() context.Context {
	ctx, cancel := context.WithCancel(context.Background())
	cancel()
	return ctx
}()

// genOffer generates an offer for a kind of negotiation with a function that
// generates requests for it.
func genOffer(r *Rand, kind string, max int) ([]*Rep, func() job) {
	var offers []*Rep
	g := newGen(r)
	if kind == "transparent" {
		_, offers = genTransparent(r)
	} else {
		g.AnyFeatures = true
		offers = g.reps(g.offerSize())
	}
	if len(offers) > max {
		offers = offers[:max]
	}
	return offers, func() job {
		var q Req
		if kind == "transparent" {
			q, _ = genTransparent(r)
			q.Negotiate = pickOf(r, genNegotiate(r), []string{"trans", "*"}, []string{"1.0"}, []string{"guess-small"})
		} else {
			q = g.req(pickOf(r, 30, 60, 95))
			if r.P(20) {
				// nothing is acceptable.
				q.Charset = []TRange{{"koi8-r", 1000}}
			}
		}
		j := job{kind: kind, h: q.Header(Style{R: r}), target: resourceURL, method: pickOf(r, "GET", "GET", pick(r, requestMethods)), creation: r.P(30), preset: appHeaders(r)}
		if r.P(10) {
			j.h = hostileHeader(r)
		}
		if r.P(25) {
			j.target, j.host, j.tls = "/r/index", pickOf(r, "example.com", "EXAMPLE.com:80", "other.example.com"), r.P(20)
		}
		if r.P(20) {
			j.h["Cookie"] = []string{"a=b"}
			j.h["X-Unrelated"] = []string{"1", "", "2,3"}
		}
		if r.P(6) {
			// the client went away.
			j.ctx = goneContext
		}
		return j
	}
}

// lengthened is the request with many elements in front of its own, that
// nothing on offer matches.
func (j job) lengthened(prefix map[string]string) job {
	h := j.h.Clone()
	for _, k := range twinHeaders {
		p := prefix[k]
		if v := h[k]; len(v) > 0 && len(v[0]) > 0 {
			v[0] = p + v[0]
		}
	}
	j.h = h
	return j
}

// longPrefix is what requests of one client can have in common.
func longPrefix(r *Rand) map[string]string {
	p := map[string]string{}
	for _, x := range [][2]string{
		{"Accept", "application/x-filler-%02d;version=1, "},
		{"Accept-Language", "qa%c-x-filler, "},
		{"Accept-Charset", "x-filler-%02d, "},
		{"Accept-Encoding", "x-filler-%02d, "},
		{"Accept-Features", "x-filler-%02d, "},
		{"Negotiate", "x-filler-%02d, "},
	} {
		k, element := x[0], x[1]
		var b strings.Builder
		for i, n := 0, r.Range(1, 12); i < n; i++ {
			if k == "Accept-Language" {
				fmt.Fprintf(&b, element, 'a'+i)
			} else {
				fmt.Fprintf(&b, element, i)
			}
		}
		p[k] = b.String()
	}
	return p
}

var twinHeaders = []string{"Accept", "Accept-Charset", "Accept-Encoding", "Accept-Features", "Accept-Language", "Negotiate"}

// twin is a request that is easily mistaken for this one: the same elements in
// another order or under another name, or other weights, and mostly of the
// same size.
func (j job) twin(r *Rand) job {
	h := j.h.Clone()
	j.h = h
	var have []string
	for _, k := range twinHeaders {
		if len(h[k]) > 0 {
			have = append(have, k)
		}
	}
	if len(have) == 0 {
		return j
	}
	k := pick(r, have)
	line := r.Intn(len(h[k]))
	v := []byte(h[k][line])
	switch r.Intn(7) {
	case 0, 1, 2:
		// other digits, the later ones preferably.
		var at []int
		for i, b := range v {
			if b >= '0' && b <= '9' {
				at = append(at, i)
			}
		}
		if len(at) == 0 {
			h[k][line] += ";q=0.1"
			return j
		}
		i := at[len(at)-1-r.Intn(min(len(at), 6))]
		if v[i] == '1' {
			v[i] = '0'
		} else if d := byte('0' + r.Intn(10)); i > 1 && v[i-1] == '.' {
			v[i] = d
		} else {
			v[i] = byte('0' + r.Intn(2))
		}
		h[k][line] = string(v)
	case 3, 4:
		// the elements the other way around.
		e := strings.Split(h[k][line], ",")
		for a, b := 0, len(e)-1; a < b; a, b = a+1, b-1 {
			e[a], e[b] = e[b], e[a]
		}
		h[k][line] = strings.Join(e, ",")
	case 5:
		// the same values under another name.
		other := pick(r, twinHeaders)
		h[k], h[other] = h[other], h[k]
		for _, x := range []string{k, other} {
			if h[x] == nil {
				delete(h, x)
			}
		}
	case 6:
		// one letter of the last element.
		for i := len(v) - 1; i >= 0; i-- {
			if v[i] >= 'a' && v[i] <= 'z' && r.P(40) && (v[i] != 'q' || i+1 < len(v) && v[i+1] != '=') {
				v[i] = 'a' + (v[i]-'a'+1)%26
				break
			}
		}
		h[k][line] = string(v)
	}
	return j
}

// requestSnapshot describes everything of a request that can be modified.
func requestSnapshot(req *http.Request) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s %s %v %v host=%q uri=%q remote=%q close=%v length=%d proto=%s url=%#v user=%v tls=%v form=%v post=%v trailer=%v te=%q body=%v ",
		req.Method, req.URL.String(), req.ProtoMajor, req.ProtoMinor, req.Host, req.RequestURI, req.RemoteAddr, req.Close, req.ContentLength, req.Proto,
		*req.URL, req.URL.User, req.TLS != nil, req.Form, req.PostForm, req.Trailer, req.TransferEncoding, req.Body == nil)
	b.WriteString(headerSig(req.Header))
	return b.String()
}

// spareHeader gives every list of values spare capacity with known contents.
func spareHeader(h http.Header) http.Header {
	out := http.Header{}
	for k, v := range h {
		s := make([]string, len(v), len(v)+3)
		copy(s, v)
		full := s[:cap(s)]
		for i := len(v); i < len(full); i++ {
			full[i] = "\x01spare"
		}
		out[k] = s
	}
	return out
}

// spareIntact checks the contents behind the values.
func spareIntact(h http.Header) error {
	for k, v := range h {
		for _, s := range v[len(v):cap(v)] {
			if s != "\x01spare" {
				return fmt.Errorf("%q was written behind the values of %s", s, k)
			}
		}
	}
	return nil
}
