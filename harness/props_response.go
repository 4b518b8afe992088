package main

import (
	"encoding/json"
	"encoding/xml"
	"errors"
	"fmt"
	"math"
	"net/http"
	"net/url"
	"strings"

	"github.com/freerware/negotiator"
	"github.com/freerware/negotiator/proactive"
	"github.com/freerware/negotiator/reactive"
	"github.com/freerware/negotiator/representation"
	"github.com/freerware/negotiator/transparent"
	"gopkg.in/yaml.v2"
)

func init() {
	register(&Property{
		ID:   "C06",
		More: 5,
		Rule: "representations with arbitrary metadata and bodies served by server-driven negotiation in both creation modes, with application headers set beforehand; every event at the response writer is checked. " +
			"Non-trivial: distinct by metadata, body and mode.",
		Subs: []Sub{
			{Name: "response", Quick: 40000, Thorough: 800000, Run: c06Response},
			{Name: "real-representations", Quick: 6000, Thorough: 100000, Run: c06Real},
		},
		MinEvents: []string{"status:200", "status:201", "empty-body", "binary-body", "large-body", "several-codings", "no-metadata"},
	})
	register(&Property{
		ID: "C07",
		Rule: "requests answered with lists by the three kinds of negotiation over offers of every size; the list is decoded by independent decoders (JSON, XML, YAML) and compared with the offer entry by entry, " +
			"and the format with the model's choice among the list formats. Non-trivial: at least two representations are listed; distinct by offer and format.",
		Subs: []Sub{
			{Name: "not-acceptable", Quick: 30000, Thorough: 600000, Run: c07NotAcceptable},
			{Name: "multiple-choices", Quick: 15000, Thorough: 300000, Run: c07MultipleChoices},
			{Name: "custom-formats", Quick: 15000, Thorough: 300000, Run: c07Custom},
			{Name: "disabled", Quick: 2000, Thorough: 30000, Run: c07Disabled},
		},
		MinEvents: []string{"format:application/json", "format:application/xml", "format:application/yaml", "format:fallback", "format:negotiated", "list:proactive", "list:reactive", "list:transparent", "disabled"},
	})
	register(&Property{
		ID:   "C08",
		More: 4,
		Rule: "arbitrary, malformed and absent headers, methods, creation modes, offers and list constructors given to user-agent-driven negotiation; the response is compared with the constructed list and across requests. " +
			"Non-trivial: the request carries a negotiation header; distinct by headers and offer.",
		Subs: []Sub{
			{Name: "list", Quick: 30000, Thorough: 600000, Run: c08List},
		},
		MinEvents: []string{"malformed-headers", "custom-constructor", "default-constructor", "large-offer"},
	})
	register(&Property{
		ID:   "C22",
		More: 20,
		Rule: "empty offers with arbitrary and malformed headers under arbitrary configurations of the three kinds of negotiation; algorithms and constructors record whether they were called. " +
			"Non-trivial: distinct by kind, configuration and headers.",
		Subs: []Sub{
			{Name: "empty", Quick: 20000, Thorough: 300000, Run: c22Empty},
		},
		MinEvents: []string{"kind:proactive", "kind:reactive", "kind:transparent", "malformed-headers"},
	})
}

func randBody(c *Case) []byte {
	r := c.R
	switch r.Intn(6) {
	case 0:
		c.Count("empty-body")
		return []byte{}
	case 1:
		c.Count("binary-body")
		b := make([]byte, r.Range(1, 300))
		for i := range b {
			b[i] = byte(r.U64())
		}
		return b
	case 2:
		if r.P(20) {
			c.Count("large-body")
			n := pickOf(r, r.Range(30000, 200000), r.Range(30000, 200000), 4096, 8192, 32768, 40000, 65536, 131072)
			if r.P(2) {
				n = pickOf(r, 1<<20, 1<<20+1, 3<<19, 2<<20+7, 5<<20)
			}
			b := make([]byte, n)
			for i := range b {
				b[i] = byte('a' + i%26)
			}
			return varyBody(r, b)
		}
	}
	return uniqueBody(r.Intn(100), r.Range(1, 100))
}

func appHeaders(r *Rand) http.Header {
	h := http.Header{}
	if r.P(60) {
		h["X-App"] = []string{"1", "2"}
	}
	if r.P(40) {
		h["Cache-Control"] = []string{"no-store"}
	}
	if r.P(40) {
		h["Set-Cookie"] = []string{"a=b", "c=d"}
	}
	if r.P(20) {
		h["Vary"] = []string{"Origin"}
	}
	return h
}

func checkPreserved(o Outcome, preset http.Header) error {
	for k, v := range preset {
		got := o.Header[k]
		if len(got) < len(v) || strings.Join(got[:len(v)], "\x00") != strings.Join(v, "\x00") {
			return fmt.Errorf("the application's header %s: %q became %q", k, v, got)
		}
	}
	return nil
}

func randLocation(r *Rand) url.URL {
	if l := longPath(r); l != "" {
		return *mustURL("http://example.com/" + l + "end?q=" + strings.Repeat("q", len(l)/8) + "#f")
	}
	return *mustURL(pickOf(r, "", "/relative", "http://example.com/a?b=c#d", "https://example.com/a%20b", "http://user@example.com:8080/x;y=z", "thing.en.html", "/a%2Fb/c", "//example.com/\u00fc", "?q=%2F", "#f"))
}

func c06Response(c *Case) {
	r := c.R
	n := r.Range(1, 4)
	reps := make([]*Rep, n)
	for i := range reps {
		rep := &Rep{ID: i, SQ: 1000 - 100*i}
		if r.P(80) {
			rep.CT = pickOf(r, "text/html", "application/json", "text/html;level=1", "Text/HTML; Charset=UTF-8", "application/vnd.x+json;version=\"1\"")
		}
		if r.P(70) {
			rep.Lang = pickOf(r, "en", "en-US", "de-CH-1996")
		}
		if r.P(70) {
			rep.Charset = pickOf(r, "utf-8", "UTF-8", "iso-8859-1")
		}
		if r.Intn(100) == 0 {
			c.Count("long-metadata")
			rep.CT = "application/x-" + strings.Repeat("t", pickOf(r, 50, 113, 114, 115, 116, 240, 300, 1100)) + pickOf(r, "", ";a="+strings.Repeat("v", r.Range(1, 600)))
			rep.Charset = "x-" + strings.Repeat("c", pickOf(r, 20, 39, 60, 130, 300))
			rep.Lang = "en-x-" + strings.Repeat("private-", r.Range(1, 40)) + "end"
		}
		if r.P(70) {
			rep.Enc = shuffled(r, []string{"gzip", "deflate", "identity", "compress", "gzip", "deflate", "identity", "x-gzip"})[:pickOf(r, 0, 1, 2, 3, 8)]
			for r.Intn(100) == 0 {
				rep.Enc = append(append(rep.Enc, rep.Enc...), "br", "gzip", "x-"+strings.Repeat("e", r.Intn(90)))
			}
			if len(rep.Enc) > 1 {
				c.Count("several-codings")
			}
		}
		if rep.CT == "" && rep.Lang == "" && rep.Charset == "" {
			c.Count("no-metadata")
		}
		rep.Loc = randLocation(r)
		rep.Body = randBody(c)
		reps[i] = rep
	}
	creation := r.Bool()
	preset := appHeaders(r)
	rec := NewRecorder()
	rec.H = preset.Clone()
	if rec.H == nil {
		rec.H = http.Header{}
	}
	// the one with the highest source quality wins, or the algorithm decides.
	var neg negotiator.Negotiator = proactive.Default
	win := 0
	if r.Bool() {
		win = r.Intn(n)
		neg = proactive.New(proactive.Algorithm(pickingChooser(win)))
	}
	o := negotiateOn(neg, rec, ambient(r, newRequest(resourceURL, http.Header{})), creation, asReps(reps))
	c.Eval(1)
	describe(c, http.Header{}, reps)
	c.Count(fmt.Sprintf("status:%d", o.StatusCode()))
	c.Nontrivial(reps[win].snapshot(), fmt.Sprint(creation))
	c06Check(c, o, reps[win], reps[win].Body, creation, preset)
	c.Sample(map[string]any{"representation": reps[win].String(), "creation": creation, "events": o.Events, "headers": headerSig(o.Header)})
}

func c06Check(c *Case, o Outcome, rep representation.Representation, body []byte, creation bool, preset http.Header) {
	if o.Panic != nil || o.Err != nil {
		c.Fail("%s", o.Short())
		return
	}
	want := 200
	if creation {
		want = 201
	}
	if o.StatusCode() != want {
		c.Fail("want status %d once, but got %v", want, o.Status)
		return
	}
	if string(o.Body) != string(body) {
		c.Fail("the body has %d bytes %.60q, want %d bytes %.60q", len(o.Body), o.Body, len(body), body)
	}
	if err := checkMeta(o, metaOf(rep, body, true)); err != nil {
		c.Fail("%v", err)
	}
	if err := checkOrder(o); err != nil {
		c.Fail("%v", err)
	}
	if err := checkPreserved(o, preset); err != nil {
		c.Fail("%v", err)
	}
}

// doc is an application representation built on representation.Base.
type doc struct {
	representation.Base `json:"-" xml:"-" yaml:"-"`

	XMLName xml.Name `json:"-" xml:"doc" yaml:"-"`
	Title   string   `json:"title" xml:"title" yaml:"title"`
	Lines   []string `json:"lines" xml:"lines" yaml:"lines"`
	N       int      `json:"n" xml:"n" yaml:"n"`
}

func (d doc) Bytes() ([]byte, error)    { return d.Base.Bytes(&d) }
func (d *doc) FromBytes(b []byte) error { return d.Base.FromBytes(b, d) }

// c06List serves a list as a representation.
func c06List(c *Case) {
	r := c.R
	l := &representation.List{}
	l.SetContentType(pickOf(r, "application/json", "application/xml", "application/yaml", "text/html", "text/yaml"))
	l.SetContentLanguage("en")
	l.SetContentCharset("utf-8")
	l.SetContentEncoding(shuffled(r, []string{"gzip", "identity", "deflate", "compress"})[:r.Range(0, 3)])
	l.SetContentLocation(randLocation(r))
	l.SetSourceQuality(1)
	l.SetRepresentations(asReps(genListed(r, r.Range(0, 6)))...)
	b, err := l.Bytes()
	if err != nil {
		c.Fail("serialization failed: %v", err)
		return
	}
	creation := r.Bool()
	var rep representation.Representation = l
	if r.P(30) {
		rep = byValue{l}
	}
	o := negotiateOn(proactive.Default, NewRecorder(), ambient(r, newRequest(resourceURL, http.Header{"Accept": {"*/*"}})), creation, []representation.Representation{rep})
	c.Eval(1)
	c.Count("list-served")
	c.Desc("list %+v", l)
	c.Nontrivial(string(b), fmt.Sprint(creation))
	c06Check(c, o, rep, b, creation, nil)
}

func c06Real(c *Case) {
	if c.R.P(20) {
		c06List(c)
		return
	}
	r := c.R
	d := &doc{Title: randText(r, 40), N: r.Range(-5, 5000)}
	for k := r.Intn(20); k > 0; k-- {
		d.Lines = append(d.Lines, randText(r, 60))
	}
	d.SetContentType(pickOf(r, "application/json", "application/xml", "application/yaml", "text/html"))
	d.SetContentLanguage("en")
	d.SetContentCharset("utf-8")
	codings := shuffled(r, []string{"gzip", "identity", "deflate", "compress"})[:r.Range(0, 3)]
	d.SetContentEncoding(codings)
	d.SetContentLocation(randLocation(r))
	d.SetSourceQuality(1)
	b, err := d.Bytes()
	if err != nil {
		c.Fail("serialization failed: %v", err)
		return
	}
	rec := NewRecorder()
	creation := r.Bool()
	o := negotiateOn(proactive.Default, rec, ambient(r, newRequest(resourceURL, http.Header{"Accept": {"*/*"}, "Accept-Language": {"en"}})), creation, []representation.Representation{d})
	c.Eval(1)
	c.Desc("document %+v", d)
	c.Nontrivial(string(b), fmt.Sprint(creation))
	c06Check(c, o, d, b, creation, nil)
}

func randText(r *Rand, max int) string {
	const alphabet = "abcdefghijklmnopqrstuvwxyz ABC 0123456789 -_.:;<>&'\"äß€"
	rs := []rune(alphabet)
	n := r.Intn(max + 1)
	var b strings.Builder
	b.WriteByte('t')
	for i := 0; i < n; i++ {
		b.WriteRune(rs[r.Intn(len(rs))])
	}
	b.WriteByte('.')
	return b.String()
}

// ---------------------------------------------------------------------------

// listEntry is an entry of a decoded list.
type listEntry struct {
	Type, Lang, Charset, Loc string
	Enc, Feat                []string
	SQ                       float64
}

func entryOf(r representation.Representation) listEntry {
	loc := r.ContentLocation()
	return listEntry{r.ContentType(), r.ContentLanguage(), r.ContentCharset(), loc.String(), r.ContentEncoding(), r.ContentFeatures(), float64(r.SourceQuality())}
}

func sameStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (e listEntry) equal(f listEntry) bool {
	return e.Type == f.Type && e.Lang == f.Lang && e.Charset == f.Charset && e.Loc == f.Loc &&
		sameStrings(e.Enc, f.Enc) && sameStrings(e.Feat, f.Feat) && math.Abs(e.SQ-f.SQ) < 1e-6
}

// decodeList decodes a list independently of the library's types.
func decodeList(mediaType string, body []byte) ([]listEntry, error) {
	str := func(m map[string]any, k string) string {
		for kk, v := range m {
			if strings.EqualFold(kk, k) {
				s, _ := v.(string)
				return s
			}
		}
		return ""
	}
	strs := func(m map[string]any, k string) (out []string) {
		for kk, v := range m {
			if strings.EqualFold(kk, k) {
				l, _ := v.([]any)
				for _, x := range l {
					s, _ := x.(string)
					out = append(out, s)
				}
			}
		}
		return
	}
	num := func(m map[string]any, k string) float64 {
		for kk, v := range m {
			if strings.EqualFold(kk, k) {
				switch n := v.(type) {
				case float64:
					return n
				case int:
					return float64(n)
				}
			}
		}
		return math.NaN()
	}
	entry := func(m map[string]any) listEntry {
		return listEntry{str(m, "contentType"), str(m, "contentLanguage"), str(m, "contentCharset"), str(m, "contentLocation"),
			strs(m, "contentEncoding"), strs(m, "contentFeatures"), num(m, "sourceQuality")}
	}
	switch mediaType {
	case "application/json":
		var top map[string]any
		if err := json.Unmarshal(body, &top); err != nil {
			return nil, err
		}
		raw, ok := top["representations"]
		if !ok {
			return nil, errors.New("no representations in the list")
		}
		l, _ := raw.([]any)
		var out []listEntry
		for _, x := range l {
			m, ok := x.(map[string]any)
			if !ok {
				return nil, fmt.Errorf("entry %v", x)
			}
			if _, ok := m["sourceQuality"]; !ok {
				return nil, fmt.Errorf("entry without source quality: %v", m)
			}
			out = append(out, entry(m))
		}
		return out, nil
	case "application/yaml":
		var top map[string]any
		if err := yaml.Unmarshal(body, &top); err != nil {
			return nil, err
		}
		for k, raw := range top {
			if !strings.EqualFold(k, "representations") {
				continue
			}
			l, _ := raw.([]any)
			var out []listEntry
			for _, x := range l {
				mm, ok := x.(map[any]any)
				if !ok {
					return nil, fmt.Errorf("entry %v", x)
				}
				m := map[string]any{}
				for kk, v := range mm {
					m[fmt.Sprint(kk)] = v
				}
				out = append(out, entry(m))
			}
			return out, nil
		}
		return nil, errors.New("no representations in the list")
	case "application/xml":
		type xmlEntry struct {
			ContentType     string   `xml:"ContentType"`
			ContentLanguage string   `xml:"ContentLanguage"`
			ContentEncoding []string `xml:"ContentEncoding"`
			ContentLocation string   `xml:"ContentLocation"`
			ContentCharset  string   `xml:"ContentCharset"`
			ContentFeatures []string `xml:"ContentFeatures"`
			SourceQuality   float64  `xml:"SourceQuality"`
		}
		var top struct {
			Representations []xmlEntry `xml:"Representations"`
		}
		if err := xml.Unmarshal(body, &top); err != nil {
			return nil, err
		}
		var out []listEntry
		for _, e := range top.Representations {
			out = append(out, listEntry{e.ContentType, e.ContentLanguage, e.ContentCharset, e.ContentLocation, e.ContentEncoding, e.ContentFeatures, e.SourceQuality})
		}
		return out, nil
	}
	return nil, fmt.Errorf("unknown list format %q", mediaType)
}

func checkList(mediaType string, body []byte, reps []*Rep) error {
	got, err := decodeList(mediaType, body)
	if err != nil {
		return fmt.Errorf("the list can't be decoded as %s: %v in %q", mediaType, err, body)
	}
	if len(got) != len(reps) {
		return fmt.Errorf("the list has %d entries, but %d representations were offered", len(got), len(reps))
	}
	for i, r := range reps {
		if want := entryOf(r); !got[i].equal(want) {
			return fmt.Errorf("entry %d of the list is %+v, want %+v", i, got[i], want)
		}
	}
	return nil
}

// byValue is a representation that isn't used by pointer.
type byValue struct{ representation.Representation }

// disguised has the metadata of the representations, in part as values of the
// library's types.
func disguised(c *Case, reps []*Rep) []representation.Representation {
	r := c.R
	out := asReps(reps)
	if !r.P(20) {
		return out
	}
	c.Count("other-types")
	for i, w := range reps {
		if r.Bool() {
			continue
		}
		set := func(s interface {
			SetContentType(string)
			SetContentLanguage(string)
			SetContentCharset(string)
			SetContentEncoding([]string)
			SetContentFeatures([]string)
			SetContentLocation(url.URL)
			SetSourceQuality(float32)
		}) {
			s.SetContentType(w.ContentType())
			s.SetContentLanguage(w.Lang)
			s.SetContentCharset(w.Charset)
			s.SetContentEncoding(w.Enc)
			s.SetContentFeatures(w.Feat)
			s.SetContentLocation(w.Loc)
			s.SetSourceQuality(w.SourceQuality())
		}
		switch r.Intn(4) {
		case 0:
			l := &representation.List{}
			if r.Bool() {
				l.SetRepresentations(asReps(reps)...)
			}
			set(l)
			out[i] = l
		case 1:
			d := &doc{Title: "t"}
			set(d)
			out[i] = d
		case 2:
			out[i] = byValue{w}
		case 3:
			out[i] = &byValue{w}
		}
	}
	return out
}

func genListed(r *Rand, n int) []*Rep {
	g := newGen(r)
	g.Features = r.P(60)
	g.AnyFeatures = true
	reps := g.reps(n)
	for i, rep := range reps {
		rep.Loc = *mustURL(fmt.Sprintf("http://example.com/r/%s%d%s", pickOf(r, "v", "a%20b", "x,y", "a%2Fb", "%7Eu", "\u00fc", "x/../y"), i, pickOf(r, "", "?a=b&c=d<e>", "?", "#f%20g", "?q=%2f+%20")))
		rep.SQ = pickOf(r, 1000, 0, 500, 123, 900)
		if r.P(20) && i > 0 {
			// an exact duplicate.
			d := reps[i-1].clone()
			d.ID = i
			reps[i] = d
		}
	}
	return reps
}

// defaultFormats are the formats of 406 lists, in order.
func defaultFormats() []*Rep {
	var out []*Rep
	for i, s := range []string{"json", "xml", "yaml"} {
		out = append(out, &Rep{ID: i, Media: &Media{T: "application", S: s}, Lang: "en-US", Charset: "ascii", Enc: []string{"identity"}, SQ: 1000})
	}
	return out
}

func c07NotAcceptable(c *Case) {
	r := c.R
	n := offerSize(r, r.Range(1, 8))
	reps := genListed(r, n)
	for _, rep := range reps {
		// nothing is acceptable.
		rep.Charset = "koi8-r"
	}
	g := &Gen{R: r, Types: typePool, Langs: langPool, Charsets: charsetPool, Zero: 15}
	var req Req
	req.Charset = []TRange{{"ascii", g.weight(15)}, {"koi8-r", 0}}
	if r.P(30) {
		req.Charset = req.Charset[1:]
		req.Charset = append(req.Charset, TRange{"*", g.weight(10)})
	}
	if r.P(85) {
		for _, i := range r.Perm(6)[:r.Range(1, 5)] {
			req.Accept = append(req.Accept, MRange{[]Media{{T: "application", S: "json"}, {T: "application", S: "xml"}, {T: "application", S: "yaml"},
				{T: "application", S: "*"}, {T: "*", S: "*"}, {T: "text", S: "html"}}[i], g.weight(20)})
		}
	}
	if r.P(40) {
		req.Lang = []TRange{{pickOf(r, "en-US", "en-US", "*", "de"), g.weight(10)}}
	}
	if r.P(40) {
		req.Enc = g.tokens(codingPool, 20)
	}
	c07Judge406(c, req, reps, proactive.Default, defaultFormats(), "application/json")
}

// c07Judge406 negotiates a request that nothing offered is acceptable for.
func c07Judge406(c *Case, req Req, reps []*Rep, neg negotiator.Negotiator, formats []*Rep, fallback string) {
	sized := make([]*Rep, len(formats))
	for i, f := range formats {
		s := f.clone()
		s.Media = f.Media
		// the size of the list in each format, measured by the constructors'
		// library type.
		l := representation.List{}
		l.SetContentType(f.Media.String())
		l.SetContentCharset(f.Charset)
		l.SetContentEncoding(f.Enc)
		l.SetContentLanguage(f.Lang)
		l.SetRepresentations(asReps(reps)...)
		b, err := l.Bytes()
		if err != nil {
			c.Fail("serialization of the list failed: %v", err)
			return
		}
		s.Body = b
		sized[i] = s
	}
	want := apacheChoose(req, sized)
	h := req.Header(Style{R: c.R, Reorder: true})
	o := negotiateOn(neg, NewRecorder(), ambient(c.R, newRequest(resourceURL, h)), false, disguised(c, reps))
	c.Eval(1)
	describe(c, h, reps)
	if o.Panic != nil || o.Err != nil || o.StatusCode() != 406 {
		c.Fail("want 406, but got %s", o.Short())
		return
	}
	format := o.Header.Get("Content-Type")
	c.Count("format:" + format)
	c.Count("list:proactive")
	if n := len(reps); n > 1 {
		c.Nontrivial(format, offerKey(reps))
	}
	if err := checkOrder(o); err != nil {
		c.Fail("%v", err)
	}
	if want.ambiguous != "" {
		c.Skip(want.ambiguous)
	} else {
		wantFormat := fallback
		if want.idx >= 0 {
			wantFormat = formats[want.idx].Media.String()
			c.Count("format:negotiated")
		} else {
			c.Count("format:fallback")
		}
		if format != wantFormat {
			c.Fail("the list's format is %q, want %q (%s)", format, wantFormat, want.by)
		}
	}
	meta := &Rep{CT: format, Lang: "en-US", Charset: "ascii", Enc: []string{"identity"}}
	if err := checkMeta(o, metaOf(meta, o.Body, false)); err != nil {
		c.Fail("%v", err)
	}
	if err := checkList(format, o.Body, reps); err != nil {
		c.Fail("%v", err)
	}
	c.Sample(map[string]any{"request": headerString(h), "format": format, "entries": len(reps), "bytes": len(o.Body)})
}

func listConstructor(mt, lang string, sq float32) representation.ListConstructor {
	return func(reps ...representation.Representation) representation.Representation {
		l := representation.List{}
		l.SetContentType(mt)
		l.SetContentCharset("ascii")
		l.SetContentEncoding([]string{"identity"})
		l.SetContentLanguage(lang)
		l.SetSourceQuality(sq)
		l.SetRepresentations(reps...)
		return &l
	}
}

// c07Custom configures list formats and the default format.
func c07Custom(c *Case) {
	r := c.R
	reps := genListed(r, r.Range(1, 6))
	for _, rep := range reps {
		rep.Charset = "koi8-r"
	}
	all := defaultFormats()
	formats := shuffled(r, all)[:r.Range(1, 3)]
	var cons []representation.ListConstructor
	for i, f := range formats {
		f.ID = i
		f.SQ = pickOf(r, 1000, 900, 500)
		cons = append(cons, listConstructor(f.Media.String(), "en-US", float32(float64(f.SQ)/1000)))
	}
	fallback := pickOf(r, "application/json", "application/xml", "application/yaml")
	neg := proactive.New(shuffled(r, []proactive.Option{
		proactive.Representations(cons...), proactive.DefaultRepresentation(listConstructor(fallback, "en-US", 1)),
	})...)
	g := &Gen{R: r, Types: typePool, Langs: langPool, Charsets: charsetPool, Zero: 20}
	req := Req{Charset: []TRange{{"ascii", g.weight(10)}}}
	for _, i := range r.Perm(4)[:r.Range(1, 3)] {
		req.Accept = append(req.Accept, MRange{[]Media{{T: "application", S: "json"}, {T: "application", S: "xml"}, {T: "application", S: "yaml"}, {T: "text", S: "html"}}[i], g.weight(20)})
	}
	c07Judge406(c, req, reps, neg, formats, fallback)
}

func c07Disabled(c *Case) {
	r := c.R
	reps := genListed(r, r.Range(1, 6))
	for _, rep := range reps {
		rep.Charset = "koi8-r"
	}
	opts := []proactive.Option{proactive.DisableNotAcceptableRepresentation()}
	if r.Bool() {
		opts = append(opts, proactive.DefaultRepresentation(func(...representation.Representation) representation.Representation {
			c.Fail("a list was constructed")
			return reps[0]
		}))
	}
	o := negotiate(proactive.New(opts...), ambient(r, newRequest(resourceURL, http.Header{"Accept-Charset": {"utf-8"}})), reps)
	c.Eval(1)
	c.Count("disabled")
	if o.Panic != nil || o.Err != nil || o.StatusCode() != 406 || len(o.Body) != 0 || len(o.Final) != 0 {
		c.Fail("want an empty 406, but got %s with headers %s", o.Short(), headerSig(o.Final))
	}
}

func c07MultipleChoices(c *Case) {
	r := c.R
	kind := pickOf(r, "reactive", "transparent")
	n := r.Range(1, 10)
	var neg negotiator.Negotiator = reactive.Default
	if kind == "transparent" {
		neg = transparent.Default
	} else if r.P(20) {
		n = offerSize(r, r.Range(13, 40))
	}
	format := "application/json"
	if r.P(50) {
		format = pickOf(r, "application/json", "application/xml", "application/yaml")
		if kind == "transparent" {
			neg = transparent.New(transparent.ListRepresentation(listConstructor(format, "en-US", 1)))
		} else {
			neg = reactive.New(reactive.Representation(listConstructor(format, "en-US", 1)))
		}
	}
	reps := genListed(r, n)
	g := newGen(r)
	req := g.req(50)
	h := req.Header(Style{R: r})
	offered := asReps(reps)
	if kind == "reactive" {
		offered = disguised(c, reps)
	}
	o := negotiateOn(neg, NewRecorder(), ambient(r, newRequest(resourceURL, h)), false, offered)
	c.Eval(1)
	describe(c, h, reps)
	if o.Panic != nil || o.Err != nil || o.StatusCode() != 300 {
		c.Fail("want 300, but got %s", o.Short())
		return
	}
	c.Count("list:" + kind)
	c.Count("format:" + o.Header.Get("Content-Type"))
	if n > 1 {
		c.Nontrivial(kind, format, offerKey(reps))
	}
	meta := &Rep{CT: format, Lang: "en-US", Charset: "ascii", Enc: []string{"identity"}}
	if err := checkMeta(o, metaOf(meta, o.Body, false)); err != nil {
		c.Fail("%v", err)
	}
	if err := checkOrder(o); err != nil {
		c.Fail("%v", err)
	}
	if err := checkList(format, o.Body, reps); err != nil {
		c.Fail("%v", err)
	}
	c.Sample(map[string]any{"kind": kind, "format": format, "entries": n, "bytes": len(o.Body)})
}

// ---------------------------------------------------------------------------

var negotiationHeaders = []string{"Accept", "Accept-Language", "Accept-Charset", "Accept-Encoding", "Accept-Features", "Negotiate"}

// hostileHeader generates arbitrary, mostly malformed header lines.
func hostileHeader(r *Rand) http.Header {
	h := http.Header{}
	for _, name := range negotiationHeaders {
		if !r.P(55) {
			continue
		}
		var lines []string
		for k := r.Range(0, 3); k >= 0; k-- {
			lines = append(lines, hostileValue(r))
		}
		if r.P(3) {
			lines = []string{}
		}
		h[name] = lines
	}
	return h
}

var hostileAtoms = []string{"*", "/", "*/*", "text/html", "text", ";", ";q=", "q=0.5", ";q=1", ";q=-1", ";q=NaN", ";q=1e400", ";q=+Inf", ";Q=0x1p-2", ",", ",,", "\"", "\\", "=", "!=", "!",
	"[", "]", "[1-", "=[-5]", "{", "}", "={", "en", "en-", "-", "-US", "x-", "i-klingon", "zh-Hant-TW-u-co-pinyin", "utf-8", "gzip", "identity", "br", "1.0", "guess-small", "trans", " ", "\t", "\x00", "\xff\xfe", "é", "q", ";level=",
	";level=99999999999", ";;", "; ;", "a=b", "tag=5", "tag!=5", "!tag", "application/json", "en-US", "und", "root", "mul", "art-lojban", ";charset=\"utf-8", "0.1", "00000000000000000001"}

func hostileValue(r *Rand) string {
	switch r.Intn(12) {
	case 0:
		b := make([]byte, r.Intn(24))
		for i := range b {
			b[i] = byte(r.U64())
		}
		return string(b)
	case 1:
		return ""
	case 2:
		if r.P(10) {
			return strings.Repeat(pick(r, hostileAtoms), r.Range(100, 3000))
		}
	}
	var b strings.Builder
	for k := r.Range(1, 7); k > 0; k-- {
		b.WriteString(pick(r, hostileAtoms))
	}
	return b.String()
}

func c08List(c *Case) {
	r := c.R
	n := r.Range(1, 12)
	if r.P(5) {
		n = r.Range(30, 120)
		c.Count("large-offer")
	}
	reps := genListed(r, n)
	offered := asReps(reps)
	g := newGen(r)
	var h http.Header
	if r.P(50) {
		h = hostileHeader(r)
		c.Count("malformed-headers")
	} else {
		h = g.req(70).Header(Style{R: r})
	}
	var neg negotiator.Negotiator = reactive.Default
	wantBody, wantMeta := []byte(nil), map[string]string(nil)
	calls, repeated := 0, 0
	if r.Bool() {
		c.Count("custom-constructor")
		list := &Rep{CT: pickOf(r, "application/x-list", "", "text/html"), Lang: pickOf(r, "", "de"), Charset: pickOf(r, "", "utf-8"),
			Enc: pickOf(r, nil, []string{"gzip", "identity"}), Body: randBody(c)}
		var got []representation.Representation
		neg = reactive.New(reactive.Representation(func(rs ...representation.Representation) representation.Representation {
			calls++
			got = append([]representation.Representation{}, rs...)
			return list
		}))
		defer func() {
			// once for each of the two negotiations.
			if calls != 1+repeated {
				c.Fail("the list constructor was called %d times", calls)
			}
			if joinReps(got) != joinReps(asReps(reps)) {
				c.Fail("the list constructor got %s, want %s", joinReps(got), joinReps(asReps(reps)))
			}
		}()
		wantBody, wantMeta = list.Body, metaOf(list, list.Body, false)
	} else {
		c.Count("default-constructor")
		offered = disguised(c, reps)
	}
	preset := appHeaders(r)
	rec := NewRecorder()
	rec.H = preset.Clone()
	req := ambient(r, newRequest(resourceURL, h))
	req.Method = pickOf(r, "GET", "HEAD", "POST", "DELETE")
	o := negotiateOn(neg, rec, req, r.Bool(), offered)
	c.Eval(1)
	describe(c, h, nil)
	if len(h) > 0 {
		c.Nontrivial(headerString(h), offerKey(reps))
	}
	if o.Panic != nil || o.Err != nil || o.StatusCode() != 300 {
		c.Fail("want 300, but got %s", o.Short())
		return
	}
	if err := checkOrder(o); err != nil {
		c.Fail("%v", err)
	}
	if err := checkPreserved(o, preset); err != nil {
		c.Fail("%v", err)
	}
	if wantMeta != nil {
		if string(wantBody) != string(o.Body) {
			c.Fail("the body isn't the constructed list: %.80q", o.Body)
		}
	} else {
		wantMeta = metaOf(&Rep{CT: "application/json", Lang: "en-US", Charset: "ascii", Enc: []string{"identity"}}, o.Body, false)
		if err := checkList("application/json", o.Body, reps); err != nil {
			c.Fail("%v", err)
		}
	}
	if err := checkMeta(o, wantMeta); err != nil {
		c.Fail("%v", err)
	}
	// the request doesn't matter.
	rec2 := NewRecorder()
	rec2.H = preset.Clone()
	plain := ambient(r, newRequest(resourceURL, http.Header{}))
	o2 := negotiateOn(neg, rec2, plain, false, offered)
	repeated = 1
	if o2.Sig() != o.Sig() {
		c.Fail("the request changes the response: %s, without headers %s", o.Sig(), o2.Sig())
	}
	c.Sample(map[string]any{"request": headerString(h), "offered": n, "status": o.StatusCode(), "bytes": len(o.Body)})
}

// ---------------------------------------------------------------------------

func c22Empty(c *Case) {
	r := c.R
	kind := pickOf(r, "proactive", "reactive", "transparent")
	c.Count("kind:" + kind)
	chooser := stubChooser{func(*http.Request, []representation.Representation) (representation.Representation, error) {
		c.Fail("the algorithm was consulted")
		return nil, errors.New("consulted")
	}}
	list := func(...representation.Representation) representation.Representation {
		c.Fail("a list was constructed")
		return &Rep{}
	}
	var neg negotiator.Negotiator
	conf := r.Intn(64)
	switch kind {
	case "proactive":
		neg = proactive.Default
		var opts []proactive.Option
		for i, o := range []proactive.Option{proactive.DisableStrictMode(), proactive.Algorithm(chooser), proactive.DefaultRepresentation(list),
			proactive.Representations(list, list), proactive.DisableNotAcceptableRepresentation(), proactive.DisableStrictAccept()} {
			if conf>>i&1 == 1 {
				opts = append(opts, o)
			}
		}
		if len(opts) > 0 {
			neg = proactive.New(opts...)
		}
	case "reactive":
		conf &= 1
		neg = reactive.Default
		if conf == 1 {
			neg = reactive.New(reactive.Representation(list))
		}
	case "transparent":
		conf &= 15
		neg = transparent.Default
		var opts []transparent.Option
		for i, o := range []transparent.Option{transparent.RVSA(chooser), transparent.ListRepresentation(list), transparent.MaximumVariantListSize(r.Range(-2, 3)), transparent.GuessSmallThreshold(r.Range(0, 9))} {
			if conf>>i&1 == 1 {
				opts = append(opts, o)
			}
		}
		if len(opts) > 0 {
			neg = transparent.New(opts...)
		}
	}
	var h http.Header
	if r.Bool() {
		h = hostileHeader(r)
		c.Count("malformed-headers")
	} else {
		q := newGen(r).req(60)
		q.Negotiate = genNegotiate(r)
		h = q.Header(Style{R: r})
	}
	preset := appHeaders(r)
	rec := NewRecorder()
	rec.H = preset.Clone()
	var reps []representation.Representation
	if r.Bool() {
		reps = []representation.Representation{}
	}
	o := negotiateOn(neg, rec, ambient(r, newRequest(resourceURL, h)), r.Bool(), reps)
	c.Eval(1)
	describe(c, h, nil)
	c.Desc("%s, configuration %b", kind, conf)
	c.Nontrivial(kind, fmt.Sprint(conf), headerString(h))
	if o.Panic != nil || o.Err != nil || o.StatusCode() != 204 || len(o.Body) != 0 {
		c.Fail("want 204 without body, but got %s", o.Short())
	} else if headerSig(o.Final) != headerSig(preset) {
		c.Fail("204 with headers %s", headerSig(o.Final))
	}
	c.Sample(map[string]any{"kind": kind, "request": headerString(h), "response": o.Short()})
}
