package main

import (
	"fmt"
	"math"
	"net/http"
	"net/url"
	"strings"

	"github.com/freerware/negotiator"
	"github.com/freerware/negotiator/proactive"
	"github.com/freerware/negotiator/reactive"
	"github.com/freerware/negotiator/representation"
	"github.com/freerware/negotiator/transparent"
)

func init() {
	register(&Property{
		ID:   "C28",
		More: 4,
		Rule: "histories of up to 60 steps over several library representations and lists: metadata is set (all kinds of values), representations are serialized, deserialized (also from garbage), copied, listed, negotiated about by the three kinds of negotiation; " +
			"after every step the metadata that every representation reports is compared with a model that only knows what was set, and responses and list entries with the model. Non-trivial: distinct by history.",
		Subs: []Sub{
			{Name: "histories", Quick: 6000, Thorough: 150000, Run: c28Histories},
		},
		MinEvents: []string{"set:type", "set:language", "set:charset", "set:encoding", "set:features", "set:location", "set:odd-location", "set:quality", "serialized", "serialization-failed", "deserialized", "deserialization-failed",
			"copied", "listed", "negotiated:200", "negotiated:201", "negotiated:300", "document", "list", "unset"},
	})
}

// metaModel is what a representation was told about itself.
type metaModel struct {
	ct, lang, charset string
	enc, feat         []string
	loc               string
	sq                float32
	where             url.URL
}

// wholeURL describes all that a URL is made of, which its text does not tell.
func wholeURL(u url.URL) string {
	user := "none"
	if u.User != nil {
		user = fmt.Sprintf("%q", u.User.String())
		u.User = nil
	}
	return fmt.Sprintf("%s %#v", user, u)
}

// oddURL makes a URL that its text does not determine.
func oddURL(r *Rand, u url.URL) url.URL {
	switch r.Intn(9) {
	case 0:
		u.Path, u.RawPath = "a:b/c", ""
	case 1:
		u.Opaque = "//example.com/%2f"
	case 2:
		u.ForceQuery = true
	case 3:
		u.Path, u.RawPath = "/a b", "/a%2Fb"
	case 4:
		u.Fragment, u.RawFragment = "a b", "a%20b"
	case 5:
		u.User = url.User("")
	case 6:
		u.Scheme = "HTTP"
	case 7:
		u.Path, u.RawPath = "/100%/\u00fc?#", ""
	case 8:
		u.OmitHost = true
	}
	return u
}

// library is what the representations of the library have in common.
type library interface {
	representation.Representation
	SetContentType(string)
	SetContentLanguage(string)
	SetContentCharset(string)
	SetContentEncoding([]string)
	SetContentFeatures([]string)
	SetContentLocation(url.URL)
	SetSourceQuality(float32)
}

type tracked struct {
	rep library
	metaModel
}

func (t *tracked) check() error {
	str := func(what, got, want string) error {
		if got != want {
			return fmt.Errorf("%s is %q, but %q was set", what, got, want)
		}
		return nil
	}
	loc := t.rep.ContentLocation()
	for _, err := range []error{
		str("content type", t.rep.ContentType(), t.ct), str("content language", t.rep.ContentLanguage(), t.lang), str("content charset", t.rep.ContentCharset(), t.charset),
		str("content location", loc.String(), t.loc), str("content encoding", fmt.Sprintf("%q", t.rep.ContentEncoding()), fmt.Sprintf("%q", t.enc)),
		str("content features", fmt.Sprintf("%q", t.rep.ContentFeatures()), fmt.Sprintf("%q", t.feat)),
	} {
		if err != nil {
			return err
		}
	}
	if got, want := wholeURL(loc), wholeURL(t.where); got != want {
		return fmt.Errorf("content location is %s, but %s was set", got, want)
	}
	if got := t.rep.SourceQuality(); math.Float32bits(got) != math.Float32bits(t.sq) {
		return fmt.Errorf("source quality is %v, but %v was set", got, t.sq)
	}
	return nil
}

func (t *tracked) clone() *tracked {
	out := &tracked{metaModel: t.metaModel}
	switch rep := t.rep.(type) {
	case *rich:
		d := *rep
		out.rep = &d
	case *representation.List:
		l := *rep
		out.rep = &l
	}
	return out
}

var (
	anyTypes     = []string{"application/json", "application/xml", "application/yaml", "text/yaml", "text/html", "Text/HTML; Charset=UTF-8", "application/json ;v=\"1, 2\"", "image/x-unknown", "", "  ", "text", "text/html;level=1;level=2", "APPLICATION/JSON"}
	anyLanguages = []string{"en", "EN-us", "de-CH-1996", "x-klingon", "", "*", "en, de", "  fr ", "zh-Hant-TW", "\u00fc"}
	anyCharsets  = []string{"utf-8", "UTF-8", "iso-8859-1", "", "*", " ascii", "US-ASCII", "x-\u00fc"}
	anyCodings   = []string{"gzip", "GZip", "identity", "deflate", "compress", "br", "", "x-gzip", "gzip, deflate"}
	anyFeatures  = []string{"tables", "Tables", "!tables", "color=5", "[ a b ];+1.2-0.3", "screen.width=[10-20]", "", "x y", "*"}
	anyLocations = []string{"", "/relative", "thing.en.html", "http://example.com/a?b=c#d", "HTTP://EXAMPLE.com:80/%7Eu/a%2Fb", "http://user:pw@example.com:8080/x;y=z", "//example.com/x", "?q", "#f", "http://[::1]:8080/", "/a//b/../c", "urn:isbn:0451450523"}
	anyQualities = []float32{0, 1, 0.5, 0.3, 0.123456789, 1e-9, 2, -1, float32(math.Inf(1)), 0.0005, 0.999999}
)

func someOf(r *Rand, pool []string, usual int) []string {
	switch n := pickOf(r, -1, 0, 1, 1, 2, usual, 8); n {
	case -1:
		return nil
	default:
		out := make([]string, 0, n+2)
		for k := 0; k < n; k++ {
			out = append(out, pick(r, pool))
		}
		return out
	}
}

// set sets something and remembers it.
func (t *tracked) set(r *Rand, c *Case) string {
	switch r.Intn(7) {
	case 0:
		t.ct = pick(r, anyTypes)
		if r.P(50) {
			t.ct = mediaTypes[r.Intn(3)]
		}
		t.rep.SetContentType(t.ct)
		c.Count("set:type")
		return fmt.Sprintf("type %q", t.ct)
	case 1:
		t.lang = pick(r, anyLanguages)
		t.rep.SetContentLanguage(t.lang)
		c.Count("set:language")
		return fmt.Sprintf("language %q", t.lang)
	case 2:
		t.charset = pick(r, anyCharsets)
		t.rep.SetContentCharset(t.charset)
		c.Count("set:charset")
		return fmt.Sprintf("charset %q", t.charset)
	case 3:
		enc := someOf(r, anyCodings, 3)
		if r.P(60) {
			enc = someOf(r, allCodings, 2)
		}
		t.enc = append([]string(nil), enc...)
		t.rep.SetContentEncoding(enc)
		c.Count("set:encoding")
		if len(enc) == 0 {
			c.Count("unset")
		}
		return fmt.Sprintf("encoding %q", enc)
	case 4:
		feat := someOf(r, anyFeatures, 4)
		t.feat = append([]string(nil), feat...)
		t.rep.SetContentFeatures(feat)
		c.Count("set:features")
		return fmt.Sprintf("features %q", feat)
	case 5:
		u := *mustURL(pick(r, anyLocations))
		if r.P(30) {
			u = oddURL(r, u)
			c.Count("set:odd-location")
		}
		t.loc, t.where = u.String(), u
		t.rep.SetContentLocation(u)
		c.Count("set:location")
		return fmt.Sprintf("location %q", t.loc)
	}
	t.sq = pick(r, anyQualities)
	if r.P(50) {
		t.sq = float32(r.Intn(1001)) / 1000
	}
	t.rep.SetSourceQuality(t.sq)
	c.Count("set:quality")
	return fmt.Sprintf("quality %v", t.sq)
}

// entry is how a list describes it.
func (t *tracked) entry() string {
	return fmt.Sprintf("%q %q %q %q %q %q %v", t.ct, t.lang, t.charset, t.enc, t.feat, t.loc, math.Float32bits(t.sq))
}

func listedAs(m representation.Metadata) string {
	return fmt.Sprintf("%q %q %q %q %q %q %v", m.ContentType, m.ContentLanguage, m.ContentCharset, m.ContentEncoding, m.ContentFeatures, m.ContentLocation, math.Float32bits(m.SourceQuality))
}

func c28Histories(c *Case) {
	r := c.R
	var all []*tracked
	add := func(t *tracked) { all = append(all, t) }
	for k := r.Range(1, 3); k > 0; k-- {
		if r.P(70) {
			add(&tracked{rep: genRich(r, pickOf(r, 0, 10, 300))})
			c.Count("document")
		} else {
			add(&tracked{rep: &representation.List{}})
			c.Count("list")
		}
	}
	var history []string
	note := func(format string, args ...any) {
		history = append(history, fmt.Sprintf(format, args...))
	}
	steps := r.Range(5, 60)
	for s := 0; s < steps; s++ {
		i := r.Intn(len(all))
		t := all[i]
		switch x := r.Intn(100); {
		case x < 55:
			note("#%d: set %s", i, t.set(r, c))
		case x < 65:
			_, err := t.rep.Bytes()
			note("#%d: serialize: %v", i, err)
			if c.Count("serialized"); err != nil {
				c.Count("serialization-failed")
			}
		case x < 75:
			b, err := t.rep.Bytes()
			switch {
			case err != nil || r.P(30):
				b = []byte(pickOf(r, "", "{", `{"title":"x","contentType":"a/b","ContentLanguage":"de","content_encoding":["br"],"language":"de","mediaType":"a/b"}`, "\x1f\x8b\x08\x00", "<rich><title>x</title><encoding>gzip</encoding></rich>", "title: x\nlanguage: de\n"))
			}
			err = t.rep.FromBytes(b)
			note("#%d: deserialize %.60q: %v", i, b, err)
			if c.Count("deserialized"); err != nil {
				c.Count("deserialization-failed")
			}
		case x < 83 && len(all) < 8:
			add(t.clone())
			note("#%d: copy of #%d", len(all)-1, i)
			c.Count("copied")
		case x < 91:
			var l representation.List
			var reps []representation.Representation
			for _, t := range all {
				reps = append(reps, t.rep)
			}
			l.SetRepresentations(reps...)
			note("list")
			c.Count("listed")
			if len(l.Representations) != len(all) {
				c.Desc("%s", strings.Join(history, "\n"))
				c.Fail("%d representations are listed as %d", len(all), len(l.Representations))
				return
			}
			for k, t := range all {
				if got, want := listedAs(l.Representations[k]), t.entry(); got != want {
					c.Desc("%s", strings.Join(history, "\n"))
					c.Fail("#%d is listed as %s, want %s", k, got, want)
					return
				}
			}
		default:
			if err := c28Negotiate(c, r, all, i, note); err != nil {
				c.Desc("%s", strings.Join(history, "\n"))
				c.Fail("%v", err)
				return
			}
		}
		c.Eval(1)
		for k, t := range all {
			if err := t.check(); err != nil {
				c.Desc("%s", strings.Join(history, "\n"))
				c.Fail("#%d: %v", k, err)
				return
			}
		}
	}
	c.Nontrivial(history...)
	c.Sample(map[string]any{"history": history})
}

// c28Negotiate negotiates about everything with #i as the choice.
func c28Negotiate(c *Case, r *Rand, all []*tracked, i int, note func(string, ...any)) error {
	var reps []representation.Representation
	for _, t := range all {
		reps = append(reps, t.rep)
	}
	t := all[i]
	rec := NewRecorder()
	creation := r.Bool()
	var n negotiator.Negotiator
	h := http.Header{}
	kind := pickOf(r, "proactive", "proactive", "transparent", "reactive")
	switch kind {
	case "proactive":
		n = proactive.New(proactive.Algorithm(pickingChooser(i)))
	case "transparent":
		n = transparent.New(transparent.RVSA(pickingChooser(i)), transparent.MaximumVariantListSize(100))
		h["Negotiate"] = []string{"*"}
	default:
		n = reactive.Default
	}
	o := negotiateOn(n, rec, newRequest(resourceURL, h), creation, reps)
	note("%s negotiation choosing #%d: %s", kind, i, o.Short())
	if o.Panic != nil {
		return fmt.Errorf("%s", o.Short())
	}
	if o.Err != nil {
		return nil
	}
	status := o.StatusCode()
	c.Count(fmt.Sprintf("negotiated:%d", status))
	if kind == "proactive" {
		want := t.metaModel
		for k, v := range map[string]string{"Content-Type": want.ct, "Content-Language": want.lang, "Content-Charset": want.charset, "Content-Location": want.loc, "Content-Encoding": strings.Join(want.enc, ",")} {
			if got := o.Header[k]; len(got) != 1 || got[0] != v {
				return fmt.Errorf("header %s is %q, but %q was set", k, got, v)
			}
		}
	}
	if kind == "reactive" {
		entries, err := decodeList("application/json", o.Body)
		if err != nil || len(entries) != len(all) {
			return fmt.Errorf("%d representations are listed as %d: %v", len(all), len(entries), err)
		}
		for k, e := range entries {
			t := all[k]
			// JSON is UTF-8.
			if e.Type != t.ct || e.Lang != t.lang || e.Charset != t.charset || e.Loc != t.loc || !sameStrings(e.Enc, t.enc) || !sameStrings(e.Feat, t.feat) || float32(e.SQ) != t.sq {
				return fmt.Errorf("#%d is listed as %+v, want %s", k, e, t.entry())
			}
		}
	}
	return nil
}
