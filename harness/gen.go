package main

import (
	"fmt"
	"math"
	"net/http"
	"net/url"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"

	"github.com/freerware/negotiator/representation"
)

// ---------------------------------------------------------------------------
// Abstract requests. Weights are integers in thousandths.

// Param is a media type parameter.
type Param struct{ K, V string }

// Media is a media type or range without weight.
type Media struct {
	T, S   string
	Params []Param
}

func (m Media) String() string {
	s := m.T + "/" + m.S
	for _, p := range m.Params {
		s += ";" + p.K + "=" + paramValue(p.V)
	}
	return s
}

// paramValue spells the value of a parameter, quoted when it has to be.
func paramValue(v string) string {
	if v == "" || strings.ContainsAny(v, " \t\",;:\\/()<>@[]?={}") {
		return quotedString(v)
	}
	return v
}

func quotedString(v string) string {
	return `"` + strings.NewReplacer(`\`, `\\`, `"`, `\"`).Replace(v) + `"`
}

// profiles are values that look like the syntax around them.
var profiles = []string{"a,b", "a;q=0", `say "hi", ok`, `back\slash`, " x ", ",", `"`, `\`, "a=b;c", "text/html", ", */*", "1"}

// MRange is a weighted media range.
type MRange struct {
	Media
	Q int
}

// TRange is a weighted token: a language, a charset or a content coding.
type TRange struct {
	Name string
	Q    int
}

// FExpr is a feature expression: Op is one of "", "!", "=", "={}", "!=".
type FExpr struct{ Op, Tag, Val string }

func (f FExpr) String() string {
	switch f.Op {
	case "":
		return f.Tag
	case "!":
		return "!" + f.Tag
	case "=":
		return f.Tag + "=" + f.Val
	case "={}":
		return f.Tag + "={" + f.Val + "}"
	case "!=":
		return f.Tag + "!=" + f.Val
	}
	panic(harnessError("unknown feature expression"))
}

// Req is an abstract request: empty slices are absent headers.
type Req struct {
	Accept    []MRange
	Lang      []TRange
	Charset   []TRange
	Enc       []TRange
	Feat      []FExpr
	Negotiate []string
}

// Style controls how a request is spelled. A nil generator is the canonical
// spelling: one element per line, in lower case, the shortest weights.
type Style struct {
	R       *Rand
	Reorder bool
}

func (s Style) q(q int) string {
	if s.R == nil {
		switch {
		case q == 1000:
			return ""
		case q == 0:
			return ";q=0"
		}
		return ";q=0." + strings.TrimRight(fmt.Sprintf("%03d", q), "0")
	}
	if q == 1000 && s.R.P(60) {
		return ""
	}
	name := pickOf(s.R, "q", "q", "Q")
	return s.ows() + ";" + s.ows() + name + "=" + s.qvalue(q)
}

// qvalue spells a weight in one of the legal ways.
func (s Style) qvalue(q int) string {
	switch q {
	case 1000:
		return pickOf(s.R, "1", "1.", "1.0", "1.00", "1.000")
	case 0:
		return pickOf(s.R, "0", "0.", "0.0", "0.00", "0.000")
	}
	full := fmt.Sprintf("%03d", q)
	short := strings.TrimRight(full, "0")
	n := s.R.Range(len(short), 3)
	return "0." + full[:n]
}

func (s Style) ows() string {
	if s.R == nil || !s.R.P(35) {
		return ""
	}
	if s.R.Intn(3000) == 0 {
		return strings.Repeat(pickOf(s.R, " ", "\t"), pickOf(s.R, 17, 64, 100, 257, 1025, 5000))
	}
	return pickOf(s.R, " ", "  ", "\t", " \t ")
}

func (s Style) token(t string) string {
	if s.R == nil {
		return t
	}
	switch s.R.Intn(4) {
	case 0:
		return strings.ToUpper(t)
	case 1:
		b := []byte(t)
		for i := range b {
			if s.R.Bool() {
				b[i] = strings.ToUpper(string(b[i]))[0]
			}
		}
		return string(b)
	}
	return t
}

// lines spreads elements over header lines.
func (s Style) lines(elements []string) []string {
	if len(elements) == 0 {
		return nil
	}
	if s.R == nil {
		return append([]string{}, elements...)
	}
	if s.Reorder {
		elements = shuffled(s.R, elements)
	}
	var lines []string
	var cur []string
	flush := func() {
		if len(cur) == 0 {
			return
		}
		var b strings.Builder
		if s.R.P(10) {
			b.WriteString(s.ows() + ",")
		}
		for i, e := range cur {
			if i > 0 {
				b.WriteString(s.ows() + ",")
				if s.R.P(10) {
					b.WriteString(s.ows() + ",")
				}
			}
			b.WriteString(s.ows())
			b.WriteString(e)
		}
		if s.R.P(10) {
			b.WriteString(s.ows() + ",")
		}
		b.WriteString(s.ows())
		lines = append(lines, b.String())
		cur = nil
	}
	split := pickOf(s.R, 0, 0, 30, 100)
	for _, e := range elements {
		cur = append(cur, e)
		if s.R.P(split) {
			flush()
		}
	}
	flush()
	return lines
}

func (s Style) media(m MRange) string {
	b := s.token(m.T) + "/" + s.token(m.S)
	for _, p := range m.Params {
		v := paramValue(p.V)
		if s.R != nil && s.R.P(15) {
			v = quotedString(p.V)
		}
		b += s.ows() + ";" + s.ows() + s.token(p.K) + "=" + v
	}
	return b + s.q(m.Q)
}

// padded rarely adds many elements that concern nothing that is ever offered
// to a header that isn't empty, between what it has.
func (s Style) padded(name string, elements []string) []string {
	if s.R == nil || s.R.Intn(250) != 0 {
		return elements
	}
	r := s.R
	n := pickOf(r, 7, 15, 16, 31, 32, 40, 63, 64, 100, 127, 128, 200, 255, 256, 300, 400)
	pad := func(i int) string {
		switch name {
		case "Accept":
			m := Media{T: pickOf(r, "text", "application", "image", "x-pad"), S: fmt.Sprintf("x-pad%d", i)}
			if r.P(20) {
				m.Params = []Param{{"level", strconv.Itoa(i)}}
			}
			return s.media(MRange{m, r.Range(0, 1000)})
		case "Accept-Language":
			return s.token(fmt.Sprintf("q%c%c-x-p%d", 'a'+i%20, 'a'+i/20%26, i)) + s.q(r.Range(0, 1000))
		case "Accept-Charset", "Accept-Encoding":
			return s.token(fmt.Sprintf("x-pad%d", i)) + s.q(r.Range(0, 1000))
		case "Accept-Features":
			return FExpr{pickOf(r, "", "!"), s.token(fmt.Sprintf("x-pad%d", i)), ""}.String()
		}
		return s.token(fmt.Sprintf("x-pad%d", i))
	}
	first := r.Bool()
	var out []string
	if first {
		// before everything.
		for i := 0; i < n; i++ {
			out = append(out, pad(i))
		}
		return append(out, elements...)
	}
	at := make([]int, len(elements))
	for i := range at {
		at[i] = r.Intn(n + 1)
	}
	sort.Ints(at)
	k := 0
	for i := 0; i <= n; i++ {
		for k < len(at) && at[k] == i {
			out = append(out, elements[k])
			k++
		}
		if i < n {
			out = append(out, pad(i))
		}
	}
	return out
}

// Header renders the request's negotiation headers.
func (q Req) Header(s Style) http.Header {
	h := http.Header{}
	set := func(name string, elements []string, st Style) {
		if len(elements) > 0 {
			h[name] = st.lines(st.padded(name, elements))
		}
	}
	var el []string
	for _, m := range q.Accept {
		el = append(el, s.media(m))
	}
	set("Accept", el, s)
	el = nil
	for _, m := range q.Lang {
		el = append(el, s.token(m.Name)+s.q(m.Q))
	}
	// equally weighted languages are ordered by position.
	set("Accept-Language", el, Style{R: s.R})
	el = nil
	for _, m := range q.Charset {
		el = append(el, s.token(m.Name)+s.q(m.Q))
	}
	set("Accept-Charset", el, s)
	el = nil
	for _, m := range q.Enc {
		el = append(el, s.token(m.Name)+s.q(m.Q))
	}
	set("Accept-Encoding", el, s)
	el = nil
	for _, f := range q.Feat {
		if s.R != nil {
			f.Tag = s.token(f.Tag)
		}
		el = append(el, f.String())
	}
	set("Accept-Features", el, s)
	el = nil
	for _, n := range q.Negotiate {
		el = append(el, s.token(n))
	}
	set("Negotiate", el, s)
	return h
}

func newRequest(target string, h http.Header) *http.Request {
	r, err := http.NewRequest(http.MethodGet, target, nil)
	must(err)
	for k, v := range h {
		r.Header[k] = v
	}
	return r
}

// ambient varies what content negotiation does not depend on.
func ambient(r *Rand, req *http.Request) *http.Request {
	if r == nil || !r.P(35) {
		return req
	}
	req.Method = pick(r, requestMethods)
	switch r.Intn(4) {
	case 0:
		req.Proto, req.ProtoMajor, req.ProtoMinor = "HTTP/1.0", 1, 0
	case 1:
		req.Proto, req.ProtoMajor, req.ProtoMinor = "HTTP/2.0", 2, 0
	}
	if r.P(30) {
		req.RemoteAddr = "192.0.2.7:4711"
	}
	if r.P(10) {
		// the client went away.
		req = req.WithContext(goneContext)
	}
	for _, h := range unrelatedHeaders {
		if r.P(20) {
			req.Header[h[0]] = []string{h[1+r.Intn(len(h)-1)]}
		}
	}
	return req
}

var (
	requestMethods   = []string{"GET", "HEAD", "POST", "PUT", "PATCH", "DELETE", "OPTIONS", "PROPFIND"}
	unrelatedHeaders = [][]string{
		{"User-Agent", "Mozilla/4.0 (compatible; MSIE 6.0)", "curl/8.5.0", ""},
		{"Cookie", "lang=de; type=text/plain"}, {"Referer", "http://example.com/r/0"}, {"Cache-Control", "no-cache", "no-transform"},
		{"If-None-Match", "*", `"abc"`}, {"If-Modified-Since", "Thu, 19 Nov 2026 18:00:00 GMT"}, {"Range", "bytes=0-1", "bytes=0-", "bytes=-5", "bytes=0-0,2-3", "x"}, {"Prefer", "return=minimal", "respond-async, wait=10"},
		{"If-Match", "*", `"abc"`, `W/"abc"`}, {"If-Range", `"abc"`, "Thu, 19 Nov 2026 18:00:00 GMT"}, {"If-Unmodified-Since", "Thu, 19 Nov 1998 18:00:00 GMT"},
		{"Pragma", "no-cache"}, {"Want-Digest", "sha-256"}, {"Save-Data", "on"}, {"Dnt", "1"}, {"Sec-Fetch-Mode", "cors", "navigate"}, {"Sec-Fetch-Dest", "image", "document"},
		{"Sec-Gpc", "1"}, {"Viewport-Width", "320"}, {"X-Forwarded-For", "192.0.2.1"}, {"X-Forwarded-Host", "other.example.com"}, {"X-Forwarded-Proto", "https"},
		{"Forwarded", "for=192.0.2.1;host=other.example.com;proto=https"}, {"X-Http-Method-Override", "HEAD", "DELETE"}, {"X-Original-Url", "/other"}, {"Authorization", "Basic YTpi"},
		{"Expect", "100-continue"}, {"Upgrade", "h2c"}, {"Via", "1.0 fred"}, {"Max-Forwards", "0"}, {"Vary", "*"}, {"Content-Encoding", "gzip"}, {"Content-Location", "/r/1"},
		{"Tcn", "list"}, {"Alternates", "{\"a\" 1.0}"}, {"Variant-Vary", "*"}, {"Content-Features", "x"}, {"Content-Length", "7"}, {"Transfer-Encoding", "chunked"}, {"X-Accept", "text/plain"},
		{"X-Requested-With", "XMLHttpRequest"}, {"Content-Type", "application/json"}, {"Content-Language", "de"}, {"Te", "trailers, deflate"},
		{"Accept-Ranges", "none"}, {"Accept-Datetime", "x"}, {"Accept-Patch", "text/plain"}, {"Connection", "close"}, {"Origin", "http://other.example.com"},
	}
)

// ---------------------------------------------------------------------------
// Representations.

// Rep is a representation that is under full control of the harness.
type Rep struct {
	ID      int
	Media   *Media // nil is undeclared.
	CT      string // as declared; derived from Media unless set.
	Lang    string
	Charset string
	Enc     []string
	Feat    []string
	FeatEls []FElem
	SQ      int // thousandths.
	Loc     url.URL
	Body    []byte
	Err     error // error of Bytes.

	// FailFrom makes Bytes fail from the n-th call on (1 is the first), if set.
	FailFrom int

	bytesCalls int64
}

var _ representation.Representation = (*Rep)(nil)

func (r *Rep) ContentLocation() url.URL { return r.Loc }
func (r *Rep) ContentType() string {
	if r.CT == "" && r.Media != nil {
		return r.Media.String()
	}
	return r.CT
}
func (r *Rep) ContentEncoding() []string { return r.Enc }
func (r *Rep) ContentCharset() string    { return r.Charset }
func (r *Rep) ContentLanguage() string   { return r.Lang }
func (r *Rep) ContentFeatures() []string { return r.Feat }
func (r *Rep) SourceQuality() float32    { return float32(float64(r.SQ) / 1000) }
func (r *Rep) Bytes() ([]byte, error) {
	n := atomic.AddInt64(&r.bytesCalls, 1)
	if r.Err != nil && (r.FailFrom == 0 || int(n) >= r.FailFrom) {
		return nil, r.Err
	}
	return r.Body, nil
}
func (r *Rep) FromBytes(b []byte) error { r.Body = b; return nil }

func (r *Rep) clone() *Rep {
	c := &Rep{ID: r.ID, Media: r.Media, CT: r.CT, Lang: r.Lang, Charset: r.Charset, SQ: r.SQ, Loc: r.Loc,
		FeatEls: r.FeatEls, Err: r.Err, FailFrom: r.FailFrom}
	c.Enc = append([]string(nil), r.Enc...)
	c.Feat = append([]string(nil), r.Feat...)
	c.Body = append([]byte(nil), r.Body...)
	return c
}

func (r *Rep) String() string {
	return fmt.Sprintf("#%d{type=%q lang=%q charset=%q enc=%q feat=%q sq=%.3f len=%d loc=%q}",
		r.ID, r.ContentType(), r.Lang, r.Charset, r.Enc, r.Feat, float64(r.SQ)/1000, len(r.Body), r.Loc.String())
}

// snapshot is a deep description of everything observable of a representation.
func (r *Rep) snapshot() string { return r.String() + string(r.Body) }

func asReps(rs []*Rep) []representation.Representation {
	out := make([]representation.Representation, len(rs))
	for i, r := range rs {
		out[i] = r
	}
	return out
}

// uniqueBody makes a body of n bytes that identifies the representation.
func uniqueBody(id, n int) []byte {
	s := "r" + strconv.Itoa(id) + "|"
	if n < len(s) {
		n = len(s)
	}
	b := make([]byte, n)
	copy(b, s)
	for i := len(s); i < n; i++ {
		b[i] = byte('a' + (i+id)%26)
	}
	return b
}

// varyBody replaces the end of a body by bytes that are not letters, without
// changing its length or its first eight bytes.
func varyBody(r *Rand, b []byte) []byte {
	tail := pickOf(r, "\n", "\r\n", " ", "  \n\t", "\x00", "\x00\x00\x00", "\u00e9", "\u4e16\u754c", "\ufeff", "\xff\xfe", "\xff\xd8\xff")
	if len(b) >= 8+len(tail) {
		copy(b[len(b)-len(tail):], tail)
	}
	if len(b) > 12 && r.P(30) {
		for i := 8; i < len(b); i++ {
			b[i] = byte(r.U64())
		}
	}
	return b
}

func repID(body []byte) (int, bool) {
	s := string(body)
	i := strings.IndexByte(s, '|')
	if i < 2 || s[0] != 'r' {
		return 0, false
	}
	n, err := strconv.Atoi(s[1:i])
	return n, err == nil
}

// ---------------------------------------------------------------------------
// Generators.

var (
	typePool = []Media{
		{T: "text", S: "html"}, {T: "text", S: "plain"}, {T: "application", S: "json"},
		{T: "application", S: "xml"}, {T: "image", S: "png"}, {T: "image", S: "gif"},
		{T: "application", S: "xhtml+xml"}, {T: "text", S: "xml"}, {T: "application", S: "vnd.a.html"},
	}
	// types with structured syntax suffixes, next to the plain ones.
	suffixTypes = []Media{{T: "application", S: "json"}, {T: "application", S: "problem+json"}, {T: "application", S: "vnd.api+json"}, {T: "application", S: "xml"},
		{T: "application", S: "atom+xml"}, {T: "application", S: "yaml"}, {T: "application", S: "x-yaml"}, {T: "image", S: "svg+xml"}, {T: "text", S: "html"}}
	langPool    = []string{"en", "en-US", "en-GB", "fr", "fr-CA", "de", "ja", "es", "enm"} // Middle English isn't English.
	charsetPool = []string{"utf-8", "iso-8859-1", "us-ascii", "utf-16", "iso-8859-5", "shift_jis"}
	codingPool  = []string{"gzip", "deflate", "compress", "identity"}
	unknownEnc  = []string{"br", "zstd", "x-custom"}
	// well-formed language tags that no registry knows, and private ones.
	unknownLang = []string{"xx", "zz-ZZ", "yy", "x-klang"}

	// long names.
	longTypes    []Media
	longCharsets []string

	// many more of each, for long headers and offers; none of the languages is
	// related to one with another primary tag.
	wideTypes    = append([]Media{}, typePool...)
	wideLangs    = append(strings.Fields("it pt nl sv fi pl ru cs hu tr el he ar ko zh th vi id ro bg hr sk sl lv lt uk ca fa hi en-AU fr-CH fr-FR de-AT de-CH es-MX pt-BR pt-PT nl-BE fil frm den kok hil"), langPool...)
	wideCharsets = append(strings.Fields("koi8-r windows-1251 windows-1252 big5 euc-jp euc-kr gb2312 iso-8859-2 iso-8859-15 iso-2022-jp utf-7 utf-16be utf-16le utf-32 macintosh x-c1 x-c2 iso-8859-10 iso-8859-11"), charsetPool...)
)

func init() {
	// they differ in their last character only.
	for i, n := range []int{70, 130, 130, 130, 255, 255, 300, 300, 600} {
		longTypes = append(longTypes, Media{T: "application", S: fmt.Sprintf("x-%s%d", strings.Repeat("l", n), i)})
		longCharsets = append(longCharsets, fmt.Sprintf("x-%s%d", strings.Repeat("c", n), i))
	}
	for i := 0; i < 40; i++ {
		wideTypes = append(wideTypes, Media{T: []string{"text", "application", "image", "model"}[i%4], S: fmt.Sprintf("x-t%d", i)})
	}
}

// weights used where ties are wanted, and near misses.
func (g *Gen) weight(zero int) int {
	r := g.R
	if r.P(zero) {
		return 0
	}
	switch r.Intn(6) {
	case 0, 1:
		return 1000
	case 2:
		return pickOf(r, 500, 501, 499)
	case 3:
		return pickOf(r, 900, 899, 100, 1, 999, 300)
	case 4:
		return pickOf(r, 500, 800)
	}
	return r.Range(1, 1000)
}

// Gen generates requests and offers.
type Gen struct {
	R *Rand
	// Zero is the percentage of zero weights.
	Zero int
	// Dims are the dimensions that vary.
	Type, Lang, Charset, Enc, SQ, Level, Size, Params bool
	// pools of values to declare and request.
	Types           []Media
	Langs, Charsets []string
	// FineSQ makes source qualities small, which leads to ties.
	FineSQ bool
	// Undeclared is the percentage of undeclared dimensions.
	Undeclared int
	// Transparent restricts to what transparent negotiation is specified for.
	Features bool
	// AnyFeatures declares features that nothing interprets.
	AnyFeatures bool
	// Big makes bodies large.
	Big bool
	// Locs is how locations are declared.
	Locs int
	// Long is the length that is added to locations.
	Long int
}

// Ways to declare locations.
const (
	locsUnique = iota
	locsPairs
	locsSame
	locsNone
	locsRelative
)

func (g *Gen) location(id int) string {
	switch g.Locs {
	case locsPairs:
		return fmt.Sprintf("http://example.com/r/%d", id/2)
	case locsSame:
		return resourceURL
	case locsNone:
		return ""
	case locsRelative:
		return fmt.Sprintf("%d?a=b&c=d", id)
	}
	if g.Long > 0 {
		return fmt.Sprintf("http://example.com/r/%s-%d", strings.Repeat("long", g.Long/4), id)
	}
	return fmt.Sprintf("http://example.com/r/%d", id)
}

func newGen(r *Rand) *Gen {
	g := &Gen{R: r, Zero: pickOf(r, 0, 10, 25), Undeclared: pickOf(r, 0, 0, 15, 40),
		Types: typePool, Langs: langPool, Charsets: charsetPool}
	if r.P(20) {
		g.Locs = r.Range(locsPairs, locsRelative)
	}
	g.Big = r.Intn(150) == 0
	if r.P(6) {
		g.Types, g.Langs, g.Charsets = wideTypes, wideLangs, wideCharsets
	} else if r.P(8) {
		g.Types = suffixTypes
	} else if r.Intn(120) == 0 {
		g.Types, g.Charsets, g.Long = longTypes, longCharsets, pickOf(r, 0, 100, 300, 700, 2500)
	}
	for {
		p := pickOf(r, 30, 60, 90)
		g.Type, g.Lang, g.Charset, g.Enc = r.P(p), r.P(p), r.P(p), r.P(p)
		g.SQ, g.Level, g.Size, g.Params = r.P(p/2), r.P(p/2), r.P(p), r.P(30)
		if g.Type || g.Lang || g.Charset || g.Enc || g.Level || g.Size {
			return g
		}
	}
}

func (g *Gen) rep(id int) *Rep {
	r := g.R
	rep := &Rep{ID: id, SQ: 1000}
	if !r.P(g.Undeclared) {
		m := g.Types[0]
		if g.Type {
			m = pick(r, g.Types)
		}
		var params []Param
		if m.S == "html" && g.Level && r.P(70) || g.Level && r.P(25) {
			params = append(params, Param{"level", strconv.Itoa(pickOf(r, 1, 2, 3, 9, 10, 11, 12, 99, 127, 128, 200, 255, 256, 1000, 32767, 32768, 65536, 70000))})
			if r.P(10) {
				params[0].V = "0" + params[0].V
			}
		}
		if g.Params && r.P(50) {
			params = append(params, Param{"charset", pickOf(r, "utf-8", "us-ascii")})
		}
		if g.Params && r.P(30) {
			params = append(params, Param{"version", pickOf(r, "1", "2")})
		}
		if g.Params && r.P(20) {
			params = append(params, Param{"profile", pick(r, profiles)})
		}
		rep.Media = &Media{m.T, m.S, params}
	}
	if g.Lang && !r.P(g.Undeclared) {
		rep.Lang = pick(r, g.Langs)
		if r.P(3) {
			rep.Lang = pick(r, unknownLang)
		}
	} else if !g.Lang && r.P(10) {
		rep.Lang = "en"
	}
	if g.Charset && !r.P(g.Undeclared) {
		rep.Charset = pick(r, g.Charsets[:r.Range(2, len(g.Charsets))])
	}
	if g.Enc && !r.P(g.Undeclared) {
		rep.Enc = []string{pick(r, codingPool)}
		if r.P(15) {
			rep.Enc = append(rep.Enc, pick(r, codingPool))
			for r.P(40) && len(rep.Enc) < 6 {
				rep.Enc = append(rep.Enc, pick(r, codingPool))
			}
		}
	}
	if g.SQ {
		rep.SQ = pickOf(r, 1000, 1000, 900, 800, 500, 300, 700)
	}
	if g.FineSQ {
		rep.SQ = r.Range(1, 20)
	}
	n := 20
	if g.Size {
		n = pickOf(r, 20, 20, 30, 21, 300)
		if g.Big {
			n = pickOf(r, 4096, 8192, 32767, 32768, 40000, 60000, 65535, 65536, 70000, 131072)
		}
	}
	rep.Body = uniqueBody(id, n)
	if r.P(20) {
		rep.Body = varyBody(r, rep.Body)
	}
	if r.P(20) {
		// metadata is compared ignoring case.
		mixed := Style{R: r}
		if rep.Media != nil {
			m := *rep.Media
			m.T, m.S, m.Params = mixed.token(m.T), mixed.token(m.S), append([]Param(nil), m.Params...)
			for i := range m.Params {
				m.Params[i].K = mixed.token(m.Params[i].K)
			}
			rep.CT = m.String()
		}
		rep.Lang, rep.Charset = mixed.token(rep.Lang), mixed.token(rep.Charset)
		for i := range rep.Enc {
			rep.Enc[i] = mixed.token(rep.Enc[i])
		}
	}
	rep.Loc = *mustURL(g.location(id))
	if g.Features && r.P(60) {
		rep.FeatEls = genFeatureList(r)
		rep.Feat = renderFeatureList(r, rep.FeatEls)
	} else if g.AnyFeatures && r.P(20) {
		rep.Feat = shuffled(r, []string{"tables", "", "tables", "a b", "[", "\u00e9", "x;+1.5"})[:r.Range(1, 5)]
	}
	return rep
}

func (g *Gen) reps(n int) []*Rep {
	out := make([]*Rep, n)
	for i := range out {
		out[i] = g.rep(i)
	}
	return out
}

// size of an offer: usually a few, sometimes more than any cutoff of a sort.
func (g *Gen) offerSize() int {
	return offerSize(g.R, g.R.Range(1, 7))
}

// offerSize is usually the given size, sometimes more than any cutoff of a
// sort, and rarely more than fits a byte.
func offerSize(r *Rand, usual int) int {
	switch n := r.Intn(500); {
	case n == 0:
		if r.Intn(10) == 0 {
			return pickOf(r, 400, 511, 513, 700, 1025)
		}
		return pickOf(r, 64, 65, 100, 128, 255, 256, 257, 300)
	case n < 50:
		return r.Range(13, 40)
	}
	return usual
}

// wildParams generates the parameters of a wildcard.
func (g *Gen) wildParams(p int) []Param {
	r := g.R
	if !g.Params || !r.P(p) {
		return nil
	}
	return pickOf(r, []Param{{"charset", "utf-8"}}, []Param{{"version", "1"}}, []Param{{"charset", "utf-8"}, {"version", "1"}})
}

func (g *Gen) accept() []MRange {
	r := g.R
	var out []MRange
	seen := map[string]bool{}
	add := func(m Media) {
		if k := m.String(); !seen[k] {
			seen[k] = true
			out = append(out, MRange{m, g.weight(g.Zero)})
		}
	}
	n := r.Range(1, 6)
	if len(g.Types) > len(typePool) {
		n = r.Range(1, 60)
	}
	for i := 0; i < n; i++ {
		m := pick(r, g.Types)
		switch r.Intn(10) {
		case 0:
			add(Media{T: "*", S: "*", Params: g.wildParams(5)})
		case 1, 2:
			add(Media{T: m.T, S: "*", Params: g.wildParams(15)})
		case 3:
			if g.Level {
				add(Media{"text", "html", []Param{{"level", strconv.Itoa(pickOf(r, 1, 2, 3, 10, 128, 65536))}}})
			} else {
				add(m)
			}
		case 4:
			if g.Params {
				add(Media{m.T, m.S, []Param{pickOf(r, Param{"charset", "utf-8"}, Param{"charset", "us-ascii"}, Param{"profile", pick(r, profiles)})}})
			} else {
				add(m)
			}
		case 5:
			if g.Params {
				add(Media{m.T, m.S, []Param{{"charset", "utf-8"}, {"version", pickOf(r, "1", "2")}}})
			} else {
				add(m)
			}
		default:
			add(m)
		}
	}
	return out
}

func (g *Gen) tokens(pool []string, wildcard int) []TRange {
	r := g.R
	var out []TRange
	n := r.Range(1, len(pool))
	for _, i := range r.Perm(len(pool))[:n] {
		out = append(out, TRange{pool[i], g.weight(g.Zero)})
	}
	if r.P(wildcard) {
		out = append(out, TRange{"*", g.weight(g.Zero)})
		if r.P(50) {
			out = shuffled(r, out)
		}
	}
	return out
}

// req generates a request; each header is present with the given probability.
func (g *Gen) req(present int) Req {
	r := g.R
	var q Req
	if r.P(present) {
		q.Accept = g.accept()
	}
	if r.P(present) {
		q.Lang = g.tokens(g.Langs, 30)
		if r.P(10) {
			q.Lang = append(q.Lang, TRange{pick(r, unknownLang), g.weight(g.Zero)})
			if r.P(70) {
				q.Lang = shuffled(r, q.Lang)
			}
		}
	}
	if r.P(present) {
		q.Charset = g.tokens(g.Charsets, 30)
	}
	if r.P(present) {
		q.Enc = g.tokens(codingPool, 30)
		if r.P(15) {
			q.Enc = append(q.Enc, TRange{pick(r, unknownEnc), g.weight(g.Zero)})
		}
	}
	return q
}

func tokensKey(ts []TRange) string {
	var b strings.Builder
	for _, t := range ts {
		fmt.Fprintf(&b, "%s=%d,", t.Name, t.Q)
	}
	return b.String()
}

func (q Req) key() string {
	var b strings.Builder
	for _, m := range q.Accept {
		fmt.Fprintf(&b, "%s=%d,", m.Media.String(), m.Q)
	}
	for _, ts := range [][]TRange{q.Lang, q.Charset, q.Enc} {
		b.WriteString("|" + tokensKey(ts))
	}
	for _, f := range q.Feat {
		b.WriteString("|" + f.String())
	}
	b.WriteString("|" + strings.Join(q.Negotiate, ","))
	return b.String()
}

func offerKey(rs []*Rep) string {
	var b strings.Builder
	for _, r := range rs {
		b.WriteString(r.String())
	}
	return b.String()
}

func headerString(h http.Header) string {
	var parts []string
	for _, k := range []string{"Accept", "Accept-Language", "Accept-Charset", "Accept-Encoding", "Accept-Features", "Negotiate"} {
		if v, ok := h[k]; ok {
			parts = append(parts, fmt.Sprintf("%s: %q", k, v))
		}
	}
	return strings.Join(parts, "; ")
}

func describe(c *Case, h http.Header, rs []*Rep) {
	c.Desc("request headers: %s", headerString(h))
	for _, r := range rs {
		c.Desc("offered %s", r)
	}
}

// ---------------------------------------------------------------------------
// Features.

// FPred is a feature predicate: Op is one of "", "!", "=", "!=", "range".
type FPred struct {
	Op, Tag, Val string
	Lo, Hi       int // -1 is missing.
}

func (p FPred) String() string {
	switch p.Op {
	case "range":
		lo, hi := "", ""
		if p.Lo >= 0 {
			lo = strconv.Itoa(p.Lo)
		}
		if p.Hi >= 0 {
			hi = strconv.Itoa(p.Hi)
		}
		return p.Tag + "=[" + lo + "-" + hi + "]"
	case "":
		return p.Tag
	case "!":
		return "!" + p.Tag
	}
	return p.Tag + p.Op + p.Val
}

// FElem is an element of a feature list. Factors are in ten-thousandths, -1 is
// missing.
type FElem struct {
	Bag    bool
	Preds  []FPred
	Ti, Fd int
}

var featureTags = []string{"tables", "fonts", "color", "screen.width", "x-blebber", "javascript", "table", "tables.max", "x-color", "color-depth"}

func genPred(r *Rand) FPred {
	p := FPred{Tag: pick(r, featureTags), Lo: -1, Hi: -1}
	switch r.Intn(5) {
	case 0:
	case 1:
		p.Op = "!"
	case 2:
		p.Op, p.Val = "=", genFeatureValue(r)
	case 3:
		p.Op, p.Val = "!=", genFeatureValue(r)
	case 4:
		p.Op = "range"
		if r.P(75) {
			p.Lo = pickOf(r, 0, 1, 5, 9, 10, 640, 641)
			if r.P(6) {
				p.Lo = pickOf(r, 1<<15, 1<<31-1, 1<<31, 1<<32-1, 1<<32, 1<<24+1, 1<<53, 1<<53+1, 1<<53+2, math.MaxInt64-1000)
			}
		}
		if r.P(75) {
			lo := p.Lo
			if lo < 0 {
				lo = 0
			}
			p.Hi = lo + pickOf(r, 0, 1, 5, 10, 700)
		}
	}
	return p
}

func genFeatureValue(r *Rand) string {
	if r.P(6) {
		// numbers at the limits of machine words, and beyond.
		return pickOf(r, "32768", "2147483647", "2147483648", "4294967296", "16777217", "9007199254740993", "9223372036854775807", "9223372036854775808", "18446744073709551616", "100000000000000000000")
	}
	return pickOf(r, "5", "9", "10", "640", "1024", "tv", "TV", "high", "0", "1", "2", "010", "05", "2.5", "65536")
}

func genFeatureList(r *Rand) []FElem {
	n := pickOf(r, 1, 1, 2, 3, r.Range(1, 12))
	var els []FElem
	for i := 0; i < n; i++ {
		e := FElem{Ti: -1, Fd: -1}
		if r.P(35) {
			e.Bag = true
			for k := pickOf(r, 1, 2, 3, r.Range(4, 9)); k > 0; k-- {
				e.Preds = append(e.Preds, genPred(r))
			}
		} else {
			e.Preds = []FPred{genPred(r)}
		}
		if r.P(45) {
			e.Ti = pickOf(r, 10000, 9000, 5000, 12000, 8000, 4000, 15000, 20000, 30000, 0, 9990, 5040, 10010, 3333, 9996)
		}
		if r.P(45) {
			e.Fd = pickOf(r, 0, 5000, 2500, 9000, 10000, 100, 13000, 20000, 5040, 10, 9990, 6667, 1)
		}
		els = append(els, e)
	}
	if r.Intn(150) == 0 {
		// many that are indifferent.
		for k := pickOf(r, 12, 16, 20, 31, 33, 63, 65, 100, 129, 257); k > 0; k-- {
			els = append(els, FElem{Preds: []FPred{genPred(r)}, Ti: 10000, Fd: 10000})
		}
		return shuffled(r, els)
	}
	return els
}

func renderFeatureList(r *Rand, els []FElem) []string {
	factor := func(f int) string {
		switch {
		case f == 10000:
			return pickOf(r, "1", "1.0", "1.00", "1.000", "1.0000")
		case f == 0:
			return pickOf(r, "0", "0.0", "0.0000")
		case f%1000 == 0 && r.Bool():
			return fmt.Sprintf("%d.%d", f/10000, f%10000/1000)
		case f%100 == 0 && r.Bool():
			return fmt.Sprintf("%d.%02d", f/10000, f%10000/100)
		case f%10 == 0 && r.Bool():
			return fmt.Sprintf("%d.%03d", f/10000, f%10000/10)
		}
		return fmt.Sprintf("%d.%04d", f/10000, f%10000)
	}
	var out []string
	for _, e := range els {
		var preds []string
		for _, p := range e.Preds {
			if r.P(20) {
				p.Tag = strings.ToUpper(p.Tag)
			}
			preds = append(preds, p.String())
		}
		s := preds[0]
		if e.Bag {
			sep := pickOf(r, " ", "  ")
			s = "[" + pickOf(r, " ", "") + strings.Join(preds, sep) + pickOf(r, " ", "") + "]"
		}
		if e.Ti >= 0 || e.Fd >= 0 {
			s += ";"
			if e.Ti >= 0 {
				s += "+" + factor(e.Ti)
			}
			if e.Fd >= 0 {
				s += "-" + factor(e.Fd)
			}
		}
		out = append(out, s)
	}
	return out
}

// quotedValue generates a value that only a quoted string can hold.
func quotedValue(r *Rand) string {
	v := genFeatureValue(r)
	if r.P(30) {
		return `"` + pickOf(r, "=", "!=", "!", ",", ";", "", " ", "*", "{}", "[1-9]", "tv,!tables", "a, b") + `"`
	}
	return `"` + pickOf(r, "=", "!=", "!", ",", ", ", "", " ", "{", "<", "0", "\\") + v + pickOf(r, "", "", "=", "!=1", ",x", "}", " ") + `"`
}

// genFeatures generates a consistent Accept-Features header.
func genFeatures(r *Rand) []FExpr {
	var out []FExpr
	for _, tag := range featureTags {
		if r.P(35) {
			continue
		}
		switch r.Intn(5) {
		case 0:
			out = append(out, FExpr{"", tag, ""})
		case 1:
			out = append(out, FExpr{"!", tag, ""})
		case 2:
			seen := map[string]bool{}
			for k := r.Range(1, 3); k > 0; k-- {
				if v := genFeatureValue(r); !seen[v] {
					seen[v] = true
					if r.P(20) {
						out = append(out, FExpr{"=", tag, `"` + v + `"`})
					} else {
						out = append(out, FExpr{"=", tag, v})
					}
				}
			}
			if r.P(20) {
				// quoted values may hold what is elsewhere a delimiter.
				out = append(out, FExpr{"=", tag, quotedValue(r)})
			}
		case 3:
			v := genFeatureValue(r)
			if r.P(20) {
				v = quotedValue(r)
			}
			out = append(out, FExpr{"={}", tag, v})
		case 4:
			v := genFeatureValue(r)
			if r.P(15) {
				v = quotedValue(r)
			}
			out = append(out, FExpr{"!=", tag, v})
			if w := genFeatureValue(r); w != v && r.Bool() {
				out = append(out, FExpr{"=", tag, w})
			}
		}
	}
	if r.Bool() {
		out = shuffled(r, out)
	}
	return out
}
