package main

import (
	"bytes"
	"compress/flate"
	"compress/gzip"
	"compress/lzw"
	"compress/zlib"
	"encoding/json"
	"encoding/xml"
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/freerware/negotiator/representation"
	"gopkg.in/yaml.v2"
)

func init() {
	register(&Property{
		ID:   "C13",
		More: 3,
		Rule: "documents and lists of every size in every supported media type, spelled in several ways, with sequences of up to five codings, serialized and deserialized by the library; the values are compared. " +
			"Non-trivial: at least one coding other than identity; distinct by type, codings and value.",
		Subs: []Sub{
			{Name: "documents", Quick: 12000, Thorough: 400000, Run: c13Documents},
			{Name: "lists", Quick: 6000, Thorough: 200000, Run: c13Lists},
			{Name: "exhaustive-codings", Quick: 1555, Thorough: 1555, Run: c13Codings},
			{Name: "large", Quick: 40, Thorough: 600, Run: c13Large},
		},
		MinEvents: []string{"type:application/json", "type:application/xml", "type:application/yaml", "type:text/yaml", "type:text/html",
			"coding:gzip", "coding:x-gzip", "coding:deflate", "coding:compress", "coding:x-compress", "coding:identity", "codings:0", "codings:1", "codings:2", "codings:3", "large"},
	})
	register(&Property{
		ID:   "C14",
		More: 4,
		Rule: "documents and lists of every size with sequences of up to five codings, decoded from last to first by the decoders of the standard library, which must consume every byte and give the plain serialization. " +
			"Non-trivial: at least one coding other than identity; distinct by type, codings and value.",
		Subs: []Sub{
			{Name: "decode", Quick: 12000, Thorough: 400000, Run: c14Decode},
			{Name: "exhaustive-codings", Quick: 1555, Thorough: 1555, Run: c14Codings},
			{Name: "sizes", Quick: 200, Thorough: 4000, Run: c14Sizes},
			{Name: "wire-format", Quick: 40, Thorough: 400, Run: c14Wire},
		},
		MinEvents: []string{"decoded:gzip", "decoded:x-gzip", "decoded:deflate", "decoded:compress", "decoded:x-compress", "decoded:identity", "decoded:stacked", "size:0", "size:large"},
	})
	register(&Property{
		ID: "C15",
		Rule: "every truncation, bit flips, extensions and splices of encoded documents, and arbitrary bytes, given to deserialization; the error or value is judged by what the outermost coding can detect. " +
			"Non-trivial: the bytes differ from the valid ones; distinct by bytes and codings.",
		Subs: []Sub{
			{Name: "truncation", Quick: 1500, Thorough: 40000, Run: c15Truncation},
			{Name: "flips", Quick: 1500, Thorough: 40000, Run: c15Flips},
			{Name: "mismatch", Quick: 6000, Thorough: 200000, Run: c15Mismatch},
			{Name: "garbage", Quick: 20000, Thorough: 500000, Run: c15Garbage},
			{Name: "failing-reader", Quick: 6000, Thorough: 200000, Run: c15FailingReader},
		},
		MinEvents: []string{"truncation:reported", "flip:reported", "flip:harmless", "extension:harmless", "mismatch:reported", "garbage:reported", "reader-error:reported", "checksum-only"},
	})
	register(&Property{
		ID:   "C16",
		More: 8,
		Rule: "custom marshallers, unmarshallers and codings that record every call, composed into sequences, with a failure injected at every step, and unsupported types and codings at every position; " +
			"the calls, results and errors are compared with the configuration. Non-trivial: distinct by configuration.",
		Subs: []Sub{
			{Name: "custom-codecs", Quick: 30000, Thorough: 600000, Run: c16Custom},
			{Name: "unsupported", Quick: 15000, Thorough: 300000, Run: c16Unsupported},
			{Name: "serializers", Quick: 15000, Thorough: 300000, Run: c16Serializers},
		},
		MinEvents: []string{"encoded", "decoded", "fail:write", "fail:close", "fail:construct", "fail:read", "unsupported:type", "unsupported:coding-first", "unsupported:coding-later", "marshaller-error", "unmarshaller-error", "default-replaced"},
	})
}

var (
	mediaTypes = []string{"application/json", "application/xml", "application/yaml", "text/yaml", "text/html"}
	allCodings = []string{"gzip", "x-gzip", "deflate", "compress", "x-compress", "identity"}
)

// rich is a value with everything JSON, XML and YAML agree on.
type rich struct {
	representation.Base `json:"-" xml:"-" yaml:"-"`

	Title  string   `json:"title" xml:"title" yaml:"title"`
	Count  int64    `json:"count" xml:"count" yaml:"count"`
	Ratio  float64  `json:"ratio" xml:"ratio" yaml:"ratio"`
	Flag   bool     `json:"flag" xml:"flag" yaml:"flag"`
	Lines  []string `json:"lines" xml:"lines" yaml:"lines"`
	Nested []part   `json:"nested" xml:"nested" yaml:"nested"`
}

type part struct {
	Name string `json:"name" xml:"name" yaml:"name"`
	N    int    `json:"n" xml:"n" yaml:"n"`
}

func (d rich) Bytes() ([]byte, error)    { return d.Base.Bytes(&d) }
func (d *rich) FromBytes(b []byte) error { return d.Base.FromBytes(b, d) }

var _ representation.Representation = (*rich)(nil)

func (d *rich) value() string {
	return fmt.Sprintf("%q %d %v %v %q %+v", d.Title, d.Count, d.Ratio, d.Flag, d.Lines, d.Nested)
}

// specialText is sometimes a text that one of the formats has to quote.
func specialText(r *Rand) string {
	if !r.P(20) {
		return randText(r, 30)
	}
	return pickOf(r, "", "yes", "no", "null", "~", "true", "123", "-1", "0x1F", "1e3", ".inf", "010", "2020-01-01", "- a", "a: b", "# c", "a #b", "%x", "@", "`", "&a", "*a", "!t", "|", ">", "{}", "[]", "{a: b}",
		" lead", "trail ", "  ", "a  b", "\"", "'", "\\", "\\n", "<b>&amp;</b>", "]]>", "<!-- -->", "<?xml?>", "&#10;", "%s%d", "\u00e9", "\u2028", "\U0001f600", "\u4e16\u754c", "\u007f", "\u0085", "\u00a0", "?", ":", "-", "---", "...", "=", "<<",
		"a\nb", "a\n", "\n", "\ta", "a\tb", "a\n\nb\n  c", "\r\n")
}

func genRich(r *Rand, size int) *rich {
	d := &rich{Title: specialText(r), Count: int64(r.U64()) >> r.Intn(60), Ratio: float64(r.Range(-1000000, 1000000)) / 1024, Flag: r.Bool()}
	for len(strings.Join(d.Lines, "")) < size {
		if r.Bool() {
			d.Lines = append(d.Lines, randText(r, 80))
		} else {
			d.Lines = append(d.Lines, strings.Repeat("abc", r.Range(1, 40)))
		}
	}
	k := r.Intn(4)
	if r.Intn(200) == 0 {
		k = pickOf(r, 17, 33, 65, 101, 129, 257, 513, 1025)
	}
	for ; k > 0; k-- {
		d.Nested = append(d.Nested, part{specialText(r), r.Range(-9, 9)})
	}
	return d
}

func spellType(r *Rand, mt string) string {
	b := Style{R: r}.token(mt)
	switch r.Intn(5) {
	case 0:
		return b + ";charset=utf-8"
	case 1:
		return b + pickOf(r, " ", "\t", "  \t ") + "; charset=\"utf-8\"; version=1"
	}
	return b
}

func genCodings(r *Rand, max int) []string {
	var out []string
	if r.Intn(60) == 0 {
		max = pickOf(r, 7, 8, 9, 10, 12, 17)
	}
	for k := r.Range(0, max); k > 0; k-- {
		out = append(out, pick(r, allCodings))
	}
	return out
}

func spellCodings(r *Rand, codings []string) []string {
	var out []string
	for _, e := range codings {
		out = append(out, Style{R: r}.token(e))
	}
	return out
}

func countCodings(c *Case, mt string, codings []string) {
	c.Count("type:" + mt)
	c.Count(fmt.Sprintf("codings:%d", len(codings)))
	for _, e := range codings {
		c.Count("coding:" + e)
	}
}

func effective(codings []string) (out []string) {
	for _, e := range codings {
		if e = strings.ToLower(e); e != "identity" {
			out = append(out, e)
		}
	}
	return
}

func c13RoundTrip(c *Case, mt, ct string, codings, spelled []string, d *rich) {
	countCodings(c, mt, codings)
	d.SetContentType(ct)
	d.SetContentEncoding(spelled)
	c.Desc("%s as %q with %q", d.value(), ct, spelled)
	b, err := d.Bytes()
	c.Eval(1)
	if err != nil {
		c.Fail("serialization failed: %v", err)
		return
	}
	var back rich
	back.SetContentType(ct)
	back.SetContentEncoding(spelled)
	if err = back.FromBytes(b); err != nil {
		c.Fail("deserialization failed: %v", err)
		return
	}
	if len(effective(codings)) > 0 {
		c.Nontrivial(ct, strings.Join(codings, ","), d.value())
	}
	if back.value() != d.value() {
		c.Fail("deserialized into %s", back.value())
	}
	c.Sample(map[string]any{"type": ct, "codings": spelled, "bytes": len(b)})
}

func c13Documents(c *Case) {
	r := c.R
	mt := pick(r, mediaTypes)
	codings := genCodings(r, pickOf(r, 0, 1, 2, 3, 5))
	c13RoundTrip(c, mt, spellType(r, mt), codings, spellCodings(r, codings), genRich(r, pickOf(r, 0, 0, 100, 1000, 5000)))
}

// nthCodings enumerates every sequence of up to three codings, and four of the
// distinct ones: 1 + 6 + 36 + 216 + 1296 sequences.
func nthCodings(n int) []string {
	for length, count := 0, 1; ; length, count = length+1, count*len(allCodings) {
		if n < count {
			var out []string
			for k := 0; k < length; k++ {
				out = append(out, allCodings[n%len(allCodings)])
				n /= len(allCodings)
			}
			return out
		}
		n -= count
	}
}

func c13Codings(c *Case) {
	mt := mediaTypes[c.Idx%len(mediaTypes)]
	codings := nthCodings(c.Idx)
	c13RoundTrip(c, mt, mt, codings, codings, genRich(c.R, 200))
}

func c13Large(c *Case) {
	r := c.R
	mt := pickOf(r, "application/json", "application/xml", "text/html")
	codings := genCodings(r, 3)
	c.Count("large")
	d := &rich{Title: "large"}
	for k := 0; k < 3; k++ {
		b := make([]byte, r.Range(1, 400000))
		for i := range b {
			b[i] = "abcdefgh01234567"[r.U64()&15]
		}
		d.Lines = append(d.Lines, string(b))
	}
	c.Desc("large document")
	d.SetContentType(mt)
	d.SetContentEncoding(codings)
	b, err := d.Bytes()
	c.Eval(1)
	if err != nil {
		c.Fail("serialization failed: %v", err)
		return
	}
	var back rich
	back.SetContentType(mt)
	back.SetContentEncoding(codings)
	if err = back.FromBytes(b); err != nil {
		c.Fail("deserialization of %q failed: %v", codings, err)
	} else if back.value() != d.value() {
		c.Fail("a large document with %q doesn't survive", codings)
	}
	c.Nontrivial(mt, strings.Join(codings, ","), fmt.Sprint(c.Idx))
}

func c13Lists(c *Case) {
	r := c.R
	mt := pick(r, mediaTypes)
	codings := genCodings(r, 3)
	countCodings(c, mt, codings)
	n := r.Range(0, 12)
	if n > 0 {
		n = offerSize(r, n)
	}
	reps := genListed(r, n)
	ct, ce := spellType(r, mt), spellCodings(r, codings)
	var l, back representation.List
	for _, x := range []*representation.List{&l, &back} {
		x.SetContentType(ct)
		x.SetContentEncoding(ce)
	}
	l.SetRepresentations(asReps(reps)...)
	c.Desc("list of %d as %q with %q", len(reps), ct, ce)
	b, err := l.Bytes()
	c.Eval(1)
	if err != nil {
		c.Fail("serialization failed: %v", err)
		return
	}
	if err = back.FromBytes(b); err != nil {
		c.Fail("deserialization failed: %v", err)
		return
	}
	if len(effective(codings)) > 0 {
		c.Nontrivial(ct, strings.Join(codings, ","), offerKey(reps))
	}
	if len(back.Representations) != len(l.Representations) {
		c.Fail("%d entries became %d", len(l.Representations), len(back.Representations))
		return
	}
	for i := range l.Representations {
		if x, y := fmt.Sprintf("%+v", l.Representations[i]), fmt.Sprintf("%+v", back.Representations[i]); x != y {
			c.Fail("entry %s became %s", x, y)
		}
	}
}

// ---------------------------------------------------------------------------

func plainSerialization(mt string, v any) ([]byte, error) {
	switch strings.ToLower(mt) {
	case "application/json":
		return json.Marshal(v)
	case "application/xml", "text/html":
		return xml.Marshal(v)
	}
	return yaml.Marshal(v)
}

// drainAll reads a decoder to its end and requires it to have consumed all of
// its input.
func drainAll(r io.Reader, in *bytes.Reader) ([]byte, error) {
	out, err := io.ReadAll(r)
	if err != nil {
		return nil, err
	}
	if in.Len() > 0 {
		return nil, fmt.Errorf("%d bytes follow the encoded content", in.Len())
	}
	return out, nil
}

// decodeIndependently undoes a coding according to its specification
// (RFC 7230, section 4.2). The key says how the format deviates, if it does.
func decodeIndependently(coding string, b []byte) (out []byte, deviation string, err error) {
	in := bytes.NewReader(b)
	switch coding {
	case "gzip", "x-gzip":
		z, err := gzip.NewReader(in)
		if err != nil {
			return nil, "", err
		}
		z.Multistream(false)
		out, err = drainAll(z, in)
		return out, "", err
	case "deflate":
		// the zlib format.
		if z, zerr := zlib.NewReader(in); zerr == nil {
			out, err = drainAll(z, in)
			return out, "", err
		}
		in = bytes.NewReader(b)
		out, err = drainAll(flate.NewReader(in), in)
		return out, "wire-format:deflate:raw-deflate-stream", err
	case "compress", "x-compress":
		// the UNIX compress format: LZW with a magic number.
		if len(b) > 3 && b[0] == 0x1f && b[1] == 0x9d {
			out, err = io.ReadAll(lzw.NewReader(bytes.NewReader(b[3:]), lzw.LSB, 8))
			return out, "", err
		}
		z, err := zlib.NewReader(in)
		if err != nil {
			return nil, "", err
		}
		out, err = drainAll(z, in)
		return out, "wire-format:compress:zlib-stream", err
	case "identity":
		return b, "", nil
	}
	return nil, "", fmt.Errorf("unknown coding %s", coding)
}

func c14Judge(c *Case, mt string, codings []string, b, plain []byte, strict bool) {
	c.Eval(1)
	for i := len(codings) - 1; i >= 0; i-- {
		out, deviation, err := decodeIndependently(codings[i], b)
		if err != nil {
			c.Fail("the %s layer (coding %d of %q) can't be decoded: %v; it starts with % x", codings[i], i+1, codings, err, head(b, 12))
			return
		}
		if strict && deviation != "" {
			c.FailKey(deviation, "the content coded with %s isn't in the format that this coding stands for: %s", codings[i], deviation)
		}
		c.Count("decoded:" + codings[i])
		b = out
	}
	if n := len(effective(codings)); n > 1 {
		c.Count("decoded:stacked")
	}
	if !bytes.Equal(b, plain) {
		c.Fail("decoding %q gives %d bytes %.80q, want %d bytes %.80q", codings, len(b), b, len(plain), plain)
	}
}

func head(b []byte, n int) []byte {
	if len(b) > n {
		return b[:n]
	}
	return b
}

func c14Run(c *Case, mt string, codings []string, size int) {
	d := genRich(c.R, size)
	d.SetContentType(mt)
	d.SetContentEncoding(codings)
	c.Desc("%s with %q of %.200s", mt, codings, d.value())
	b, err := d.Bytes()
	if err != nil {
		c.Fail("serialization failed: %v", err)
		return
	}
	plain, err := plainSerialization(mt, d)
	must(err)
	if len(effective(codings)) > 0 {
		c.Nontrivial(mt, strings.Join(codings, ","), d.value())
	}
	c14Judge(c, mt, codings, b, plain, false)
	c.Sample(map[string]any{"type": mt, "codings": codings, "encoded": len(b), "plain": len(plain)})
}

func c14Decode(c *Case) {
	r := c.R
	c14Run(c, pick(r, mediaTypes), genCodings(r, pickOf(r, 1, 1, 2, 3, 5)), pickOf(r, 0, 100, 1000, 5000))
}

func c14Codings(c *Case) {
	c14Run(c, mediaTypes[c.Idx%len(mediaTypes)], nthCodings(c.Idx), 150)
}

// c14Sizes serializes raw bytes of particular sizes, compressible or not.
func c14Sizes(c *Case) {
	r := c.R
	sizes := []int{0, 1, 2, 31, 32, 33, 255, 256, 511, 512, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 100000, 1 << 20}
	n := sizes[c.Idx%len(sizes)]
	if r.P(30) {
		n = r.Intn(200000)
	}
	switch {
	case n == 0:
		c.Count("size:0")
	case n >= 65535:
		c.Count("size:large")
	}
	raw := make([]byte, n)
	mask := pickOf(r, uint64(0), 1, 15, 255)
	for i := range raw {
		raw[i] = byte(r.U64() & mask)
	}
	codings := genCodings(r, 3)
	var base representation.Base
	base.SetContentType("application/octet-stream")
	base.SetContentEncoding(codings)
	base.SetMarshallers(map[string]representation.Marshaller{"application/octet-stream": func(v interface{}) ([]byte, error) { return v.([]byte), nil }})
	c.Desc("%d raw bytes with %q", n, codings)
	b, err := base.Bytes(raw)
	if err != nil {
		c.Fail("serialization failed: %v", err)
		return
	}
	c.Nontrivial(fmt.Sprint(n, mask), strings.Join(codings, ","))
	c14Judge(c, "application/octet-stream", codings, b, raw, false)
}

// c14Wire judges the format of each coding alone against its specification.
func c14Wire(c *Case) {
	coding := allCodings[c.Idx%len(allCodings)]
	d := genRich(c.R, 300)
	d.SetContentType("application/json")
	d.SetContentEncoding([]string{coding})
	b, err := d.Bytes()
	if err != nil {
		c.Fail("serialization failed: %v", err)
		return
	}
	plain, err := json.Marshal(d)
	must(err)
	c14Judge(c, "application/json", []string{coding}, b, plain, true)
}

// ---------------------------------------------------------------------------

func checksummed(coding string) bool { return coding != "deflate" && coding != "identity" }

// encodeIndependently applies a coding in the library's wire format.
func encodeIndependently(coding string, b []byte) []byte {
	var buf bytes.Buffer
	var w io.WriteCloser
	switch coding {
	case "gzip", "x-gzip":
		w = gzip.NewWriter(&buf)
	case "compress", "x-compress":
		w = zlib.NewWriter(&buf)
	case "deflate":
		var err error
		w, err = flate.NewWriter(&buf, 6)
		must(err)
	default:
		return b
	}
	_, err := w.Write(b)
	must(err)
	must(w.Close())
	return buf.Bytes()
}

type c15Setup struct {
	mt      string
	codings []string
	outer   string // outermost coding other than identity.
	doc     *rich
	valid   []byte
}

func (s *c15Setup) decode(b []byte) (*rich, error) {
	var d rich
	d.SetContentType(s.mt)
	d.SetContentEncoding(s.codings)
	err := d.FromBytes(b)
	return &d, err
}

func newC15(c *Case, size int) *c15Setup {
	r := c.R
	s := &c15Setup{mt: pick(r, mediaTypes), doc: genRich(r, size)}
	for s.outer == "" {
		s.codings = genCodings(r, 3)
		if e := effective(s.codings); len(e) > 0 {
			s.outer = e[len(e)-1]
		}
	}
	s.doc.SetContentType(s.mt)
	s.doc.SetContentEncoding(s.codings)
	b, err := s.doc.Bytes()
	if err != nil {
		c.Fail("serialization failed: %v", err)
		return nil
	}
	s.valid = b
	c.Desc("%s with %q, %d bytes", s.mt, s.codings, len(b))
	return s
}

func c15Truncation(c *Case) {
	s := newC15(c, pickOf(c.R, 0, 50, 400))
	if s == nil {
		return
	}
	step := 1
	if len(s.valid) > 200 {
		step = 1 + c.R.Intn(5)
	}
	for n := len(s.valid) - 1; n >= 0; n-- {
		if n < len(s.valid)-30 && n%step != 0 {
			continue
		}
		c.Eval(1)
		d, err := s.decode(s.valid[:n:n])
		if err == nil {
			c.Fail("a truncation from %d to %d bytes isn't reported: %.200s", len(s.valid), n, d.value())
			return
		}
		c.Count("truncation:reported")
	}
	c.Nontrivial(string(s.valid), strings.Join(s.codings, ","))
	c.Sample(map[string]any{"codings": s.codings, "bytes": len(s.valid), "truncations": "every length"})
}

func c15Flips(c *Case) {
	r := c.R
	s := newC15(c, pickOf(r, 0, 50, 300))
	if s == nil {
		return
	}
	for k := 0; k < 60; k++ {
		b := append([]byte{}, s.valid...)
		what := ""
		switch r.Intn(5) {
		case 0:
			i := r.Intn(len(b))
			b[i] ^= 1 << r.Intn(8)
			what = fmt.Sprintf("bit flip in byte %d", i)
		case 1:
			// the trailer holds the checksum.
			i := len(b) - 1 - r.Intn(min(8, len(b)))
			b[i] ^= byte(1 + r.Intn(255))
			what = fmt.Sprintf("change of byte %d near the end", i)
		case 2:
			i := r.Intn(len(b))
			b = append(b[:i], b[i+1:]...)
			what = fmt.Sprintf("removal of byte %d", i)
		case 3:
			i := r.Intn(len(b))
			b = append(b[:i], append([]byte{byte(r.U64())}, b[i:]...)...)
			what = fmt.Sprintf("insertion at byte %d", i)
		case 4:
			for k := r.Range(1, 20); k > 0; k-- {
				b = append(b, byte(r.U64()))
			}
			what = "extension"
		}
		if bytes.Equal(b, s.valid) {
			continue
		}
		c.Eval(1)
		c.Nontrivial(string(b), strings.Join(s.codings, ","))
		d, err := s.decode(b)
		kind := "flip"
		if what == "extension" {
			kind = "extension"
		}
		switch {
		case err != nil:
			c.Count(kind + ":reported")
		case d.value() == s.doc.value():
			c.Count(kind + ":harmless")
		case checksummed(s.outer):
			c.Fail("%s isn't reported: %.300s", what, d.value())
			return
		default:
			c.Count(kind + ":undetectable")
		}
	}
	if s.outer == "gzip" || s.outer == "x-gzip" {
		// the same content in several members, which decoders must not stop after.
		inner, _, err := decodeIndependently(s.outer, s.valid)
		must(err)
		var members []byte
		for rest, last := inner, false; !last; {
			n := r.Intn(len(rest) + 1)
			if last = r.P(40); last {
				n = len(rest)
			}
			members = append(members, encodeIndependently(s.outer, rest[:n])...)
			rest = rest[n:]
		}
		c.Eval(1)
		if d, err := s.decode(members); err != nil {
			c.Count("members:reported")
		} else if d.value() == s.doc.value() {
			c.Count("members:decoded")
		} else {
			c.Fail("content in several members is cut: %.300s", d.value())
			return
		}
	}
	// a corrupt checksum alone, under inner codings that don't need to read it.
	for i := len(s.codings) - 1; i >= 0; i-- {
		if e := s.codings[i]; e != "identity" {
			if !checksummed(e) {
				return
			}
			break
		}
	}
	b := append([]byte{}, s.valid...)
	i := len(b) - 1
	if strings.HasSuffix(s.outer, "gzip") {
		i = len(b) - 5 - r.Intn(4)
	}
	b[i] ^= 0xff
	c.Eval(1)
	c.Count("checksum-only")
	if d, err := s.decode(b); err == nil {
		c.Fail("a wrong checksum of the outermost coding isn't reported: %.300s", d.value())
	}
}

// c15Mismatch declares other codings than the content has.
func c15Mismatch(c *Case) {
	r := c.R
	s := newC15(c, 60)
	if s == nil {
		return
	}
	other := genCodings(r, 3)
	same := func(a, b []string) bool {
		norm := strings.NewReplacer("x-", "")
		return norm.Replace(strings.Join(effective(a), ",")) == norm.Replace(strings.Join(effective(b), ","))
	}
	if same(other, s.codings) {
		c.Skip("the codings are equivalent")
		return
	}
	declared := &c15Setup{mt: s.mt, codings: other, doc: s.doc}
	d, err := declared.decode(s.valid)
	c.Eval(1)
	c.Desc("declared as %q", other)
	c.Nontrivial(strings.Join(other, ","), strings.Join(s.codings, ","), s.mt)
	switch {
	case err != nil:
		c.Count("mismatch:reported")
	case d.value() == s.doc.value():
		c.Fail("the document was decoded although other codings were declared")
	default:
		e := effective(other)
		if len(e) > 0 && checksummed(e[len(e)-1]) {
			c.Fail("content with %q is accepted as %q: %.200s", s.codings, other, d.value())
		} else {
			c.Count("mismatch:undetectable")
		}
	}
}

func c15Garbage(c *Case) {
	r := c.R
	s := &c15Setup{mt: pick(r, mediaTypes), codings: genCodings(r, 3)}
	b := make([]byte, r.Intn(60))
	for i := range b {
		b[i] = byte(r.U64())
	}
	// garbage below a valid outer layer.
	e := effective(s.codings)
	if len(e) > 0 && r.Bool() {
		b = encodeIndependently(e[len(e)-1], b)
		if r.Bool() && len(b) > 0 {
			b = b[:r.Intn(len(b))]
		}
	}
	c.Desc("%q given to %s with %q", b, s.mt, s.codings)
	c.Eval(1)
	c.Nontrivial(string(b), strings.Join(s.codings, ","), s.mt)
	if _, err := s.decode(b); err != nil {
		c.Count("garbage:reported")
	} else {
		c.Count("garbage:accepted")
	}
}

// failingReader is a coding that fails while reading or closing.
type failingReader struct {
	io.Reader
	left     int
	readErr  error
	closeErr error
}

func (f *failingReader) Read(b []byte) (int, error) {
	if f.readErr != nil {
		if f.left == 0 {
			return 0, f.readErr
		}
		if len(b) > f.left {
			b = b[:f.left]
		}
		n, err := f.Reader.Read(b)
		f.left -= n
		if err == io.EOF {
			err = f.readErr
		}
		return n, err
	}
	return f.Reader.Read(b)
}

func (f *failingReader) Close() error { return f.closeErr }

func c15FailingReader(c *Case) {
	r := c.R
	boom := errors.New("boom")
	n := r.Range(1, 4)
	at := r.Intn(n)
	how := pickOf(r, "read", "close", "construct")
	readers := map[string]representation.EncodingReaderConstructor{}
	var codings []string
	for i := 0; i < n; i++ {
		i := i
		name := fmt.Sprintf("x-%d", i)
		codings = append(codings, name)
		readers[name] = func(in io.Reader) (io.ReadCloser, error) {
			f := &failingReader{Reader: in}
			if i == at {
				switch how {
				case "read":
					f.readErr, f.left = boom, r.Intn(20)
				case "close":
					f.closeErr = boom
				case "construct":
					return nil, boom
				}
			}
			return f, nil
		}
	}
	var d rich
	d.SetContentType("application/json")
	d.SetContentEncoding(codings)
	d.SetEncodingReaders(readers)
	c.Desc("coding %d of %d fails to %s", at+1, n, how)
	plain, err := json.Marshal(genRich(r, 40))
	must(err)
	err = d.FromBytes(plain)
	c.Eval(1)
	c.Nontrivial(fmt.Sprint(at, n, how, len(plain)))
	if !errors.Is(err, boom) {
		c.Fail("the error isn't returned, but %v", err)
	} else {
		c.Count("reader-error:reported")
	}
}

// ---------------------------------------------------------------------------

// recCoding is a coding that frames its input as name(input), holding back
// everything until it is closed, and records what happens to it.
type recCoding struct {
	name     string
	out      io.Writer
	buf      bytes.Buffer
	writes   int
	closed   int
	afterEnd int
	failOn   string
	err      error
	hold     int // 0: everything until Close; 1: nothing; 2: all but the last byte.
	open     bool
}

func (w *recCoding) Write(b []byte) (int, error) {
	w.writes++
	if w.closed > 0 {
		w.afterEnd++
	}
	if w.failOn == "write" {
		return 0, w.err
	}
	w.buf.Write(b)
	if w.hold == 1 {
		if err := w.emit(w.buf.Len()); err != nil {
			return 0, err
		}
	} else if w.hold == 2 && w.buf.Len() > 1 {
		if err := w.emit(w.buf.Len() - 1); err != nil {
			return 0, err
		}
	}
	return len(b), nil
}

func (w *recCoding) emit(n int) error {
	if !w.open {
		w.open = true
		if _, err := io.WriteString(w.out, w.name+"("); err != nil {
			return err
		}
	}
	_, err := w.out.Write(w.buf.Next(n))
	return err
}

func (w *recCoding) Close() error {
	w.closed++
	if w.failOn == "close" {
		return w.err
	}
	if err := w.emit(w.buf.Len()); err != nil {
		return err
	}
	_, err := io.WriteString(w.out, ")")
	return err
}

// unframe reads name(...) and gives what is inside.
type unframe struct {
	name   string
	in     io.Reader
	rest   *bytes.Reader
	err    error
	reads  *int
	closed *int
	fail   error
}

func (u *unframe) Read(b []byte) (int, error) {
	*u.reads++
	if u.fail != nil {
		return 0, u.fail
	}
	if u.rest == nil {
		all, err := io.ReadAll(u.in)
		if err != nil {
			return 0, err
		}
		s := string(all)
		if !strings.HasPrefix(s, u.name+"(") || !strings.HasSuffix(s, ")") {
			return 0, fmt.Errorf("not framed by %s: %q", u.name, s)
		}
		u.rest = bytes.NewReader([]byte(s[len(u.name)+1 : len(s)-1]))
	}
	return u.rest.Read(b)
}

func (u *unframe) Close() error { *u.closed++; return nil }

func c16Custom(c *Case) {
	r := c.R
	boom := errors.New("boom")
	names := []string{"aa", "bb", "cc", "gzip"} // gzip replaces the default.
	failOn, failAt := "", -1
	n := r.Range(1, 4)
	var codings []string
	for k := 0; k < n; k++ {
		codings = append(codings, pickOf(r, "aa", "bb", "cc", "gzip", "identity"))
	}
	eff := effective(codings)
	if r.P(35) && len(eff) > 0 {
		failOn, failAt = pickOf(r, "write", "close", "construct"), r.Intn(len(eff))
	}
	// the n-th constructed writer is the one for the n-th last coding.
	var made []*recCoding
	writers := map[string]representation.EncodingWriterConstructor{}
	failName := ""
	if failAt >= 0 {
		failName = eff[failAt]
	}
	for _, name := range names {
		name := name
		writers[name] = func(out io.WriteCloser) (io.WriteCloser, error) {
			w := &recCoding{name: name, out: out, err: boom, hold: r.Intn(3)}
			if name == failName {
				if failOn == "construct" {
					return nil, boom
				}
				w.failOn = failOn
			}
			made = append(made, w)
			return w, nil
		}
	}
	var d rich
	d.Title = randText(r, 30)
	marshalled := []byte("<" + randText(r, 100) + ">")
	if r.P(25) {
		edge := pickOf(r, "\n", " ", "\t\r\n", "\ufeff", "\x00", "\x00\x00", "\xff\xfe", "\u00a0", "null", "{}", "\x1a", "\x1f\x8b")
		switch r.Intn(4) {
		case 0:
			marshalled = append([]byte(edge), marshalled...)
		case 1:
			marshalled = append(marshalled, edge...)
		case 2:
			marshalled = append(append([]byte(edge), marshalled...), edge...)
		case 3:
			marshalled = []byte(edge)
		}
		c.Count("edge-bytes")
	}
	calls := 0
	d.SetContentType(spellType(r, "application/x-custom"))
	d.SetContentEncoding(spellCodings(r, codings))
	d.SetMarshallers(map[string]representation.Marshaller{"application/x-custom": func(v interface{}) ([]byte, error) {
		calls++
		if got, ok := v.(*rich); !ok || got.Title != d.Title {
			return nil, fmt.Errorf("marshalling %v", v)
		}
		return append([]byte{}, marshalled...), nil
	}})
	d.SetEncodingWriters(writers)
	b, err := d.Bytes()
	c.Eval(1)
	c.Desc("codings %q, failing: %s of %q", codings, failOn, failName)
	c.Nontrivial(strings.Join(codings, ","), failOn, failName, string(marshalled))
	if calls != 1 {
		c.Fail("the marshaller was called %d times", calls)
	}
	if failAt >= 0 {
		c.Count("fail:" + failOn)
		if !errors.Is(err, boom) {
			c.Fail("the error of the coding isn't returned, but %v", err)
		}
		return
	}
	if err != nil {
		c.Fail("serialization failed: %v", err)
		return
	}
	c.Count("encoded")
	want := string(marshalled)
	for _, e := range eff {
		want = e + "(" + want + ")"
		if e == "gzip" {
			c.Count("default-replaced")
		}
	}
	if string(b) != want {
		c.Fail("encoded into %q, want %q", b, want)
	}
	if len(made) != len(eff) {
		c.Fail("%d coding writers were constructed for %q", len(made), codings)
	}
	for _, w := range made {
		if w.closed != 1 || w.afterEnd > 0 {
			c.Fail("the writer of %s was closed %d times and written to %d times after that", w.name, w.closed, w.afterEnd)
		}
	}

	// and back.
	reads, closed, constructed := 0, 0, 0
	readers := map[string]representation.EncodingReaderConstructor{}
	failRead := -1
	if r.P(20) && len(eff) > 0 {
		failRead = r.Intn(len(eff))
	}
	for _, name := range names {
		name := name
		readers[name] = func(in io.Reader) (io.ReadCloser, error) {
			u := &unframe{name: name, in: in, reads: &reads, closed: &closed}
			constructed++
			if failRead == constructed-1 {
				u.fail = boom
			}
			return u, nil
		}
	}
	var back rich
	got := ""
	back.SetContentType(spellType(r, "application/x-custom"))
	back.SetContentEncoding(spellCodings(r, codings))
	back.SetEncodingReaders(readers)
	back.SetUnmarshallers(map[string]representation.Unmarshaller{"application/x-custom": func(b []byte, v interface{}) error {
		if v != interface{}(&back) {
			return errors.New("another value")
		}
		got = string(b)
		return nil
	}})
	err = back.FromBytes(b)
	c.Eval(1)
	if failRead >= 0 {
		c.Count("fail:read")
		if !errors.Is(err, boom) {
			c.Fail("the error of reader %d isn't returned, but %v", failRead, err)
		}
		if got != "" {
			c.Fail("content was unmarshalled although its decoding failed")
		}
		return
	}
	if err != nil || got != string(marshalled) {
		c.Fail("decoded into %q, %v, want %q", got, err, marshalled)
	} else {
		c.Count("decoded")
	}
	if constructed != len(eff) || closed != len(eff) {
		c.Fail("%d readers were constructed and %d closed for %q", constructed, closed, codings)
	}
	c.Sample(map[string]any{"codings": codings, "encoded": string(b)})
}

func c16Unsupported(c *Case) {
	r := c.R
	d := genRich(r, 20)
	plain, err := json.Marshal(d)
	must(err)
	ct := "application/json"
	var codings []string
	custom := r.Bool()
	for k := r.Intn(3); k > 0; k-- {
		if custom {
			codings = append(codings, pickOf(r, "aa", "identity"))
		} else {
			codings = append(codings, pick(r, allCodings))
		}
	}
	var want error
	what := ""
	if r.P(30) {
		ct = pickOf(r, "", "text/plain", "application/octet-stream", "json", "application/jsonx", "application/x-json", ";charset=utf-8", "text/xml",
			"application/hal+json", "application/problem+json;charset=utf-8", "image/svg+xml", "application/xhtml+xml", "application/x+yaml", "application/json+x", "text/json", "text/yml",
			"application/x-yaml", "application/*", "*/*", "text/*", "text/htm", "text/html5", "application/jso", "application /json", "application/json/x", "application/json,text/html")
		want, what = representation.ErrUnsupportedContentType, "unsupported:type"
		c.Count(what)
	} else {
		bad := pickOf(r, "br", "zstd", "", "*", "gzip ;q=1", "xgzip", "lzw", "x-deflate", "x-identity", "gzip2", "gzi", "zlib", "identity;q=1", "gzip,deflate", "gzip, identity", "compressed", "none", "exi")
		if custom {
			// the defaults are replaced.
			bad = pickOf(r, "gzip", "deflate", "compress", "br", "bb")
		}
		i := r.Intn(len(codings) + 1)
		codings = append(codings[:i:i], append([]string{bad}, codings[i:]...)...)
		want = representation.ErrUnsupportedContentEncoding
		if i == 0 {
			c.Count("unsupported:coding-first")
		} else {
			c.Count("unsupported:coding-later")
		}
	}
	if custom {
		d.SetEncodingWriters(map[string]representation.EncodingWriterConstructor{"aa": func(w io.WriteCloser) (io.WriteCloser, error) { return &recCoding{name: "aa", out: w}, nil }})
		d.SetEncodingReaders(map[string]representation.EncodingReaderConstructor{"aa": func(rd io.Reader) (io.ReadCloser, error) { return io.NopCloser(rd), nil }})
	}
	if r.P(25) {
		// whatever there is to encode.
		text := pickOf(r, "", "x", strings.Repeat("x", 5000))
		d.SetMarshallers(map[string]representation.Marshaller{"application/json": func(interface{}) ([]byte, error) { return []byte(text), nil }})
	}
	d.SetContentType(ct)
	d.SetContentEncoding(codings)
	c.Desc("type %q, codings %q, custom %v", ct, codings, custom)
	c.Nontrivial(ct, strings.Join(codings, ","), fmt.Sprint(custom))
	b, err := d.Bytes()
	c.Eval(1)
	if !errors.Is(err, want) {
		c.Fail("serialization gives %v, want %v", err, want)
	}
	if len(b) > 0 {
		c.Fail("serialization gives %q although it failed", b)
	}
	var back rich
	back.Base = d.Base
	err = back.FromBytes(plain)
	c.Eval(1)
	if err == nil || what != "" && !errors.Is(err, want) {
		c.Fail("deserialization gives %v, want %v", err, want)
	}
	if back.Title != "" {
		c.Fail("the value was filled in although deserialization failed")
	}
	// with the unsupported coding in last position nothing else can fail first.
	if what == "" {
		last := codings[len(codings)-1]
		if !custom && (last == "br" || last == "zstd") || custom && last != "aa" && last != "identity" {
			if !errors.Is(err, want) {
				c.Fail("deserialization gives %v, want %v", err, want)
			}
		}
	}
}

func c16Serializers(c *Case) {
	r := c.R
	boom := errors.New("boom")
	var d rich
	names := []string{"application/json", "text/html", "application/x-one", "application/x-two"}
	name := pick(r, names)
	called := ""
	m := map[string]representation.Marshaller{}
	u := map[string]representation.Unmarshaller{}
	fails, none := r.P(30), r.P(20)
	for _, k := range names {
		k := k
		m[k] = func(interface{}) ([]byte, error) {
			called += "m:" + k
			if fails {
				return []byte("partial"), boom
			}
			if none {
				return nil, nil
			}
			return []byte("by " + k), nil
		}
		u[k] = func(b []byte, v interface{}) error {
			called += "u:" + k + ":" + string(b)
			if fails {
				return boom
			}
			return nil
		}
	}
	d.SetContentType(spellType(r, name))
	codings := genCodings(r, 2)
	d.SetContentEncoding(codings)
	if r.P(25) {
		c16Replaced(c, &d, name, codings, m, u)
		return
	}
	d.SetMarshallers(m)
	d.SetUnmarshallers(u)
	c.Desc("%q with %q, failing %v", d.ContentType(), codings, fails)
	c.Nontrivial(d.ContentType(), strings.Join(codings, ","), fmt.Sprint(fails))
	text := "by " + name
	if none && !fails {
		text = ""
	}
	b, err := d.Bytes()
	c.Eval(1)
	if called != "m:"+name {
		c.Fail("called %q", called)
	}
	if fails {
		c.Count("marshaller-error")
		if err != boom {
			c.Fail("the marshaller's error isn't returned, but %v", err)
		}
		b = encodeAll(codings, []byte(text))
	} else if err != nil {
		c.Fail("serialization failed: %v", err)
		return
	}
	called = ""
	err = d.FromBytes(b)
	c.Eval(1)
	if called != "u:"+name+":"+text {
		c.Fail("called %q", called)
	}
	if fails {
		c.Count("unmarshaller-error")
		if err != boom {
			c.Fail("the unmarshaller's error isn't returned, but %v", err)
		}
	} else if err != nil {
		c.Fail("deserialization failed: %v", err)
	}
}

// c16Replaced configures serializers that don't support the media type, which
// the defaults may support.
func c16Replaced(c *Case, d *rich, name string, codings []string, m map[string]representation.Marshaller, u map[string]representation.Unmarshaller) {
	r := c.R
	name = pickOf(r, name, "application/json", "application/xml", "application/yaml", "text/html")
	d.SetContentType(spellType(r, name))
	b, err := d.Bytes()
	def := name != "application/x-one" && name != "application/x-two"
	if c.Eval(1); def != (err == nil) {
		c.Fail("serializing %q with the defaults: %v", name, err)
		return
	}
	if !def {
		b = encodeAll(codings, []byte("text"))
	}
	delete(m, name)
	delete(u, name)
	if r.P(30) {
		// all that is left is a type that nobody asks for.
		m = map[string]representation.Marshaller{"application/x-three": func(interface{}) ([]byte, error) { return []byte("three"), nil }}
		u = map[string]representation.Unmarshaller{"application/x-three": func([]byte, interface{}) error { return nil }}
	}
	// either of them can be configured without the other.
	which := pickOf(r, 1, 2, 3)
	if which&1 != 0 {
		d.SetMarshallers(m)
	}
	if which&2 != 0 {
		d.SetUnmarshallers(u)
	}
	c.Desc("%q with %q, not configured (%d)", d.ContentType(), codings, which)
	c.Count("replaced-defaults")
	c.Nontrivial("replaced", d.ContentType(), strings.Join(codings, ","), fmt.Sprint(which))
	got, err := d.Bytes()
	c.Eval(1)
	if which&1 == 0 && def {
		if err != nil || !bytes.Equal(got, b) {
			c.Fail("the default marshaller doesn't apply: %v", err)
		}
	} else if err != representation.ErrUnsupportedContentType || len(got) > 0 {
		c.Fail("serializing a media type that isn't configured: %d bytes, %v", len(got), err)
	}
	err = d.FromBytes(b)
	c.Eval(1)
	if which&2 == 0 && def {
		if err != nil {
			c.Fail("the default unmarshaller doesn't apply: %v", err)
		}
	} else if err != representation.ErrUnsupportedContentType {
		c.Fail("deserializing a media type that isn't configured: %v", err)
	}
}

func encodeAll(codings []string, b []byte) []byte {
	for _, e := range codings {
		b = encodeIndependently(e, b)
	}
	return b
}
