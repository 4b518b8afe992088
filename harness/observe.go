package main

import (
	"bytes"
	"crypto/tls"
	"errors"
	"fmt"
	"io"
	"net/http"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/freerware/negotiator"
	"github.com/freerware/negotiator/representation"
)

// Recorder is an http.ResponseWriter that records every call as an event.
type Recorder struct {
	H      http.Header
	Events []string // "status:<n>" and "write:<n>".
	Status []int
	// AtStatus is a copy of the headers when the first status was written.
	AtStatus http.Header
	Body     bytes.Buffer

	// FailAfter makes writes fail once that many bytes were taken, if >= 0.
	FailAfter int
	WriteErr  error
	// WriteFailed says that a write failed.
	WriteFailed bool
}

func NewRecorder() *Recorder { return &Recorder{H: http.Header{}, FailAfter: -1} }

func (r *Recorder) Header() http.Header { return r.H }

func (r *Recorder) WriteHeader(status int) {
	r.Events = append(r.Events, "status:"+strconv.Itoa(status))
	r.Status = append(r.Status, status)
	if r.AtStatus == nil {
		r.AtStatus = r.H.Clone()
	}
}

func (r *Recorder) Write(b []byte) (int, error) {
	r.Events = append(r.Events, "write:"+strconv.Itoa(len(b)))
	if r.FailAfter >= 0 {
		room := r.FailAfter - r.Body.Len()
		if room < len(b) || r.FailAfter == 0 {
			if room < 0 {
				room = 0
			}
			if room > len(b) {
				room = len(b)
			}
			r.Body.Write(b[:room])
			r.WriteFailed = true
			return room, r.WriteErr
		}
	}
	return r.Body.Write(b)
}

// capableWriter is a response writer with what the response writers of a server
// offer beyond http.ResponseWriter. As there, anything that reaches the client
// first writes the status 200.
type capableWriter struct {
	http.ResponseWriter
	rec *Recorder
}

func (w capableWriter) Flush() {
	if len(w.rec.Status) == 0 {
		w.rec.Events = append(w.rec.Events, "flush")
		w.WriteHeader(http.StatusOK)
	}
}

func (w capableWriter) FlushError() error { w.Flush(); return nil }

func (w capableWriter) WriteString(s string) (int, error) { return w.Write([]byte(s)) }

func (w capableWriter) ReadFrom(src io.Reader) (int64, error) {
	b, err := io.ReadAll(src)
	n, werr := w.Write(b)
	if err == nil {
		err = werr
	}
	return int64(n), err
}

func (w capableWriter) SetWriteDeadline(time.Time) error { return nil }

func (w capableWriter) Push(string, *http.PushOptions) error { return http.ErrNotSupported }

// writer is the response writer that records to rec. Which one depends on the
// negotiation only.
func writer(rec *Recorder, req *http.Request, reps int) http.ResponseWriter {
	if (reps+len(req.Header))%3 == 0 {
		return capableWriter{rec, rec}
	}
	return rec
}

// Outcome is everything observed of one negotiation.
type Outcome struct {
	Err      error
	Panic    any
	Stack    string
	Status   []int
	Header   http.Header // when the status was written.
	Final    http.Header
	Body     []byte
	Events   []string
	WriteErr bool
}

// StatusCode is the only status written, or 0.
func (o Outcome) StatusCode() int {
	if len(o.Status) == 1 {
		return o.Status[0]
	}
	return 0
}

// Served is the id of the representation in the body, or -1.
func (o Outcome) Served() int {
	if id, ok := repID(o.Body); ok {
		return id
	}
	return -1
}

func headerSig(h http.Header) string {
	var keys []string
	for k := range h {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var b strings.Builder
	for _, k := range keys {
		fmt.Fprintf(&b, "%s=%q;", k, h[k])
	}
	return b.String()
}

// Sig is the complete response in one string.
func (o Outcome) Sig() string {
	if o.Panic != nil {
		return fmt.Sprintf("panic: %v", o.Panic)
	}
	e := ""
	if o.Err != nil {
		e = "error"
	}
	return fmt.Sprintf("%v %s headers{%s} body(%d)%q", o.Status, e, headerSig(o.Final), len(o.Body), o.Body)
}

func (o Outcome) Short() string {
	switch {
	case o.Panic != nil:
		return fmt.Sprintf("panic: %v", o.Panic)
	case o.Err != nil:
		return fmt.Sprintf("error %q, statuses %v, %d body bytes", o.Err, o.Status, len(o.Body))
	}
	s := fmt.Sprintf("status %v, %d body bytes", o.Status, len(o.Body))
	if id := o.Served(); id >= 0 {
		s += fmt.Sprintf(", representation #%d", id)
	}
	return s
}

func (o Outcome) nothingAnswered(initial http.Header) error {
	if len(o.Status) > 0 {
		return fmt.Errorf("status %v was written", o.Status)
	}
	if len(o.Events) > 0 {
		return fmt.Errorf("response events %v", o.Events)
	}
	if headerSig(o.Final) != headerSig(initial) {
		return fmt.Errorf("headers were set: %s", headerSig(o.Final))
	}
	return nil
}

func observe(rec *Recorder, f func() error) (o Outcome) {
	func() {
		defer func() {
			if p := recover(); p != nil {
				if hp, ok := p.(harnessError); ok {
					panic(hp)
				}
				o.Panic, o.Stack = p, string(debug.Stack())
			}
		}()
		o.Err = f()
	}()
	o.Status = rec.Status
	o.Header = rec.AtStatus
	o.Final = rec.H
	o.Body = rec.Body.Bytes()
	o.Events = rec.Events
	o.WriteErr = rec.WriteFailed
	return o
}

func negotiateOn(n negotiator.Negotiator, rec *Recorder, req *http.Request, creation bool, reps []representation.Representation) Outcome {
	return observe(rec, func() error {
		return n.Negotiate(negotiator.NegotiationContext{ResponseWriter: writer(rec, req, len(reps)), Request: req, IsCreation: creation}, reps...)
	})
}

func negotiate(n negotiator.Negotiator, req *http.Request, reps []*Rep) Outcome {
	return negotiateOn(n, NewRecorder(), req, false, asReps(reps))
}

const resourceURL = "http://example.com/r/index"

// checkListHeaders checks that the headers of a list response state the given
// metadata once, and the exact body length.
func checkMeta(o Outcome, want map[string]string) error {
	if o.Header == nil {
		return errors.New("no status was written")
	}
	for k, v := range want {
		got := o.Header[k]
		if len(got) != 1 || got[0] != v {
			return fmt.Errorf("header %s is %q, want %q once", k, got, v)
		}
	}
	return nil
}

// metaOf is the metadata that a response carrying a representation must state.
func metaOf(r representation.Representation, body []byte, withLocation bool) map[string]string {
	m := map[string]string{
		"Content-Type":     r.ContentType(),
		"Content-Language": r.ContentLanguage(),
		"Content-Charset":  r.ContentCharset(),
		"Content-Encoding": strings.Join(r.ContentEncoding(), ","),
		"Content-Length":   strconv.Itoa(len(body)),
	}
	if withLocation {
		loc := r.ContentLocation()
		m["Content-Location"] = loc.String()
	}
	return m
}

// checkOrder checks that the status is written exactly once, before any body
// byte, and that no header changed afterwards.
func checkOrder(o Outcome) error {
	if len(o.Status) != 1 {
		return fmt.Errorf("status written %d times: %v", len(o.Status), o.Events)
	}
	if !strings.HasPrefix(o.Events[0], "status:") {
		return fmt.Errorf("body written before the status: %v", o.Events)
	}
	if headerSig(o.Header) != headerSig(o.Final) {
		return fmt.Errorf("headers changed after the status: %s, then %s", headerSig(o.Header), headerSig(o.Final))
	}
	return nil
}

func lenientEncodingEq(a, b string) bool {
	norm := func(s string) string { return strings.ReplaceAll(s, " ", "") }
	return norm(a) == norm(b)
}

var tlsState = &tls.ConnectionState{}
