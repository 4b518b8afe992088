package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/freerware/negotiator"
	"github.com/freerware/negotiator/representation"
)

func init() {
	register(&Property{
		ID: "C27",
		Rule: "clients send requests at the same time over HTTP/1.1 (kept-alive and closed connections) and HTTP/2 to a server whose handlers negotiate, all with the same negotiators; what each client reads from its connection " +
			"(status, headers, framing, body) is compared with the outcome of the same negotiation performed alone and recorded at the response writer, and with the offer. Non-trivial: distinct by request, offer and protocol.",
		Subs: []Sub{
			{Name: "clients", Quick: 2500, Thorough: 60000, Run: c27Clients},
			{Name: "stalled", Quick: 10, Thorough: 160, Run: c27Stalled},
		},
		MinEvents: []string{"kind:proactive", "kind:reactive", "kind:transparent", "protocol:1", "protocol:2", "status:200", "status:201", "status:204", "status:300", "status:406", "status:500",
			"method:HEAD", "method:POST", "reused-connection", "together", "stalled", "gone"},
	})
}

// pipes is a network of its own: a listener whose connections are pipes.
type pipes struct {
	conns chan net.Conn
	done  chan struct{}
	once  sync.Once
	dials int
	mu    sync.Mutex
}

func newPipes() *pipes { return &pipes{conns: make(chan net.Conn), done: make(chan struct{})} }

func (p *pipes) Accept() (net.Conn, error) {
	select {
	case c := <-p.conns:
		return c, nil
	case <-p.done:
		return nil, net.ErrClosed
	}
}

func (p *pipes) Close() error { p.once.Do(func() { close(p.done) }); return nil }

func (p *pipes) Addr() net.Addr { return &net.UnixAddr{Name: "pipes", Net: "unix"} }

func (p *pipes) dial(ctx context.Context, _, _ string) (net.Conn, error) {
	client, server := net.Pipe()
	select {
	case p.conns <- server:
		p.mu.Lock()
		p.dials++
		p.mu.Unlock()
		return client, nil
	case <-p.done:
	case <-ctx.Done():
	}
	client.Close()
	server.Close()
	return nil, errors.New("no server")
}

// exchange is a request with the offer that it is answered from.
type exchange struct {
	conf     config
	job      job
	reps     []*Rep
	neg      negotiator.Negotiator
	want     Outcome
	panicked atomic.Value

	proto  int
	status int
	header http.Header
	length int64
	body   []byte
	err    error

	// how the client behaves: it reads so many bytes, and then pauses or goes away.
	reads int
	pause time.Duration
	gone  bool
}

const errorPrefix = "negotiation failed: "

func genExchanges(c *Case) []*exchange {
	r := c.R
	var out []*exchange
	for k := r.Range(1, 3); k > 0; k-- {
		kind := pickOf(r, "proactive", "proactive", "transparent", "transparent", "reactive")
		conf := genConfig(r, kind)
		neg := conf.build(nil, nil)
		c.Count("kind:" + kind)
		c.Desc("%s", conf)
		offers, next := genOffer(r, kind, 14)
		if r.P(8) {
			offers = nil
		}
		for n := r.Range(1, 4); n > 0; n-- {
			x := &exchange{conf: conf, neg: neg, job: next()}
			x.job.tls = false
			if x.job.host == "" {
				x.job.host = "example.com"
			}
			x.job.target = "http://" + strings.ToLower(x.job.host) + "/r/index"
			for k, vs := range x.job.h {
				// what cannot be sent is not a request.
				if len(vs) == 0 {
					delete(x.job.h, k)
					continue
				}
				for i, v := range vs {
					vs[i] = strings.Map(func(c rune) rune {
						if c < ' ' && c != '\t' || c == 127 {
							return '?'
						}
						return c
					}, strings.Trim(v, " \t"))
				}
				x.job.h[k] = vs
			}
			// the answer says whose it is.
			id := len(out)
			for _, o := range offers {
				o = o.clone()
				o.Body = append(o.Body, fmt.Sprintf("client%02d", id)...)
				if r.P(4) {
					o.Err, o.FailFrom = errors.New("cannot be read"), r.Range(1, 3)
				}
				x.reps = append(x.reps, o)
			}
			out = append(out, x)
		}
	}
	return out
}

// alone performs the negotiation by itself, as the server hands it over.
func (x *exchange) alone() {
	j := x.job
	j.target = "/r/index"
	reps := make([]representation.Representation, len(x.reps))
	for i, o := range x.reps {
		reps[i] = o.clone()
	}
	x.want = j.perform(x.conf.build(nil, nil), reps)
}

func (x *exchange) ServeHTTP(w http.ResponseWriter, req *http.Request) {
	for k, v := range x.job.preset {
		w.Header()[k] = append([]string(nil), v...)
	}
	defer func() {
		if p := recover(); p != nil {
			x.panicked.Store(fmt.Sprint(p))
			panic(http.ErrAbortHandler)
		}
	}()
	if err := x.neg.Negotiate(negotiator.NegotiationContext{ResponseWriter: w, Request: req, IsCreation: x.job.creation}, asReps(x.reps)...); err != nil {
		http.Error(w, errorPrefix+err.Error(), http.StatusInternalServerError)
	}
}

func (x *exchange) send(client *http.Client, id int) {
	req, err := http.NewRequest(x.job.method, x.job.target, nil)
	must(err)
	for k, v := range x.job.h {
		req.Header[k] = append([]string(nil), v...)
	}
	req.Host = x.job.host
	req.Header.Set("X-Exchange", strconv.Itoa(id))
	resp, err := client.Do(req)
	if err != nil {
		x.err = err
		return
	}
	defer resp.Body.Close()
	x.proto, x.status, x.header, x.length = resp.ProtoMajor, resp.StatusCode, resp.Header, resp.ContentLength
	if x.reads > 0 {
		start := make([]byte, x.reads)
		n, err := io.ReadFull(resp.Body, start)
		x.body = start[:n]
		if err == io.EOF || err == io.ErrUnexpectedEOF {
			return
		}
		if x.err = err; err != nil || x.gone {
			return
		}
		time.Sleep(x.pause)
	}
	rest, err := io.ReadAll(resp.Body)
	x.body, x.err = append(x.body, rest...), err
}

// judge compares what the client got with the outcome.
func (x *exchange) judge() error {
	switch {
	case x.want.Panic != nil || x.panicked.Load() != nil:
		return fmt.Errorf("panic: %v, %v", x.want.Panic, x.panicked.Load())
	case x.err != nil:
		return fmt.Errorf("the client got no complete response: %v", x.err)
	case x.want.Err != nil:
		if x.status != 500 || !strings.HasPrefix(string(x.body), errorPrefix) && x.job.method != "HEAD" {
			return fmt.Errorf("negotiation fails with %q, but the client got status %d with %.80q", x.want.Err, x.status, x.body)
		}
		for _, k := range []string{"Alternates", "Tcn", "Content-Location", "Content-Language", "Content-Charset", "Content-Encoding"} {
			if _, ok := x.header[k]; ok {
				return fmt.Errorf("negotiation fails, but the client got the header %s: %q", k, x.header[k])
			}
		}
		return nil
	}
	if x.status != x.want.StatusCode() {
		return fmt.Errorf("the client got status %d, but alone: %s", x.status, x.want.Short())
	}
	for k, v := range x.want.Header {
		var trimmed []string
		for _, s := range v {
			trimmed = append(trimmed, strings.TrimSpace(s))
		}
		got := x.header[http.CanonicalHeaderKey(k)]
		if strings.Join(got, "\x00") != strings.Join(trimmed, "\x00") || len(got) != len(trimmed) {
			return fmt.Errorf("the client got %s: %q, but alone it is %q", k, got, v)
		}
	}
	for k, v := range x.header {
		if _, ok := x.want.Header[k]; !ok && (strings.HasPrefix(k, "Content-") && k != "Content-Length" && k != "Content-Type" || k == "Alternates" || k == "Tcn") {
			return fmt.Errorf("the client got %s: %q, which is absent alone", k, v)
		}
	}
	if x.job.method == "HEAD" {
		if len(x.body) > 0 {
			return fmt.Errorf("%d body bytes in response to HEAD", len(x.body))
		}
		return nil
	}
	if !bytes.Equal(x.body, x.want.Body) {
		return fmt.Errorf("the client got %d body bytes %.120q, but alone it is %d bytes %.120q", len(x.body), x.body, len(x.want.Body), x.want.Body)
	}
	if x.status != 204 && x.length >= 0 && x.length != int64(len(x.body)) {
		return fmt.Errorf("announced %d bytes, got %d", x.length, len(x.body))
	}
	if x.status == 200 || x.status == 201 {
		id, ok := repID(x.body)
		if !ok || id >= len(x.reps) || !bytes.Equal(x.body, x.reps[id].Body) {
			return fmt.Errorf("the client got status %d with what nobody offered it: %.120q", x.status, x.body)
		}
	}
	return nil
}

// serve starts a server that answers the exchanges, and a client for it.
func serve(all []*exchange, http1 bool, transport *http.Transport) (*pipes, *http.Client, func()) {
	net := newPipes()
	protocols := new(http.Protocols)
	protocols.SetHTTP1(http1)
	protocols.SetUnencryptedHTTP2(!http1)
	server := &http.Server{Protocols: protocols, ErrorLog: log.New(io.Discard, "", 0), Handler: http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
		id, err := strconv.Atoi(req.Header.Get("X-Exchange"))
		must(err)
		req.Header.Del("X-Exchange")
		all[id].ServeHTTP(w, req)
	})}
	go server.Serve(net)
	transport.DialContext, transport.DisableCompression, transport.Protocols, transport.MaxIdleConnsPerHost = net.dial, true, protocols, 100
	client := &http.Client{Transport: transport, Timeout: 120 * time.Second}
	return net, client, func() {
		transport.CloseIdleConnections()
		server.Close()
	}
}

func c27Clients(c *Case) {
	r := c.R
	all := genExchanges(c)
	before := r.Bool()
	if before {
		for _, x := range all {
			x.alone()
		}
	}
	http1 := !r.P(30)
	net, client, stop := serve(all, http1, &http.Transport{DisableKeepAlives: r.P(20), MaxConnsPerHost: pickOf(r, 0, 0, 1, 2)})
	defer stop()
	var wg sync.WaitGroup
	each := r.P(70)
	for id, x := range all {
		wg.Add(1)
		go func() {
			defer wg.Done()
			x.send(client, id)
		}()
		if !each {
			wg.Wait()
		}
	}
	wg.Wait()
	if each && len(all) > 1 {
		c.Count("together")
	}
	if !before {
		for _, x := range all {
			x.alone()
		}
	}
	net.mu.Lock()
	if net.dials < len(all) {
		c.Count("reused-connection")
	}
	net.mu.Unlock()
	c.Eval(len(all))
	for _, x := range all {
		c.Count(fmt.Sprintf("protocol:%d", x.proto))
		c.Count(fmt.Sprintf("status:%d", x.status))
		c.Count("method:" + x.job.method)
		c.Nontrivial(x.job.key(), offerKey(x.reps), strconv.Itoa(x.proto))
		if err := x.judge(); err != nil {
			c.Desc("HTTP/%d %s", x.proto, x.job.key())
			for _, o := range x.reps {
				c.Desc("offered %s", o)
			}
			c.Fail("%v", err)
			return
		}
	}
	c.Sample(map[string]any{"clients": len(all), "connections": net.dials, "first": all[0].job.key(), "status": all[0].status, "headers": headerSig(all[0].header)})
}

// c27Stalled has clients that pause in the middle of a response or go away.
func c27Stalled(c *Case) {
	r := c.R
	var all []*exchange
	for len(all) < 40 {
		more := genExchanges(c)
		// a response doesn't fit into the buffers between server and client.
		large := r.Range(5, 200) * 1024
		for _, x := range more {
			for _, o := range x.reps {
				id := len(all)
				o.Body = append(o.Body, bytes.Repeat([]byte(fmt.Sprintf("%02d ", id)), large/3)...)
				o.Loc.RawQuery = strings.Repeat("q", r.Range(0, 1500))
			}
			x.reads = r.Range(1, 3000)
			switch {
			case r.P(15):
				x.gone = true
			case r.P(70):
				x.pause = time.Duration(r.Range(1, 25)) * 100 * time.Millisecond
			}
			all = append(all, x)
		}
	}
	for _, x := range all {
		x.alone()
	}
	_, client, stop := serve(all, !r.P(20), &http.Transport{DisableKeepAlives: r.P(20)})
	defer stop()
	var wg sync.WaitGroup
	for id, x := range all {
		wg.Add(1)
		go func() {
			defer wg.Done()
			x.send(client, id)
		}()
	}
	wg.Wait()
	c.Eval(len(all))
	for _, x := range all {
		if x.gone {
			c.Count("gone")
			continue
		}
		if x.pause > 0 && len(x.body) > x.reads {
			c.Count("stalled")
		}
		c.Nontrivial("stalled", x.job.key(), offerKey(x.reps), strconv.Itoa(x.proto))
		if err := x.judge(); err != nil {
			c.Desc("HTTP/%d %s, pause of %v after %d bytes", x.proto, x.job.key(), x.pause, x.reads)
			c.Fail("%.2000v", err)
			return
		}
	}
	c.Sample(map[string]any{"clients": len(all), "first": all[0].job.key(), "status": all[0].status})
}
