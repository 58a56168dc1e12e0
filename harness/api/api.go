//go:build go1.25

// Package api sends requests to the node's HTTP server. Inside a synctest
// bubble the handlers are called directly; should the server ever stop using
// the default mux, it listens on a real port and everything runs in real time.
package api

import (
	"bytes"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"runtime/debug"
	"strings"
	"sync"
	"time"

	"github.com/levilutz/basiccoin/internal/bus"
	"github.com/levilutz/basiccoin/internal/inv"
	"github.com/levilutz/basiccoin/internal/rest"
	"github.com/levilutz/basiccoin/internal/zverif/pbt"
	"github.com/levilutz/basiccoin/pkg/core"
)

// Mounted says whether the server's handlers can be reached without a port.
var Mounted = sync.OnceValue(func() bool {
	old := http.DefaultServeMux
	defer func() { http.DefaultServeMux = old }()
	mux := http.NewServeMux()
	http.DefaultServeMux = mux
	done := make(chan bool)
	go func() {
		defer close(done)
		defer func() { recover() }()
		rest.NewServer(rest.Params{Port: -1, Version: "x"}, nil, nil).Start()
	}()
	select {
	case <-done:
	case <-time.After(2 * time.Second):
	}
	r, _ := http.NewRequest("GET", "/version", nil)
	_, pattern := mux.Handler(r)
	return pattern != ""
})

// Resp is an answer.
type Resp struct {
	Status int
	Body   []byte
	Header http.Header
}

func (r Resp) Ok() bool          { return r.Status == 200 }
func (r Resp) ClientError() bool { return r.Status >= 400 && r.Status < 500 }
func (r Resp) String() string {
	b := string(r.Body)
	if len(b) > 300 {
		b = b[:300] + "..."
	}
	return fmt.Sprintf("%d %q", r.Status, b)
}

type Server struct {
	t    *pbt.T
	mux  http.Handler
	addr string
	Base string
}

func Start(t *pbt.T, p rest.Params, b *bus.Bus, i *inv.Inv) *Server {
	s := &Server{t: t}
	mux := http.NewServeMux()
	http.DefaultServeMux = mux
	if Mounted() {
		p.Port = -1
		rest.NewServer(p, b, i).Start()
		s.mux = mux
		s.Base = "http://node"
	} else {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			panic(err)
		}
		p.Port = l.Addr().(*net.TCPAddr).Port
		l.Close()
		go rest.NewServer(p, b, i).Start()
		s.addr = fmt.Sprintf("127.0.0.1:%d", p.Port)
		s.Base = "http://" + s.addr
		for k := 0; k < 100; k++ {
			if c, err := net.Dial("tcp", s.addr); err == nil {
				c.Close()
				break
			}
			time.Sleep(20 * time.Millisecond)
		}
	}
	http.DefaultTransport = s
	return s
}

// Patience is how long an answer may take (of the bubble's clock).
const Patience = 20 * time.Second

type handlerPanic struct{ what string }

// RoundTrip serves clients that use http.DefaultTransport.
func (s *Server) RoundTrip(r *http.Request) (*http.Response, error) {
	if s.mux == nil {
		return (&http.Transport{}).RoundTrip(r)
	}
	rec := httptest.NewRecorder()
	if r.Body == nil {
		r.Body = http.NoBody
	}
	r.RequestURI = r.URL.RequestURI()
	r.RemoteAddr = "127.0.0.1:1"
	done := make(chan *handlerPanic, 1)
	go func() {
		defer func() {
			if p := recover(); p != nil {
				done <- &handlerPanic{fmt.Sprintf("%v\n%s", p, debug.Stack())}
			}
		}()
		s.mux.ServeHTTP(rec, r)
		done <- nil
	}()
	select {
	case p := <-done:
		if p != nil {
			s.t.Fail("handler-panics", "%s %s: the handler panics: %s", r.Method, r.URL, p.what)
		}
	case <-time.After(Patience):
		s.t.Fail("no-answer:http", "%s %s is not answered within %s", r.Method, r.URL, Patience)
	}
	res := rec.Result()
	res.Request = r
	return res, nil
}

// Request is sent by Do.
type Request struct {
	Method, Path, Query string
	Header              http.Header
	Body                io.Reader
}

func (s *Server) Do(q Request) Resp {
	u := s.Base + q.Path
	if q.Query != "" {
		u += "?" + q.Query
	}
	r, err := http.NewRequest(q.Method, u, q.Body)
	if err != nil {
		s.t.Discard()
	}
	for k, v := range q.Header {
		r.Header[k] = v
	}
	res, err := s.RoundTrip(r)
	if err != nil {
		s.t.Fail("no-answer:http", "%s %s: %v", q.Method, u, err)
	}
	b, err := io.ReadAll(res.Body)
	if err != nil {
		s.t.Fail("no-answer:http", "%s %s: reading the answer: %v", q.Method, u, err)
	}
	res.Body.Close()
	return Resp{res.StatusCode, b, res.Header}
}

func (s *Server) Get(path string, query ...string) Resp {
	return s.Do(Request{Method: "GET", Path: path, Query: Query(query...)})
}

func (s *Server) Post(path string, body []byte) Resp {
	return s.Do(Request{Method: "POST", Path: path, Body: bytes.NewReader(body),
		Header: http.Header{"Content-Type": {"application/json"}}})
}

// Query joins keys and values.
func Query(kv ...string) string {
	var ls []string
	for i := 0; i+1 < len(kv); i += 2 {
		ls = append(ls, url.QueryEscape(kv[i])+"="+url.QueryEscape(kv[i+1]))
	}
	return strings.Join(ls, "&")
}

// Ids makes a query of repeated keys.
func Ids(key string, ids []core.HashT) []string {
	var out []string
	for _, id := range ids {
		out = append(out, key, fmt.Sprintf("%x", id.Data()))
	}
	return out
}
