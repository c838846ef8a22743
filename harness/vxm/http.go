package vxm

import (
	"bytes"
	"io"
	"net/http"
	"net/url"

	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vx"
)

//vx:redirect (*net/http.Client).Do
func clientDo(c *http.Client, req *http.Request) (*http.Response, error) {
	if Transport == nil {
		return nil, io.ErrUnexpectedEOF
	}
	return Transport.RoundTrip(req)
}

// Transport answers every outgoing request.
var Transport http.RoundTripper

// SetTransport routes outgoing requests to f.
func SetTransport(f func(req *http.Request) (*http.Response, error)) {
	Transport = rt(f)
	if !vx.Symbolic() {
		http.DefaultTransport = Transport
	}
}

type rt func(*http.Request) (*http.Response, error)

func (f rt) RoundTrip(r *http.Request) (*http.Response, error) { return f(r) }

// Rec records a response.
type Rec struct {
	H      http.Header
	Code   int
	Body   []byte
	Writes int
}

func NewRec() *Rec                 { return &Rec{H: http.Header{}} }
func (r *Rec) Header() http.Header { return r.H }
func (r *Rec) WriteHeader(c int) {
	if r.Code == 0 {
		r.Code = c
	}
}
func (r *Rec) Write(b []byte) (int, error) {
	if r.Code == 0 {
		r.Code = 200
	}
	r.Writes++
	r.Body = append(r.Body, b...)
	return len(b), nil
}

// NewReq builds a request as a server would see it.
func NewReq(method, path string, body []byte, hdr map[string]string) *http.Request {
	h := http.Header{}
	for k, v := range hdr {
		h[http.CanonicalHeaderKey(k)] = []string{v}
	}
	return &http.Request{Method: method, URL: &url.URL{Path: path}, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: h, Body: io.NopCloser(bytes.NewReader(body)), ContentLength: int64(len(body)), Host: "localhost", RequestURI: path, RemoteAddr: "127.0.0.1:1"}
}

// Resp turns a recorded response into a client-side one.
func (r *Rec) Resp() *http.Response {
	c := r.Code
	if c == 0 {
		c = 200
	}
	return &http.Response{StatusCode: c, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: r.H, Body: io.NopCloser(bytes.NewReader(r.Body)), ContentLength: int64(len(r.Body))}
}
