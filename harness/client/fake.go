// Package client holds the harnesses for the log-cache client.
package client

import (
	"context"
	"errors"
	"io"
	"net"
	"net/http"

	"code.cloudfoundry.org/log-cache/internal/zzverif/sym"
	"code.cloudfoundry.org/log-cache/pkg/client"
	"google.golang.org/grpc"
)

var errTransport = errors.New("transport failed")

// body is a response body that counts its closings and may fail half way.
type body struct {
	data   []byte
	off    int
	fail   bool
	closed int
}

var errBody = errors.New("body failed")

func (b *body) Read(p []byte) (int, error) {
	if b.closed > 0 {
		return 0, errors.New("read after close")
	}
	if b.off == len(b.data) {
		if b.fail {
			return 0, errBody
		}
		return 0, io.EOF
	}
	n := copy(p, b.data[b.off:])
	b.off += n
	return n, nil
}
func (b *body) Close() error { b.closed++; return nil }

type answer struct {
	status int
	body   string
	fail   bool // reading the body fails after its content
	err    error
}

// server is the transport below the client.
type server struct {
	reqs   []*http.Request
	bodies []*body
	answer func(req *http.Request) answer
}

func (s *server) Do(req *http.Request) (*http.Response, error) {
	s.reqs = append(s.reqs, req)
	a := s.answer(req)
	if a.err != nil {
		return nil, a.err
	}
	b := &body{data: []byte(a.body), fail: a.fail}
	s.bodies = append(s.bodies, b)
	return &http.Response{StatusCode: a.status, Body: b, Header: http.Header{}, Request: req}, nil
}

// clean checks what holds for every call: all bodies closed, the caller's
// context on every request, all of them GETs without a body.
func (s *server) clean(ctx context.Context) {
	for _, b := range s.bodies {
		sym.Assert(b.closed > 0, "every response body is closed before the call returns")
	}
	for _, r := range s.reqs {
		sym.Assert(r.Context() == ctx, "every request carries the caller's context")
		sym.Assert(r.Method == "GET" && r.URL.Scheme == "http" && r.URL.Host == "log-cache:8080", "requests go to the configured address with GET")
	}
}

func (s *server) client() *client.Client {
	return client.NewClient("http://log-cache:8080", client.WithHTTPClient(s))
}

type ctxKey struct{}

func newCtx() context.Context { return context.WithValue(context.Background(), ctxKey{}, "caller") }

// grpcClient makes a client whose calls end at f instead of the network.
func grpcClient(f func(ctx context.Context, method string, req, reply interface{}) error) *client.Client {
	return client.NewClient("log-cache:8080", client.WithViaGRPC(
		grpc.WithInsecure(),
		grpc.WithContextDialer(func(ctx context.Context, _ string) (net.Conn, error) {
			<-ctx.Done()
			return nil, ctx.Err()
		}),
		grpc.WithUnaryInterceptor(func(ctx context.Context, method string, req, reply interface{}, cc *grpc.ClientConn, invoker grpc.UnaryInvoker, opts ...grpc.CallOption) error {
			return f(ctx, method, req, reply)
		}),
	))
}
