package http

// model
// zzServer is a handler that serves an address.
type zzServer struct {
	ready chan struct{}
	h     Handler
	tls   *tls.Config // nil without TLS
}

var zzServers = map[string]*zzServer{}

func zzServerAt(addr string) *zzServer {
	s := zzServers[addr]
	if s == nil {
		s = &zzServer{ready: make(chan struct{})}
		zzServers[addr] = s
	}
	return s
}

func (srv *Server) zzServe(l net.Listener, config *tls.Config) error {
	s := zzServerAt(l.Addr().String())
	s.h, s.tls = srv.Handler, config
	if s.h == nil {
		s.h = DefaultServeMux
	}
	close(s.ready)
	select {}
}

func zz_model_Server__ServeTLS(srv *Server, l net.Listener, certFile, keyFile string) error {
	config := &tls.Config{}
	if srv.TLSConfig != nil {
		config = srv.TLSConfig.Clone()
	}
	if len(config.Certificates) == 0 || certFile != "" || keyFile != "" {
		cert, err := tls.LoadX509KeyPair(certFile, keyFile)
		if err != nil {
			return err
		}
		config.Certificates = []tls.Certificate{cert}
	}
	return srv.zzServe(l, config)
}

func zz_model_Server__Serve(srv *Server, l net.Listener) error {
	if t, ok := l.(*tls.ZZListener); ok {
		return srv.zzServe(l, t.Config)
	}
	return srv.zzServe(l, nil)
}

type zzWriter struct {
	h, sent Header
	status  int
	body    []byte
	closed  chan bool
}

func (w *zzWriter) Header() Header { return w.h }

func (w *zzWriter) WriteHeader(status int) {
	if w.status != 0 {
		return
	}
	w.status = status
	w.sent = w.h.Clone()
}

func (w *zzWriter) Write(b []byte) (int, error) {
	w.WriteHeader(StatusOK)
	if w.status == StatusNoContent || w.status == StatusNotModified {
		return 0, ErrBodyNotAllowed
	}
	w.body = append(w.body, b...)
	return len(b), nil
}

func (w *zzWriter) WriteString(s string) (int, error) { return w.Write([]byte(s)) }
func (w *zzWriter) Flush()                            { w.WriteHeader(StatusOK) }
func (w *zzWriter) CloseNotify() <-chan bool          { return w.closed }

// zz_model_Transport__RoundTrip hands the request to the handler that serves
// the address, as a request read from a connection, and gives its response.
func zz_model_Transport__RoundTrip(t *Transport, req *Request) (*Response, error) {
	s := zzServerAt(req.URL.Host)
	<-s.ready
	if req.URL.Scheme == "https" {
		if err := tls.ZZHandshake(t.TLSClientConfig, s.tls); err != nil {
			return nil, err
		}
	}
	uri := req.URL.RequestURI()
	u, err := urlpkg.ParseRequestURI(uri)
	if err != nil {
		return nil, err
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	in := (&Request{
		Method: req.Method, URL: u, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: req.Header.Clone(), Body: NoBody,
		Host: req.Host, RemoteAddr: "127.0.0.1:40000", RequestURI: uri,
	}).WithContext(ctx)
	if in.Method == "" {
		in.Method = "GET"
	}
	if in.Host == "" {
		in.Host = req.URL.Host
	}
	if in.Header == nil {
		in.Header = Header{}
	}
	if in.Header["User-Agent"] == nil {
		in.Header["User-Agent"] = []string{"Go-http-client/1.1"}
	}
	if in.Header["Accept-Encoding"] == nil {
		in.Header["Accept-Encoding"] = []string{"gzip"}
	}
	if req.Body != nil && req.Body != NoBody {
		b, err := io.ReadAll(req.Body)
		req.Body.Close()
		if err != nil {
			return nil, err
		}
		in.Body, in.ContentLength = io.NopCloser(&zzReader{b}), int64(len(b))
	}
	w := &zzWriter{h: Header{}, closed: make(chan bool)}
	h := s.h
	if s.tls != nil && req.URL.Scheme == "http" {
		h = HandlerFunc(func(w ResponseWriter, r *Request) { w.WriteHeader(StatusBadRequest) })
	}
	broken := true
	func() {
		defer func() {
			if broken {
				recover()
			}
		}()
		h.ServeHTTP(w, in)
		broken = false
	}()
	if broken {
		return nil, io.EOF
	}
	w.WriteHeader(StatusOK)
	res := &Response{
		StatusCode: w.status, Status: StatusText(w.status), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: w.sent, ContentLength: -1, Request: req, Body: NoBody,
	}
	if req.Method != "HEAD" {
		res.Body = io.NopCloser(&zzReader{w.body})
	}
	return res, nil
}

type zzReader struct{ b []byte }

func (r *zzReader) Read(p []byte) (int, error) {
	if len(r.b) == 0 {
		return 0, io.EOF
	}
	n := copy(p, r.b)
	r.b = r.b[n:]
	return n, nil
}
