package net

import "internal/bytealg"

//zz:native L01

// model
var zzPort = 20000

type zzAddr string

func (a zzAddr) Network() string { return "tcp" }
func (a zzAddr) String() string  { return string(a) }

// zzListener listens nowhere; servers take its address.
type zzListener struct {
	addr   zzAddr
	closed chan struct{}
	done   bool
}

type zzClosed struct{}

func (zzClosed) Error() string { return "use of closed network connection" }

func (l *zzListener) Accept() (Conn, error) {
	<-l.closed
	return nil, zzClosed{}
}

func (l *zzListener) Close() error {
	if !l.done {
		l.done = true
		close(l.closed)
	}
	return nil
}
func (l *zzListener) Addr() Addr { return l.addr }

func zz_model_Listen(network, address string) (Listener, error) {
	i := bytealg.LastIndexByteString(address, ':')
	if i < 0 {
		return nil, &AddrError{Err: "missing port in address", Addr: address}
	}
	host, port := address[:i], address[i+1:]
	if port == "0" || port == "" {
		zzPort++
		port = string([]byte{byte('0' + zzPort/10000), byte('0' + zzPort/1000%10), byte('0' + zzPort/100%10), byte('0' + zzPort/10%10), byte('0' + zzPort%10)})
	}
	return &zzListener{addr: zzAddr(host + ":" + port), closed: make(chan struct{})}, nil
}
