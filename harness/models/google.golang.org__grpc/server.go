package grpc

//zz:native L01

// model
// ZZServers are the servers that were made.
var ZZServers []*Server

func zz_model_NewServer(opt ...ServerOption) *Server {
	opts := defaultServerOptions
	for _, o := range opt {
		o.apply(&opts)
	}
	s := &Server{
		lis:    make(map[net.Listener]bool),
		opts:   opts,
		conns:  make(map[transport.ServerTransport]bool),
		m:      make(map[string]*service),
		quit:   grpcsync.NewEvent(),
		done:   grpcsync.NewEvent(),
		czData: new(channelzData),
	}
	s.cv = sync.NewCond(&s.mu)
	ZZServers = append(ZZServers, s)
	return s
}

func zz_model_Server__RegisterService(s *Server, sd *ServiceDesc, ss interface{}) {
	s.register(sd, ss)
}

// ZZInvoke has the server answer a request that dec puts where it is told.
func (s *Server) ZZInvoke(ctx context.Context, method string, dec func(interface{}) error) (interface{}, error) {
	s.mu.Lock()
	serving := s.serve && s.lis != nil
	var md *MethodDesc
	var ss interface{}
	for name, srv := range s.m {
		for n, d := range srv.md {
			if method == "/"+name+"/"+n {
				md, ss = d, srv.server
			}
		}
	}
	s.mu.Unlock()
	if !serving {
		return nil, status.Error(codes.Unavailable, "transport is closing")
	}
	if md == nil {
		return nil, status.Error(codes.Unimplemented, "unknown method "+method)
	}
	return md.Handler(ss, ctx, dec, s.opts.unaryInt)
}
