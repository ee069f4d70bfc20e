package tls

import "errors"

// model
// ZZHandshake says whether a client and a server, which has a certificate of
// its own, agree: the versions and the certificate, nothing else.
func ZZHandshake(client, server *Config) error {
	if server == nil {
		return errors.New("tls: first record does not look like a TLS handshake")
	}
	if client == nil {
		client = &Config{}
	}
	lo, hi := func(c *Config) uint16 {
		if c.MinVersion == 0 {
			return VersionTLS12
		}
		return c.MinVersion
	}, func(c *Config) uint16 {
		if c.MaxVersion == 0 {
			return VersionTLS13
		}
		return c.MaxVersion
	}
	if hi(client) < lo(server) || hi(server) < lo(client) {
		return errors.New("tls: protocol version not supported")
	}
	if !client.InsecureSkipVerify && (client.RootCAs == nil || !client.RootCAs.ZZHas(server.Certificates[0].Certificate[0])) {
		return errors.New("tls: failed to verify certificate")
	}
	return nil
}

// ZZListener is a listener whose connections speak TLS.
type ZZListener struct {
	net.Listener
	Config *Config
}

func zz_model_NewListener(inner net.Listener, config *Config) net.Listener {
	return &ZZListener{inner, config}
}
