package tls

import (
	"net"
)

//zz:native Y01

// model
// ZZListen listens in the place of Listen.
var ZZListen func(network, laddr string, config *Config) (net.Listener, error)

func zz_model_Listen(network, laddr string, config *Config) (net.Listener, error) {
	if config == nil || len(config.Certificates) == 0 &&
		config.GetCertificate == nil && config.GetConfigForClient == nil {
		return nil, errors.New("tls: neither Certificates, GetCertificate, nor GetConfigForClient set in Config")
	}
	if ZZListen == nil {
		l, err := net.Listen(network, laddr)
		if err != nil {
			return nil, err
		}
		return NewListener(l, config), nil
	}
	return ZZListen(network, laddr, config)
}
