// Package tlsc holds the harnesses for the TLS configurations.
package tlsc

import (
	"bytes"
	"crypto/tls"
	"crypto/x509"
	"encoding/pem"
	"os"

	logtls "code.cloudfoundry.org/log-cache/internal/tls"
	"code.cloudfoundry.org/log-cache/internal/zzverif/keys"
	"code.cloudfoundry.org/log-cache/internal/zzverif/sym"
)

// policy checks what holds for every configuration.
func policy(c *tls.Config) {
	sym.Assert(c != nil, "no configuration is built")
	sym.Assert(!c.InsecureSkipVerify, "a configuration does not verify its peer")
	sym.Assert(c.MinVersion >= tls.VersionTLS12, "a configuration accepts versions before TLS 1.2")
	sym.Assert(c.MaxVersion == 0 || c.MaxVersion >= c.MinVersion, "a configuration accepts no version")
	var a, b bool
	for _, s := range c.CipherSuites {
		sym.Assert(s == tls.TLS_ECDHE_RSA_WITH_AES_128_GCM_SHA256 || s == tls.TLS_ECDHE_RSA_WITH_AES_256_GCM_SHA384, "a configuration offers another cipher suite")
		a = a || s == tls.TLS_ECDHE_RSA_WITH_AES_128_GCM_SHA256
		b = b || s == tls.TLS_ECDHE_RSA_WITH_AES_256_GCM_SHA384
	}
	sym.Assert(a && b, "a configuration does not offer the approved cipher suites")
	sym.Assert(c.KeyLogWriter == nil && c.VerifyPeerCertificate == nil && c.VerifyConnection == nil && c.GetConfigForClient == nil &&
		c.GetCertificate == nil && c.GetClientCertificate == nil, "a configuration is built with further callbacks")
}

func der(p string) []byte {
	b, _ := pem.Decode([]byte(p))
	return b.Bytes
}

func pool(certs ...string) *x509.CertPool {
	p := x509.NewCertPool()
	for _, c := range certs {
		p.AppendCertsFromPEM([]byte(c))
	}
	return p
}

// files is a set of files for a configuration.
type files struct {
	dir           string
	ca, cert, key string
	pairOK, caOK  bool
	pair          string // certificate presented
	chain         string // sent along with it
	trusted       *x509.CertPool
}

func garbage(name string) string { return sym.Str(name, 3) }

// write puts content at path, or something that cannot be read as a file.
func write(path, kind, content string) {
	switch kind {
	case "missing":
	case "directory":
		os.Mkdir(path, 0o700)
	default:
		if err := os.WriteFile(path, []byte(content), 0o600); err != nil {
			panic(err)
		}
	}
}

func newFiles() *files {
	dir, err := os.MkdirTemp("", "tlsc")
	if err != nil {
		panic(err)
	}
	f := &files{dir: dir, ca: dir + "/ca", cert: dir + "/cert", key: dir + "/key"}
	kinds := []string{"good", "missing", "directory", "empty", "garbage", "wrong"}
	other := sym.Flag("other pair")
	cert, key, otherKey := keys.CertA, keys.KeyA, keys.KeyB
	if other {
		cert, key, otherKey = keys.CertB, keys.KeyB, keys.KeyA
	}
	contents := func(kind, good, wrong string) string {
		switch kind {
		case "good":
			return good
		case "garbage":
			return garbage("garbage")
		case "wrong":
			return wrong
		}
		return ""
	}
	ck := kinds[sym.Choice("cert file", len(kinds))]
	good := cert
	if ck == "good" && sym.Flag("with chain") {
		f.chain = keys.CertA
		good += f.chain
	}
	write(f.cert, ck, contents(ck, good, key))
	kk := "good"
	if ck == "good" || sym.Thorough() {
		kk = kinds[sym.Choice("key file", len(kinds))]
	}
	write(f.key, kk, contents(kk, key, otherKey))
	f.pairOK, f.pair = ck == "good" && kk == "good", cert
	cas := append(kinds, "two", "good after garbage")
	ak := "good"
	if f.pairOK || sym.Thorough() {
		ak = cas[sym.Choice("ca file", len(cas))]
	}
	switch ak {
	case "two":
		write(f.ca, ak, keys.CertA+keys.CertB)
		f.trusted = pool(keys.CertA, keys.CertB)
	case "good after garbage":
		write(f.ca, ak, "# a comment\n"+keys.CertB)
		f.trusted = pool(keys.CertB)
	default:
		ca := keys.CertA
		if sym.Flag("other ca") {
			ca = keys.CertB
		}
		write(f.ca, ak, contents(ak, ca, keys.KeyA))
		f.trusted = pool(ca)
	}
	f.caOK = ak == "good" || ak == "two" || ak == "good after garbage"
	return f
}

// mutual checks a configuration built from f.
func (f *files) mutual(c *tls.Config, cn string) {
	policy(c)
	sym.Assert(c.ServerName == cn, "the expected server name is another one")
	sym.Assert(len(c.Certificates) == 1 && bytes.Equal(c.Certificates[0].Certificate[0], der(f.pair)) &&
		c.Certificates[0].PrivateKey != nil, "the configuration presents another certificate than the given one")
	sent := c.Certificates[0].Certificate
	sym.Assert(len(sent) == 1 && f.chain == "" || len(sent) == 2 && f.chain != "" && bytes.Equal(sent[1], der(f.chain)), "the configuration presents another certificate chain than the given one")
	sym.Assert(c.RootCAs != nil && c.RootCAs.Equal(f.trusted), "the configuration trusts other certificates than the given ones")
}

// name is any server name.
func name() string { return sym.Str("name", sym.Int("name bytes", 0, sym.Bound("name bytes", 2, 8))) }

// C21_Files: configurations built from files.
func C21_Files() {
	f := newFiles()
	cn := name()
	c, err := logtls.NewMutualTLSConfig(f.ca, f.cert, f.key, cn)
	if !f.pairOK || !f.caOK {
		sym.Assert(err != nil && c == nil, "a configuration is built from files that cannot be used")
		sym.Cover("refused")
		return
	}
	sym.Assert(err == nil, "usable files are refused")
	f.mutual(c, cn)
	sym.Cover("built")
	sym.Expect("refused", "built")
}

// C21_Credentials: credentials for gRPC connections.
func C21_Credentials() {
	f := newFiles()
	cn := name()
	creds, err := logtls.NewTLSCredentials(f.ca, f.cert, f.key, cn)
	if !f.pairOK || !f.caOK {
		sym.Assert(err != nil && creds == nil, "credentials are built from files that cannot be used")
		sym.Cover("refused")
		return
	}
	sym.Assert(err == nil && creds != nil, "usable files are refused")
	if sym.Flag("from paths") {
		creds = logtls.TLS{CAPath: f.ca, CertPath: f.cert, KeyPath: f.key}.Credentials(cn)
	}
	sym.Assert(creds.Info().SecurityProtocol == "tls" && creds.Info().ServerName == cn, "the credentials are for another server")
	c, ok := sym.Field(creds, "config").(*tls.Config)
	sym.Assert(ok, "the credentials have no configuration")
	f.mutual(c, cn)
	sym.Cover("built")
	sym.Expect("refused", "built")
}

// C21_Replaced: files replaced after a configuration was built from them.
func C21_Replaced() {
	sym.Expect("replaced", "gone")
	dir, err := os.MkdirTemp("", "tlsc")
	if err != nil {
		panic(err)
	}
	f := &files{ca: dir + "/ca", cert: dir + "/cert", key: dir + "/key"}
	cas, certs, ks := []string{keys.CertA, keys.CertB}, []string{keys.CertA, keys.CertB}, []string{keys.KeyA, keys.KeyB}
	build := func() (c *tls.Config, err error) {
		if sym.Flag("credentials") {
			creds, err := logtls.NewTLSCredentials(f.ca, f.cert, f.key, "log-cache")
			if err != nil {
				return nil, err
			}
			return sym.Field(creds, "config").(*tls.Config), nil
		}
		return logtls.NewMutualTLSConfig(f.ca, f.cert, f.key, "log-cache")
	}
	for i := 0; i < sym.Bound("configurations", 2, 3); i++ {
		a, b := sym.Choice("ca", 2), sym.Choice("pair", 2)
		write(f.ca, "good", cas[a])
		write(f.cert, "good", certs[b])
		write(f.key, "good", ks[b])
		f.trusted, f.pair = pool(cas[a]), certs[b]
		c, err := build()
		sym.Assert(err == nil, "usable files are refused")
		f.mutual(c, "log-cache")
	}
	sym.Cover("replaced")
	if err := os.Remove([]string{f.ca, f.cert, f.key}[sym.Choice("removed", 3)]); err != nil {
		panic(err)
	}
	c, err := build()
	sym.Assert(err != nil && c == nil, "a configuration is built from files that cannot be used")
	sym.Cover("gone")
}

// C21_Separate: changes of one configuration.
func C21_Separate() {
	f := &files{pair: keys.CertA, trusted: pool(keys.CertB)}
	dir, err := os.MkdirTemp("", "tlsc")
	if err != nil {
		panic(err)
	}
	f.ca, f.cert, f.key = dir+"/ca", dir+"/cert", dir+"/key"
	write(f.ca, "good", keys.CertB)
	write(f.cert, "good", keys.CertA)
	write(f.key, "good", keys.KeyA)
	build := func(fromFiles bool) *tls.Config {
		if !fromFiles {
			return logtls.NewBaseTLSConfig()
		}
		c, err := logtls.NewMutualTLSConfig(f.ca, f.cert, f.key, "log-cache")
		sym.Assert(err == nil, "usable files are refused")
		return c
	}
	kind := []bool{sym.Flag("first from files"), sym.Flag("second from files"), sym.Flag("third from files")}
	cs := []*tls.Config{build(kind[0]), build(kind[1])}
	m := sym.Choice("changed", 2)
	c := cs[m]
	c.InsecureSkipVerify = sym.Bool("insecure")
	c.MinVersion = uint16(sym.Int64Range("version", 0, 0xffff))
	for i := range c.CipherSuites {
		c.CipherSuites[i] = uint16(sym.Int64Range("suite", 0, 0xffff))
	}
	c.CipherSuites = append(c.CipherSuites[:1], tls.TLS_RSA_WITH_RC4_128_SHA)
	c.ServerName = name()
	if len(c.Certificates) > 0 {
		c.Certificates[0] = tls.Certificate{}
	}
	if c.RootCAs != nil {
		c.RootCAs.AppendCertsFromPEM([]byte(keys.CertA))
	}
	cs = append(cs, build(kind[2]))
	for i, o := range cs {
		if i == m {
			continue
		}
		if kind[i] {
			f.mutual(o, "log-cache")
		} else {
			policy(o)
			sym.Assert(len(o.Certificates) == 0 && o.RootCAs == nil && o.ServerName == "", "a base configuration has a key pair, CA or name")
		}
	}
	sym.Cover("changed one")
}
