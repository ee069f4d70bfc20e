package x509

// model

// ZZHas says whether the pool holds a certificate.
func (s *CertPool) ZZHas(der []byte) bool {
	c, err := ParseCertificate(der)
	return err == nil && s.contains(c)
}
