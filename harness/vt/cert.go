package vt

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"math/big"
	"net"
	"os"
	"path/filepath"
	"time"
)

// CA issues certificates for the harness's servers and clients.
type CA struct {
	Cert *x509.Certificate
	key  *ecdsa.PrivateKey
	n    int64
}

// NewCA makes a certificate authority valid on the real and the virtual clock.
func NewCA() *CA {
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		panic(err)
	}
	t := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "harness"}, NotBefore: time.Date(1990, 1, 1, 0, 0, 0, 0, time.UTC), NotAfter: time.Date(2200, 1, 1, 0, 0, 0, 0, time.UTC), IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign}
	der, err := x509.CreateCertificate(rand.Reader, t, t, &key.PublicKey, key)
	if err != nil {
		panic(err)
	}
	c, _ := x509.ParseCertificate(der)
	return &CA{Cert: c, key: key, n: 1}
}

// Pool holds the authority's certificate.
func (c *CA) Pool() *x509.CertPool {
	p := x509.NewCertPool()
	p.AddCert(c.Cert)
	return p
}

// Issue makes a certificate for names and addresses.
func (c *CA) Issue(names ...string) tls.Certificate {
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		panic(err)
	}
	c.n++
	t := &x509.Certificate{SerialNumber: big.NewInt(c.n), Subject: pkix.Name{CommonName: "leaf"}, NotBefore: c.Cert.NotBefore, NotAfter: c.Cert.NotAfter, KeyUsage: x509.KeyUsageDigitalSignature, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth, x509.ExtKeyUsageClientAuth}}
	for _, n := range names {
		if ip := net.ParseIP(n); ip != nil {
			t.IPAddresses = append(t.IPAddresses, ip)
		} else {
			t.DNSNames = append(t.DNSNames, n)
		}
	}
	der, err := x509.CreateCertificate(rand.Reader, t, c.Cert, &key.PublicKey, c.key)
	if err != nil {
		panic(err)
	}
	leaf, _ := x509.ParseCertificate(der)
	return tls.Certificate{Certificate: [][]byte{der}, PrivateKey: key, Leaf: leaf}
}

// WritePEM stores the authority, or a certificate and key, as files.
func (c *CA) WritePEM(dir string) string {
	p := filepath.Join(dir, "ca.pem")
	os.WriteFile(p, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: c.Cert.Raw}), 0o600)
	return p
}

// WritePair stores a certificate and its key as files.
func WritePair(dir, name string, crt tls.Certificate) (string, string) {
	cf, kf := filepath.Join(dir, name+".crt"), filepath.Join(dir, name+".key")
	os.WriteFile(cf, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: crt.Certificate[0]}), 0o600)
	b, err := x509.MarshalPKCS8PrivateKey(crt.PrivateKey)
	if err != nil {
		panic(err)
	}
	os.WriteFile(kf, pem.EncodeToMemory(&pem.Block{Type: "PRIVATE KEY", Bytes: b}), 0o600)
	return cf, kf
}
