package tls

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"errors"
	"io/ioutil"
	"math/big"
	"os"
	"time"

	"google.golang.org/grpc/credentials"
	"verif.local/spec"
)

// place is where the files are, and what is wrong with them.
type place_ struct {
	ca, cert, key, cn   string
	noPair, noCA, badCA bool
	pair                tls.Certificate
	caPEM               []byte
	pool                *x509.CertPool
	noPairErr, noCAErr  error
	dir                 string
	subject             []byte
}

func (p *place_) fine() bool { return !p.noPair && !p.noCA && !p.badCA }

// prepare makes the files, or has them made up.
func (p *place_) prepare() {
	if spec.Native() {
		p.write()
		return
	}
	p.pair = tls.Certificate{Certificate: [][]byte{{1, 2, 3}}}
	p.noPairErr, p.noCAErr = errors.New("no pair"), errors.New("no CA")
	appended := 0
	p.pool = &x509.CertPool{}
	spec.Replace(tls.LoadX509KeyPair, func(c, k string) (tls.Certificate, error) {
		spec.Ensures("the certificate and key are the configured ones", c == p.cert && k == p.key)
		if p.noPair {
			return tls.Certificate{}, p.noPairErr
		}
		return p.pair, nil
	})
	spec.Replace(os.ReadFile, func(name string) ([]byte, error) {
		spec.Ensures("the authority is the configured one", name == p.ca)
		if p.noCA {
			return nil, p.noCAErr
		}
		return p.caPEM, nil
	})
	spec.Replace(x509.NewCertPool, func() *x509.CertPool { return p.pool })
	spec.Replace((*x509.CertPool).AppendCertsFromPEM, func(pool *x509.CertPool, pem []byte) bool {
		appended++
		spec.Ensures("the authority trusted is the one read, and no other", pool == p.pool && appended == 1 && spec.Same(pem, p.caPEM))
		return !p.badCA
	})
}

func (p *place_) write() {
	dir, err := ioutil.TempDir("", "verif-t01")
	if err != nil {
		panic(err)
	}
	key, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	tmpl := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "verif"}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(time.Hour), IsCA: true, BasicConstraintsValid: true}
	der, err := x509.CreateCertificate(rand.Reader, tmpl, tmpl, &key.PublicKey, key)
	if err != nil {
		panic(err)
	}
	parsed, _ := x509.ParseCertificate(der)
	p.subject = parsed.RawSubject
	kder, _ := x509.MarshalECPrivateKey(key)
	p.dir, p.ca, p.cert, p.key = dir, dir+"/ca", dir+"/cert", dir+"/key"
	certPEM := pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der})
	keyPEM := pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: kder})
	p.pair, err = tls.X509KeyPair(certPEM, keyPEM)
	caPEM := certPEM
	if p.badCA {
		caPEM = []byte("no certificate")
	}
	if !p.noPair {
		ioutil.WriteFile(p.key, keyPEM, 0600)
	}
	if !p.noCA {
		ioutil.WriteFile(p.ca, caPEM, 0600)
	}
	ioutil.WriteFile(p.cert, certPEM, 0600)
}

func (p *place_) clean() {
	if p.dir == "" {
		return
	}
	os.Remove(p.ca)
	os.Remove(p.cert)
	os.Remove(p.key)
	os.Remove(p.dir)
}

// strict: no connection is made that anyone could read or take part in.
func strict_(c *tls.Config) bool {
	return !c.InsecureSkipVerify && c.MinVersion >= tls.VersionTLS12 && (c.MaxVersion == 0 || c.MaxVersion >= c.MinVersion) && c.KeyLogWriter == nil && c.Rand == nil && c.Time == nil
}

// approved: the cipher suites are the two approved ones.
func approved_(c *tls.Config) bool {
	return len(c.CipherSuites) == 2 && c.CipherSuites[0] != c.CipherSuites[1] && approvedSuite_(c.CipherSuites[0]) && approvedSuite_(c.CipherSuites[1])
}

func approvedSuite_(s uint16) bool {
	return s == tls.TLS_ECDHE_RSA_WITH_AES_128_GCM_SHA256 || s == tls.TLS_ECDHE_RSA_WITH_AES_256_GCM_SHA384
}

// identified: either side knows the other by certificate.
func (p *place_) identified(c *tls.Config) bool {
	if len(c.Certificates) != 1 || c.ServerName != p.cn || c.RootCAs == nil {
		return false
	}
	if spec.Native() {
		s := c.RootCAs.Subjects()
		return bytes.Equal(c.Certificates[0].Certificate[0], p.pair.Certificate[0]) && len(s) == 1 && bytes.Equal(s[0], p.subject)
	}
	return spec.Same(c.Certificates[0].Certificate, p.pair.Certificate) && c.RootCAs == p.pool
}

// A configuration is strict, or there is none.
func ContractConfig(ca, cert, key, cn string, noPair, noCA, badCA bool, caPEM []byte) {
	p := &place_{ca: ca, cert: cert, key: key, cn: cn, noPair: noPair, noCA: noCA, badCA: badCA, caPEM: caPEM}
	p.prepare()
	defer p.clean()
	c, err := NewMutualTLSConfig(p.ca, p.cert, p.key, cn)
	spec.Ensures("a configuration is made of sound files, and of nothing else", (err == nil) == p.fine() && (c != nil) == p.fine())
	if err != nil {
		return
	}
	spec.Ensures("connections are secret and their peers verified", strict_(c))
	spec.Ensures("only approved ciphers are used", approved_(c))
	spec.Ensures("either side is identified by the configured files", p.identified(c))
}

// The credentials of a gRPC connection are made of that configuration.
func ContractCredentials(ca, cert, key, cn string, noPair, noCA, badCA bool, caPEM []byte) {
	p := &place_{ca: ca, cert: cert, key: key, cn: cn, noPair: noPair, noCA: noCA, badCA: badCA, caPEM: caPEM}
	p.prepare()
	defer p.clean()
	made := 0
	var creds credentials.TransportCredentials = &marked_{}
	spec.Replace(credentials.NewTLS, func(c *tls.Config) credentials.TransportCredentials {
		made++
		spec.Ensures("connections are secret and their peers verified", strict_(c))
		spec.Ensures("only approved ciphers are used", approved_(c))
		spec.Ensures("either side is identified by the configured files", p.fine() && p.identified(c))
		return creds
	})
	got, err := NewTLSCredentials(p.ca, p.cert, p.key, cn)
	spec.Ensures("credentials are made of sound files, and of nothing else", (err == nil) == p.fine() && (got != nil) == p.fine())
	if spec.Native() {
		if err == nil {
			spec.Ensures("either side is identified by the configured files", got.Info().ServerName == cn && got.Info().SecurityProtocol == "tls")
		}
		return
	}
	spec.Ensures("the credentials are those of the configuration", err != nil || got == creds && made == 1)
}

// A process without usable TLS files ends instead of connecting without.
func ContractConfigured(ca, cert, key, cn string, noPair, noCA, badCA bool, caPEM []byte) {
	p := &place_{ca: ca, cert: cert, key: key, cn: cn, noPair: noPair, noCA: noCA, badCA: badCA, caPEM: caPEM}
	if spec.Native() {
		spec.Requires(p.fine())
	}
	p.prepare()
	defer p.clean()
	var creds credentials.TransportCredentials = &marked_{}
	spec.Replace(credentials.NewTLS, func(c *tls.Config) credentials.TransportCredentials {
		spec.Ensures("either side is identified by the configured files", p.fine() && p.identified(c) && strict_(c) && approved_(c))
		return creds
	})
	got := TLS{CAPath: p.ca, CertPath: p.cert, KeyPath: p.key}.Credentials(cn)
	spec.Ensures("a process goes on with sound credentials only", p.fine() && got != nil && (spec.Native() || got == creds))
	if spec.Native() {
		spec.Ensures("either side is identified by the configured files", got.Info().ServerName == cn)
	}
}

// marked stands for credentials.
type marked_ struct {
	credentials.TransportCredentials
}
