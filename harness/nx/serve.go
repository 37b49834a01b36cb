package nx

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"io"
	"math/big"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"time"
)

// The engine puts models in place of these.

var certDir string

// Certificate makes files of a self-signed certificate.
func Certificate(name string) (cert, key string) {
	if certDir == "" {
		certDir, _ = os.MkdirTemp("", "verif-cert")
	}
	k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	must(err)
	t := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: name},
		NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(time.Hour)}
	c, err := x509.CreateCertificate(rand.Reader, t, t, &k.PublicKey, k)
	must(err)
	kb, err := x509.MarshalECPrivateKey(k)
	must(err)
	cert, key = filepath.Join(certDir, name+".crt"), filepath.Join(certDir, name+".key")
	must(os.WriteFile(cert, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: c}), 0600))
	must(os.WriteFile(key, pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: kb}), 0600))
	return
}

// CleanCertificates removes the files.
func CleanCertificates() {
	if certDir != "" {
		os.RemoveAll(certDir)
	}
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// FreeAddr is an address nobody listens at.
func FreeAddr() string {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	defer l.Close()
	return l.Addr().String()
}

// Fetch asks the server at an address; it gives the text and the name in the
// server's certificate, or nothing.
func Fetch(addr string, secure bool) (text, cert string) {
	c := &http.Client{Timeout: 5 * time.Second, Transport: &http.Transport{DisableKeepAlives: true,
		TLSClientConfig: &tls.Config{InsecureSkipVerify: true}}}
	url := "http://" + addr + "/"
	if secure {
		url = "https://" + addr + "/"
	}
	resp, err := c.Get(url)
	if err != nil {
		return
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	if err != nil || resp.StatusCode != 200 {
		return
	}
	if resp.TLS != nil && len(resp.TLS.PeerCertificates) > 0 {
		cert = resp.TLS.PeerCertificates[0].Subject.CommonName
	}
	return string(b), cert
}
