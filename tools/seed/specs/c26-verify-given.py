id='c26-verify-given'; prop='C26'; bin=True
needs='client authentication VerifyClientCertIfGiven and a client whose certificate comes from an unknown authority'
breaks='a client certificate that is given is not verified: any client gets in'
edits=[('internal/service/deckard_service.go','		return tls.VerifyClientCertIfGiven, nil','		return tls.RequestClientCert, nil')]
demo='''
package zdemo

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"math/big"
	"os"
	"path/filepath"
	"testing"
	"time"

	"github.com/takenet/deckard"
	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials"
)

type pair struct {
	c   *x509.Certificate
	k   *ecdsa.PrivateKey
	pem []byte
	key []byte
}

func issue(t *testing.T, n int64, ca *pair) *pair {
	k, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	x := &x509.Certificate{SerialNumber: big.NewInt(n), Subject: pkix.Name{CommonName: "n"}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(time.Hour),
		DNSNames: []string{"localhost"}, IsCA: ca == nil, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageDigitalSignature | x509.KeyUsageCertSign,
		ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth, x509.ExtKeyUsageClientAuth}}
	pc, pk := x, k
	if ca != nil {
		pc, pk = ca.c, ca.k
	}
	d, err := x509.CreateCertificate(rand.Reader, x, pc, &k.PublicKey, pk)
	if err != nil {
		t.Fatal(err)
	}
	c, _ := x509.ParseCertificate(d)
	kb, _ := x509.MarshalECPrivateKey(k)
	return &pair{c, k, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: d}), pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: kb})}
}

func TestDemo(t *testing.T) {
	ca, other := issue(t, 1, nil), issue(t, 2, nil)
	srv := issue(t, 3, ca)
	d := t.TempDir()
	put := func(n string, b []byte) string {
		f := filepath.Join(d, n)
		if err := os.WriteFile(f, b, 0o600); err != nil {
			t.Fatal(err)
		}
		return f
	}
	p := boot(t, "DECKARD_CACHE_TYPE=MEMORY", "DECKARD_STORAGE_TYPE=MEMORY", "DECKARD_TLS_SERVER_CERT_FILE_PATHS="+put("c", srv.pem), "DECKARD_TLS_SERVER_KEY_FILE_PATHS="+put("k", srv.key),
		"DECKARD_TLS_CLIENT_CERT_FILE_PATHS="+put("ca", ca.pem), "DECKARD_TLS_CLIENT_AUTH_TYPE=VerifyClientCertIfGiven")
	roots := x509.NewCertPool()
	roots.AddCert(ca.c)
	call := func(cl *pair) error {
		cfg := &tls.Config{RootCAs: roots, ServerName: "localhost"}
		if cl != nil {
			kp, err := tls.X509KeyPair(cl.pem, cl.key)
			if err != nil {
				t.Fatal(err)
			}
			cfg.GetClientCertificate = func(*tls.CertificateRequestInfo) (*tls.Certificate, error) { return &kp, nil }
		}
		c, err := grpc.NewClient(p.addr, grpc.WithTransportCredentials(credentials.NewTLS(cfg)))
		if err != nil {
			t.Fatal(err)
		}
		defer c.Close()
		_, err = deckard.NewDeckardClient(c).Count(ctx, &deckard.CountRequest{Queue: "q"})
		return err
	}
	if err := call(nil); err != nil {
		t.Fatal("without a certificate: ", err)
	}
	if err := call(issue(t, 4, ca)); err != nil {
		t.Fatal("with a good certificate: ", err)
	}
	if err := call(issue(t, 5, other)); err == nil {
		t.Fatal("a client with a certificate of an unknown authority got in")
	}
}
'''
