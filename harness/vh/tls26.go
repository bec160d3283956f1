package main

import (
	"bytes"
	"context"
	"crypto"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/rsa"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/json"
	"encoding/pem"
	"errors"
	"fmt"
	"math/big"
	"math/rand/v2"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/takenet/deckard"
	"github.com/takenet/deckard/internal/config"
	"github.com/takenet/deckard/internal/queue/storage"
	"github.com/takenet/deckard/internal/zverif/vk"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
)

// C26: real servers under generated certificate settings, real clients of every kind,
// the outcome of every connection compared with the mode's table.

var serial int64

type issued struct {
	name  string
	cert  *x509.Certificate
	chain [][]byte // leaf first
	key   crypto.Signer
}

func (i *issued) tls() *tls.Certificate {
	return &tls.Certificate{Certificate: i.chain, PrivateKey: i.key}
}

func newKey(kind int) crypto.Signer {
	switch kind % 3 {
	case 0:
		k, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
		must(err)
		return k
	case 1:
		_, k, err := ed25519.GenerateKey(crand.Reader)
		must(err)
		return k
	}
	k, err := rsa.GenerateKey(crand.Reader, 2048)
	must(err)
	return k
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// issue makes a certificate; by == nil: self-signed.
func issue(name string, by *issued, key crypto.Signer, change func(*x509.Certificate)) *issued {
	serial++
	t := &x509.Certificate{
		SerialNumber: big.NewInt(serial),
		Subject:      pkix.Name{CommonName: name},
		DNSNames:     []string{name},
		NotBefore:    time.Now().Add(-48 * time.Hour),
		NotAfter:     time.Now().Add(480 * time.Hour),
		KeyUsage:     x509.KeyUsageDigitalSignature,
		ExtKeyUsage:  []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth, x509.ExtKeyUsageClientAuth},
	}
	if change != nil {
		change(t)
	}
	parent, signer := t, key
	if by != nil {
		parent, signer = by.cert, by.key
	}
	der, err := x509.CreateCertificate(crand.Reader, t, parent, key.Public(), signer)
	must(err)
	c, err := x509.ParseCertificate(der)
	must(err)
	i := &issued{name: name, cert: c, key: key, chain: [][]byte{der}}
	if by != nil && by.cert.CheckSignatureFrom(by.cert) != nil { // below an intermediate authority
		i.chain = append(i.chain, by.chain...)
	}
	return i
}

func authority(t *x509.Certificate) {
	t.IsCA = true
	t.BasicConstraintsValid = true
	t.KeyUsage = x509.KeyUsageCertSign | x509.KeyUsageDigitalSignature
	t.ExtKeyUsage = nil
}

func writePEM(path string, kind string, blocks ...[]byte) string {
	var b bytes.Buffer
	for _, x := range blocks {
		must(pem.Encode(&b, &pem.Block{Type: kind, Bytes: x}))
	}
	must(os.WriteFile(path, b.Bytes(), 0o600))
	return path
}

func keyPEM(path string, k crypto.Signer) string {
	b, err := x509.MarshalPKCS8PrivateKey(k)
	must(err)
	return writePEM(path, "PRIVATE KEY", b)
}

// tlsBase is everything of certificates a shard uses.
type tlsBase struct {
	dir             string
	servers         []*issued
	scert, skey     []string
	cas             []*issued // two that may be configured, with one intermediate below the first
	inter           *issued
	capem           []string
	both, bundle    string // both CAs in one file
	clients         map[string]*issued
	garbage, absent string
}

var modes26 = []string{"NoClientCert", "RequestClientCert", "RequireAnyClientCert", "VerifyClientCertIfGiven", "RequireAndVerifyClientCert"}

func newBase(dir string) *tlsBase {
	b := &tlsBase{dir: dir, clients: map[string]*issued{}}
	sca := issue("server authority", nil, newKey(0), authority)
	for i := 0; i < 4; i++ {
		by := sca
		if i == 3 {
			by = issue("server intermediate", sca, newKey(0), authority)
		}
		s := issue(fmt.Sprintf("s%d.example", i), by, newKey(i), nil)
		b.servers = append(b.servers, s)
		b.scert = append(b.scert, writePEM(filepath.Join(dir, fmt.Sprint("server", i, ".pem")), "CERTIFICATE", s.chain...))
		b.skey = append(b.skey, keyPEM(filepath.Join(dir, fmt.Sprint("server", i, ".key")), s.key))
	}
	for i := 0; i < 2; i++ {
		ca := issue(fmt.Sprint("client authority ", i), nil, newKey(i), authority)
		b.cas = append(b.cas, ca)
		b.capem = append(b.capem, writePEM(filepath.Join(dir, fmt.Sprint("ca", i, ".pem")), "CERTIFICATE", ca.chain[0]))
	}
	b.bundle = writePEM(filepath.Join(dir, "bundle.pem"), "CERTIFICATE", b.cas[0].chain[0], b.cas[1].chain[0])
	b.inter = issue("client intermediate", b.cas[0], newKey(0), authority)
	alien := issue("foreign authority", nil, newKey(0), authority)
	// the machine's own authorities are not the configured ones: a client of theirs stays foreign
	system := writePEM(filepath.Join(dir, "system.pem"), "CERTIFICATE", alien.chain[0])
	must(os.Setenv("SSL_CERT_FILE", system))
	must(os.Setenv("SSL_CERT_DIR", filepath.Join(dir, "none")))
	twin := issue("client authority 0", nil, newKey(0), authority) // right name, wrong key
	c := b.clients
	c["ca0"] = issue("c0", b.cas[0], newKey(0), nil)
	c["ca0-rsa"] = issue("c0r", b.cas[0], newKey(2), nil)
	c["ca1"] = issue("c1", b.cas[1], newKey(1), nil)
	c["inter"] = issue("ci", b.inter, newKey(0), nil)
	c["self"] = issue("cs", nil, newKey(0), nil)
	c["foreign"] = issue("cf", alien, newKey(0), nil)
	c["twin"] = issue("ct", twin, newKey(0), nil)
	c["expired"] = issue("ce", b.cas[0], newKey(0), func(t *x509.Certificate) { t.NotAfter = time.Now().Add(-24 * time.Hour) })
	c["future"] = issue("cn", b.cas[0], newKey(0), func(t *x509.Certificate) { t.NotBefore = time.Now().Add(24 * time.Hour) })
	c["server-only"] = issue("cu", b.cas[0], newKey(0), func(t *x509.Certificate) { t.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth} })
	c["server"] = b.servers[0]
	b.garbage = filepath.Join(dir, "garbage.pem")
	must(os.WriteFile(b.garbage, []byte("-----BEGIN NOTHING-----\nAAAA\n"), 0o600))
	b.absent = filepath.Join(dir, "absent.pem")
	return b
}

var clients26 = []string{"plain", "none", "ca0", "ca0-rsa", "ca1", "inter", "self", "foreign", "twin", "expired", "future", "server-only", "server"}

// tlsCase is one configuration of the service.
type tlsCase struct {
	Certs  []int
	CAs    string // "", "0", "1", "0,1", "bundle"
	Mode   string // "" leaves the default
	Broken string `json:",omitempty"`
	At     int    `json:",omitempty"`
	Binary bool   `json:",omitempty"`
	Seed   uint64
}

// settings turns a case into the four values.
func (b *tlsBase) settings(k tlsCase) (certs, keys, cas, mode string) {
	var cl, kl, al []string
	for _, i := range k.Certs {
		cl = append(cl, b.scert[i])
		kl = append(kl, b.skey[i])
	}
	switch k.CAs {
	case "0":
		al = []string{b.capem[0]}
	case "1":
		al = []string{b.capem[1]}
	case "0,1":
		al = []string{b.capem[0], b.capem[1]}
	case "1,0":
		al = []string{b.capem[1], b.capem[0]}
	case "bundle":
		al = []string{b.bundle}
	}
	mode = k.Mode
	n := max(len(cl), 1)
	at := k.At % n
	switch k.Broken {
	case "cert-absent":
		cl[at] = b.absent
	case "cert-garbage":
		cl[at] = b.garbage
	case "cert-directory":
		cl[at] = b.dir
	case "key-absent":
		kl[at] = b.absent
	case "key-garbage":
		kl[at] = b.garbage
	case "key-wrong":
		kl[at] = b.skey[(k.Certs[at]+1)%len(b.skey)]
	case "key-is-cert":
		kl[at] = cl[at]
	case "more-certs":
		cl = append(cl, b.scert[3])
	case "more-keys":
		kl = append(kl, b.skey[3])
	case "no-keys":
		kl = nil
	case "no-certs":
		cl = nil
	case "ca-absent":
		al = append(al, b.absent)
	case "ca-absent-first":
		al = append([]string{b.absent}, al...)
	case "ca-garbage":
		al = append(al, b.garbage)
	case "ca-garbage-first":
		al = append([]string{b.garbage}, al...)
	case "ca-is-key":
		al = append(al, b.skey[0])
	case "mode":
		mode = []string{"requireandverifyclientcert", "RequireAndVerify", "Mutual", "NoClientCert ", "true", "4", "RequireAndVerifyClientCert,NoClientCert"}[k.At%7]
	}
	return strings.Join(cl, ","), strings.Join(kl, ","), strings.Join(al, ","), mode
}

var broken26 = []string{"cert-absent", "cert-garbage", "cert-directory", "key-absent", "key-garbage", "key-wrong", "key-is-cert", "more-certs", "more-keys",
	"no-keys", "no-certs", "ca-absent", "ca-absent-first", "ca-garbage", "ca-garbage-first", "ca-is-key", "mode", "mode"}

func drawTLS(r *rand.Rand, broken bool) tlsCase {
	k := tlsCase{Seed: r.Uint64(), At: r.IntN(7)}
	switch r.IntN(6) {
	case 0:
		k.Certs = []int{r.IntN(4)}
	case 1, 2:
		k.Certs = r.Perm(4)[:2]
	case 3:
		k.Certs = r.Perm(4)[:3]
	case 4:
		k.Certs = []int{0}
	case 5:
		if !broken {
			k.Certs = nil
		} else {
			k.Certs = []int{1, 0}
		}
	}
	k.CAs = []string{"", "0", "1", "0,1", "1,0", "bundle", "0"}[r.IntN(7)]
	k.Mode = modes26[r.IntN(5)]
	if k.Mode == "NoClientCert" && r.IntN(2) == 0 {
		k.Mode = ""
	}
	if broken {
		k.Broken = broken26[r.IntN(len(broken26))]
	}
	return k
}

// verifies says whether a client certificate is one the configured authorities vouch for.
func verifies(cas, client string) bool {
	has0, has1 := cas == "bundle" || strings.Contains(cas, "0"), cas == "bundle" || strings.Contains(cas, "1")
	switch client {
	case "ca0", "ca0-rsa", "inter":
		return has0
	case "ca1":
		return has1
	}
	return false
}

// admitted is the table of the modes.
func (k tlsCase) admitted(client string) bool {
	if len(k.Certs) == 0 {
		return client == "plain"
	}
	if client == "plain" {
		return false
	}
	switch k.Mode {
	case "", "NoClientCert", "RequestClientCert":
		return true
	case "RequireAnyClientCert":
		return client != "none"
	case "VerifyClientCertIfGiven":
		return client == "none" || verifies(k.CAs, client)
	case "RequireAndVerifyClientCert":
		return verifies(k.CAs, client)
	}
	return false
}

// running is a started service, in this process or as the binary.
type running struct {
	port  int
	stop  func()
	count func(id string) (int64, error)
	w     *world
}

var errTaken = errors.New("port taken")

// serveTLS starts the service with a case's settings; an error is the service's own refusal.
func serveTLS(c *vk.Ctx, b *tlsBase, k tlsCase) (*running, *mismatch, error) {
	certs, keys, cas, mode := b.settings(k)
	if k.Binary {
		env := map[string]string{"SSL_CERT_FILE": os.Getenv("SSL_CERT_FILE"), "SSL_CERT_DIR": os.Getenv("SSL_CERT_DIR"), "DECKARD_TLS_SERVER_CERT_FILE_PATHS": certs, "DECKARD_TLS_SERVER_KEY_FILE_PATHS": keys,
			"DECKARD_TLS_CLIENT_CERT_FILE_PATHS": cas, "DECKARD_TLS_CLIENT_AUTH_TYPE": mode}
		for n, v := range env {
			if v == "" && k.Seed%2 == 0 {
				delete(env, n)
			}
		}
		for i := 0; i < 8; i++ {
			p, err := launch(b.dir, shardPort(c.Shard), env)
			if err != nil {
				return nil, nil, errTaken
			}
			if !p.ready(60 * time.Second) {
				if p.portTaken() {
					p.kill()
					continue
				}
				if !p.wait(60 * time.Second) {
					p.kill()
					return nil, mm("neither", nil, []string{"C26"}, "the process neither serves nor ends; output: %s", p.tail(500)), nil
				}
				if p.err == nil {
					return nil, mm("refused-status-0", nil, []string{"C26"}, "the process refused its settings with exit status 0; output: %s", p.tail(500)), nil
				}
				return nil, nil, fmt.Errorf("exit: %s", p.status())
			}
			// the port is open before the certificates are loaded: a service that refuses them ends at once
			if k.Broken != "" && p.wait(1500*time.Millisecond) {
				if p.portTaken() {
					continue
				}
				return nil, nil, fmt.Errorf("exit: %s", p.status())
			}
			if p.portTaken() {
				p.kill()
				continue
			}
			return &running{port: p.port, stop: p.kill}, nil, nil
		}
		return nil, nil, errTaken
	}
	config.TlsServerCertFilePaths.Set(certs)
	config.TlsServerKeyFilePaths.Set(keys)
	config.TlsClientCertFilePaths.Set(cas)
	if mode == "" {
		mode = "NoClientCert"
	}
	config.TlsClientAuthType.Set(mode)
	w, err := newWorld(worldOpts{kind: "mm"})
	if err != nil {
		return nil, nil, errTaken
	}
	for i := 0; i < 20; i++ {
		port := shardPort(c.Shard)
		config.GrpcPort.Set(port)
		srv, err := w.svc.ServeGRPCServer(context.Background())
		if err != nil && strings.Contains(err.Error(), "address already in use") {
			continue
		}
		if err != nil {
			w.close()
			return nil, nil, err
		}
		return &running{port: port, w: w, stop: func() { srv.Stop(); w.close() }, count: func(id string) (int64, error) {
			return w.st.Count(context.Background(), &storage.FindOptions{InternalFilter: &storage.InternalFilter{Ids: &[]string{id}, Queue: "q"}}, nil)
		}}, nil, nil
	}
	w.close()
	return nil, nil, errTaken
}

type attempt struct {
	ok        bool
	err       error
	presented [][]byte
	asked     bool // the server asked for a certificate
	sent      bool
}

// try makes one call as a client of the given kind.
func (b *tlsBase) try(port int, client, name string, tls12 bool, cache tls.ClientSessionCache, call func(context.Context, deckard.DeckardClient) error) attempt {
	var a attempt
	var mu sync.Mutex
	var conf *tls.Config
	if client != "plain" {
		conf = &tls.Config{ServerName: name, InsecureSkipVerify: true, ClientSessionCache: cache}
		if tls12 {
			conf.MaxVersion = tls.VersionTLS12
		}
		conf.VerifyConnection = func(s tls.ConnectionState) error {
			mu.Lock()
			defer mu.Unlock()
			a.presented = nil
			for _, p := range s.PeerCertificates {
				a.presented = append(a.presented, p.Raw)
			}
			return nil
		}
		conf.GetClientCertificate = func(*tls.CertificateRequestInfo) (*tls.Certificate, error) {
			mu.Lock()
			defer mu.Unlock()
			a.asked = true
			if client == "none" {
				return &tls.Certificate{}, nil
			}
			a.sent = true
			return b.clients[client].tls(), nil // whatever authorities the server names
		}
	}
	conn, err := dialTo(port, conf)
	if err != nil {
		a.err = err
		return a
	}
	ctx, cancel := within(40 * time.Second)
	err = call(ctx, deckard.NewDeckardClient(conn))
	cancel()
	conn.Close()
	mu.Lock()
	defer mu.Unlock()
	a.ok, a.err = err == nil, err
	r := a
	return r
}

func runTLS(c *vk.Ctx, b *tlsBase, k tlsCase) *mismatch {
	r := rand.New(rand.NewPCG(k.Seed, 26))
	bad := func(key, f string, a ...any) *mismatch {
		certs, keys, cas, mode := b.settings(k)
		return mm(key, nil, []string{"C26"}, f+" (certificates %q, keys %q, client authorities %q, mode %q)", append(a, certs, keys, cas, mode)...)
	}
	run, m, err := serveTLS(c, b, k)
	if m != nil {
		return m
	}
	if errors.Is(err, errTaken) {
		c.Count("skipped_ports", 1)
		return nil
	}
	c.Eval(1)
	kind := "inproc"
	if k.Binary {
		kind = "binary"
	}
	c.Count("settings_"+kind, 1)
	if k.Broken != "" {
		if err != nil {
			c.Count("refused_"+k.Broken, 1)
			c.Distinct(fmt.Sprint(kind, k.Broken, k.Mode, k.CAs, len(k.Certs), k.At))
			return nil
		}
		// it must not serve: show what a client without any credentials gets
		a := b.try(run.port, "plain", "", false, nil, addCall("q", "x"))
		a2 := b.try(run.port, "none", "", false, nil, addCall("q", "y"))
		run.stop()
		return bad("started-"+k.Broken, "the service started with broken settings (%s); an unauthenticated plaintext client succeeds: %v, a TLS client: %v", k.Broken, a.ok, a2.ok)
	}
	if err != nil {
		return bad("refused-good", "the service did not start with good settings: %v", err)
	}
	defer run.stop()
	order := r.Perm(len(clients26))
	if k.Binary {
		order = order[:7]
	}
	n := 0
	for _, ci := range order {
		client := clients26[ci]
		if client == "foreign" && k.CAs == "" && strings.Contains(k.Mode, "Verify") {
			continue // with no authority configured the machine's own ones decide
		}
		tls12 := r.IntN(3) == 0
		name := []string{"", "unknown.example"}[r.IntN(2)]
		want := -1
		if len(k.Certs) > 0 && r.IntN(3) > 0 {
			want = k.Certs[r.IntN(len(k.Certs))]
			name = b.servers[want].name
		}
		var sess tls.ClientSessionCache
		times := 1
		if r.IntN(4) == 0 {
			sess, times = tls.NewLRUClientSessionCache(4), 2
		}
		admitted := k.admitted(client)
		for t := 0; t < times; t++ {
			n++
			id := fmt.Sprint("m", n)
			a := b.try(run.port, client, name, tls12, sess, addCall("q", id))
			if !a.ok && admitted && status.Code(a.err) != codes.Internal { // once more: nothing but the network's doing
				a = b.try(run.port, client, name, tls12, nil, addCall("q", id))
			}
			c.Count("attempts", 1)
			what := fmt.Sprintf("client %s (server name %q, TLS1.2 only %v, connection %d)", client, name, tls12, t+1)
			if a.ok != admitted {
				if a.ok {
					return bad("admitted-"+client, "%s was served and must be rejected", what)
				}
				return bad("rejected-"+client, "%s was rejected and must be served: %v", what, a.err)
			}
			if !admitted && run.count != nil {
				cnt, err := run.count(id)
				if err != nil || cnt != 0 {
					return bad("executed", "the call of the rejected %s was executed", what)
				}
			}
			if admitted && run.count != nil {
				if cnt, err := run.count(id); err != nil || cnt != 1 {
					return bad("not-executed", "the call of the admitted %s left %d messages (%v)", what, cnt, err)
				}
			}
			if client != "plain" && len(k.Certs) > 0 {
				if a.presented == nil && admitted {
					return bad("no-cert", "%s: the server presented no certificate", what)
				}
				if a.presented != nil && t == 0 {
					got := -1
					for _, i := range k.Certs {
						if sameChain(a.presented, b.servers[i].chain) {
							got = i
						}
					}
					if got < 0 {
						return bad("presented", "%s: the presented chain is none of the configured ones", what)
					}
					if want >= 0 && got != want {
						return bad("presented-other", "%s: the certificate for the asked name is configured but %s was presented", what, b.servers[got].name)
					}
					c.Count("presented", 1)
					c.Distinct(fmt.Sprint("presented", got, len(k.Certs), want >= 0))
				}
			}
			if a.sent {
				c.Count("client_certificates_sent", 1)
			}
			if admitted {
				c.Count("admitted", 1)
			} else {
				c.Count("rejected", 1)
			}
			c.Distinct(fmt.Sprint(kind, k.Mode, k.CAs, client, tls12, admitted, t, len(k.Certs)))
		}
	}
	return nil
}

func sameChain(a, b [][]byte) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !bytes.Equal(a[i], b[i]) {
			return false
		}
	}
	return true
}

func addCall(queue, id string) func(context.Context, deckard.DeckardClient) error {
	return func(ctx context.Context, cl deckard.DeckardClient) error {
		_, err := cl.Add(ctx, &deckard.AddRequest{Messages: []*deckard.AddMessage{{Id: id, Queue: queue, Timeless: true}}}, grpc.WaitForReady(false))
		return err
	}
}

func run26(c *vk.Ctx) {
	quiet()
	clockMs.Store(0)
	r := c.Rand(uint64(2600 + c.Shard))
	b := newBase(c.Dir)
	// every mode with every authority list, every way of breaking the settings: a share for each process
	var all []tlsCase
	for _, m := range modes26 {
		for _, cas := range []string{"", "0", "1", "0,1", "bundle"} {
			all = append(all, tlsCase{Certs: []int{0}, CAs: cas, Mode: m, Seed: r.Uint64()})
		}
	}
	for _, br := range broken26[:len(broken26)-1] {
		for _, cs := range [][]int{{0}, {1, 0}} {
			all = append(all, tlsCase{Certs: cs, CAs: "0", Mode: "RequireAndVerifyClientCert", Broken: br, At: len(cs) - 1, Seed: r.Uint64()})
		}
		all = append(all, tlsCase{Certs: []int{0}, CAs: "0", Mode: "RequireAndVerifyClientCert", Broken: br, Binary: true, Seed: r.Uint64()})
	}
	for at := 0; at < 7; at++ {
		all = append(all, tlsCase{Certs: []int{0}, CAs: "0", Broken: "mode", At: at, Seed: r.Uint64()})
	}
	for _, m := range modes26 {
		all = append(all, tlsCase{Certs: []int{0, 1}, CAs: "0,1", Mode: m, Binary: true, Seed: r.Uint64()})
	}
	all = append(all, tlsCase{Seed: r.Uint64()}, tlsCase{Seed: r.Uint64(), Binary: true}, tlsCase{CAs: "0", Mode: "RequireAndVerifyClientCert", Seed: r.Uint64()})
	one := func(k tlsCase) {
		if m := guard26(c, b, k); m != nil {
			c.Violation(m.key, k, "%s", m.text)
		}
	}
	for i, k := range all {
		if i%c.Shards == c.Shard && !c.Past(0.9) {
			one(k)
		}
	}
	n := c.N(1200, 40000) / c.Shards
	for i := 0; i < max(n, 4) && !c.Past(0.9); i++ {
		k := drawTLS(r, r.IntN(4) == 0)
		k.Binary = r.IntN(6) == 0
		one(k)
	}
}

func guard26(c *vk.Ctx, b *tlsBase, k tlsCase) (m *mismatch) {
	defer func() {
		if p := recover(); p != nil {
			m = mm("panic", nil, []string{"C26"}, "panic: %v", p)
		}
	}()
	return runTLS(c, b, k)
}

func init() {
	vk.Register(&vk.Check{
		Prop: "C26", Shards: 8, QuickS: 40, ThoroughS: 400,
		Rule:        "Servers are started through the service's own start-up (ServeGRPCServer, and the real binary with environment variables) under generated settings: every mode, lists of certificates and of authorities, and every way of breaking one element. Real clients of thirteen kinds (plaintext, no certificate, right, expired, not yet valid, self-signed, foreign, same-named authority, wrong usage, through an intermediate), TLS 1.2 and 1.3, with and without session resumption, make an Add; distinct counts (mode, authorities, client, version, outcome) and (breakage, mode) tuples. The answer must follow the mode's table, the storage must hold exactly the admitted calls' messages, and the presented chain must be a configured one, the one for the asked name when there is one.",
		Assumptions: []string{"certificates are generated at run time; revocation is not part of Deckard"},
		Run:         run26,
		Replay: func(c *vk.Ctx, raw json.RawMessage) {
			var k tlsCase
			if json.Unmarshal(raw, &k) != nil {
				return
			}
			quiet()
			b := newBase(c.Dir)
			if m := guard26(c, b, k); m != nil {
				c.Violation(m.key, k, "%s", m.text)
			}
		},
	})
}
