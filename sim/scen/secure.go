package scen

import (
	"crypto/ed25519"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"fmt"
	"io"
	"math/big"
	"net"
	"os"
	"path/filepath"
	"slices"
	"sync"
	"time"
)

// security is how a host's connections are encrypted.
type security struct {
	verify bool   // clients know the router's authority
	cert   bool   // clients have a certificate
	shape  int64  // how the configuration says so, shape* below
	old    bool   // the router knows nothing newer than TLS 1.2
	always string // what the router always proves its identity with
}

const (
	shapeGetCert = 1 << iota // the certificate comes from a callback
	shapeName                // the router is to prove another name than the address
	shapeCheck               // the router is verified by a callback
	shapeNew                 // nothing older than TLS 1.3
)

// identities of the simulation, made from fixed keys.
type identities struct {
	caPEM, certPEM, keyPEM []byte // authority and client
	roots                  *x509.CertPool
	client                 tls.Certificate
	proofs                 map[string]tls.Certificate
}

// routerHosts are the names the router's certificate is good for.
var routerHosts = []string{"c1", "c2", "c3", "c4", "router"}

// brokerName is what a router is called other than by its address.
const brokerName = "broker"

var theIdentities = sync.OnceValue(func() *identities {
	id := &identities{proofs: map[string]tls.Certificate{}, roots: x509.NewCertPool()}
	serial := int64(0)
	day := 24 * time.Hour
	start := time.Date(2000, 1, 1, 0, 0, 0, 0, time.UTC)
	key := func(n byte) ed25519.PrivateKey {
		seed := make([]byte, ed25519.SeedSize)
		seed[0] = n
		return ed25519.NewKeyFromSeed(seed)
	}
	issue := func(name string, n byte, hosts []string, end time.Time, parent *x509.Certificate, by ed25519.PrivateKey) (*x509.Certificate, tls.Certificate) {
		serial++
		k := key(n)
		t := &x509.Certificate{
			SerialNumber: big.NewInt(serial), Subject: pkix.Name{CommonName: name}, DNSNames: hosts,
			NotBefore: start.Add(-3650 * day), NotAfter: end, BasicConstraintsValid: true,
			KeyUsage: x509.KeyUsageDigitalSignature, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth, x509.ExtKeyUsageServerAuth},
		}
		if parent == nil {
			parent, by = t, k
			t.IsCA, t.KeyUsage, t.ExtKeyUsage = true, x509.KeyUsageCertSign, nil
		}
		der, err := x509.CreateCertificate(nil, t, parent, k.Public(), by)
		if err != nil {
			panic(err)
		}
		c, err := x509.ParseCertificate(der)
		if err != nil {
			panic(err)
		}
		return c, tls.Certificate{Certificate: [][]byte{der}, PrivateKey: k}
	}
	far := start.Add(36500 * day)
	ca, caTLS := issue("authority", 1, nil, far, nil, nil)
	other, otherTLS := issue("authority", 2, nil, far, nil, nil)
	caKey, otherKey := caTLS.PrivateKey.(ed25519.PrivateKey), otherTLS.PrivateKey.(ed25519.PrivateKey)
	_, id.client = issue("vanflow", 3, nil, far, ca, caKey)
	_, id.proofs[""] = issue("router", 4, routerHosts, far, ca, caKey)
	_, id.proofs["impostor"] = issue("router", 5, routerHosts, far, other, otherKey)
	_, id.proofs["wrongname"] = issue("evil", 6, []string{"evil"}, far, ca, caKey)
	_, id.proofs["broker"] = issue("router", 8, []string{brokerName}, far, ca, caKey)
	for i, h := range routerHosts {
		_, id.proofs[h] = issue("router", 9+byte(i), []string{h}, far, ca, caKey)
	}
	_, id.proofs["expired"] = issue("router", 7, routerHosts, start.Add(-day), ca, caKey)
	id.roots.AddCert(ca)
	block := func(kind string, der []byte) []byte {
		return pem.EncodeToMemory(&pem.Block{Type: kind, Bytes: der})
	}
	der, err := x509.MarshalPKCS8PrivateKey(id.client.PrivateKey)
	if err != nil {
		panic(err)
	}
	id.caPEM, id.certPEM, id.keyPEM = block("CERTIFICATE", ca.Raw), block("CERTIFICATE", id.client.Certificate[0]), block("PRIVATE KEY", der)
	return id
})

// clientTLS is the configuration of a client.
func (s *security) clientTLS() *tls.Config {
	id := theIdentities()
	cfg := &tls.Config{InsecureSkipVerify: !s.verify}
	if s.verify {
		cfg.RootCAs = id.roots
		if s.shape&shapeName != 0 {
			cfg.ServerName = brokerName
		}
		if s.shape&shapeCheck != 0 {
			roots, name := cfg.RootCAs, cfg.ServerName
			cfg.InsecureSkipVerify, cfg.RootCAs = true, nil
			cfg.VerifyConnection = func(cs tls.ConnectionState) error {
				n := name
				if n == "" {
					n = cs.ServerName
				}
				_, err := cs.PeerCertificates[0].Verify(x509.VerifyOptions{Roots: roots, DNSName: n, CurrentTime: time.Now()})
				return err
			}
		}
	}
	if s.shape&shapeNew != 0 {
		cfg.MinVersion = tls.VersionTLS13
	}
	if s.cert && s.shape&shapeGetCert != 0 {
		cfg.GetClientCertificate = func(*tls.CertificateRequestInfo) (*tls.Certificate, error) { return &id.client, nil }
	} else if s.cert {
		cfg.Certificates = []tls.Certificate{id.client}
	}
	return cfg
}

// proofFor is the certificate a router shows, which proves what it is unless
// the fault says otherwise.
func (s *security) proofFor(host, fault string) tls.Certificate {
	id := theIdentities()
	switch {
	case fault == "wrongname" && s.shape&shapeName != 0:
		return id.proofs[host]
	case fault == "wrongname" && host != "router":
		return id.proofs[routerHosts[(slices.Index(routerHosts, host)+1)%4]]
	case fault != "":
		return id.proofs[fault]
	case s.shape&shapeName != 0:
		return id.proofs["broker"]
	}
	return id.proofs[""]
}

// routerProofs are faults of the handshake in which the router does not prove
// its identity.
var routerProofs = []string{"impostor", "wrongname", "expired"}

// readTLS is read for an encrypted connection.
func (rc *rconn) readTLS() {
	r := rc.r
	// the first bytes tell whether the client begins to encrypt
	for !rc.closed {
		if at, ok := rc.c.up.ready(); ok && at <= r.e.Now() {
			break
		} else if !rc.waitUp(at, ok) {
			return
		}
	}
	if rc.closed {
		return
	}
	if b := rc.c.up.q[0].b; b[0] != 0x16 {
		r.bad("clear-text", "conn %d begins with %q, it was to be encrypted", rc.c.id, b)
		rc.shut()
		return
	}
	if rc.failHandshake("tls") {
		rc.shut()
		return
	}
	for _, p := range routerProofs {
		if rc.failHandshake(p) {
			rc.proof = p
		}
	}
	if rc.proof == "" {
		rc.proof = rc.sec.always
	}
	old := rc.failHandshake("oldtls") || rc.sec.old
	goOn := make(chan struct{})
	rc.stall("tls", func() { close(goOn) })
	<-goOn
	cfg := &tls.Config{
		Certificates: []tls.Certificate{rc.sec.proofFor(rc.host, rc.proof)}, ClientAuth: tls.RequestClientCert,
		CurvePreferences: []tls.CurveID{tls.X25519}, SessionTicketsDisabled: true,
	}
	if old {
		cfg.MaxVersion = tls.VersionTLS12
	}
	srv := tls.Server(routerEnd{rc}, cfg)
	if err := srv.Handshake(); err != nil {
		r.e.Logf("router: conn %d handshake: %v", rc.c.id, err)
		rc.gone("handshake failed")
		return
	}
	if certs := srv.ConnectionState().PeerCertificates; rc.sec.cert && (len(certs) == 0 || certs[0].Subject.CommonName != "vanflow") {
		r.bad("no-certificate", "conn %d presents no certificate, the client was given one", rc.c.id)
	}
	rc.tls = srv
	b := make([]byte, 32<<10)
	for {
		n, err := srv.Read(b)
		if n > 0 {
			if rc.proof != "" && rc.sec.verify {
				r.bad("impostor-trusted", "conn %d sent %q to a router that is not what it was to be (%s)", rc.c.id, b[:n], rc.proof)
			}
			if old && rc.sec.shape&shapeNew != 0 {
				r.bad("weakly-encrypted", "conn %d uses TLS 1.2, it was to use TLS 1.3", rc.c.id)
			}
			rc.buf = append(rc.buf, b[:n]...)
			rc.lastRx = r.e.Now()
			rc.feed()
		}
		if err != nil {
			rc.gone(fmt.Sprint("read: ", err))
			return
		}
	}
}

// waitUp waits for more from the client.
func (rc *rconn) waitUp(at time.Duration, ok bool) bool {
	p := rc.c.up
	switch {
	case ok:
		p.wait(at, nil)
	case p.fin:
		if p.hold > rc.r.e.Now() {
			p.wait(p.hold, nil)
			return true
		}
		rc.gone("eof")
		return false
	default:
		p.wait(0, nil)
	}
	return true
}

// routerEnd is the router's end of the bytes on the wire.
type routerEnd struct{ rc *rconn }

func (t routerEnd) Read(b []byte) (int, error) {
	rc := t.rc
	for {
		if rc.closed {
			return 0, net.ErrClosed
		}
		at, ok := rc.c.up.ready()
		if ok && at <= rc.r.e.Now() {
			return copy(b, rc.c.up.take(len(b))), nil
		}
		if !rc.waitUp(at, ok) {
			return 0, io.EOF
		}
	}
}

func (t routerEnd) Write(b []byte) (int, error) {
	if t.rc.closed {
		return 0, net.ErrClosed
	}
	t.rc.c.downw.put(b)
	return len(b), nil
}

func (routerEnd) Close() error                     { return nil }
func (routerEnd) LocalAddr() net.Addr              { return simAddr("router") }
func (routerEnd) RemoteAddr() net.Addr             { return simAddr("client") }
func (routerEnd) SetDeadline(time.Time) error      { return nil }
func (routerEnd) SetReadDeadline(time.Time) error  { return nil }
func (routerEnd) SetWriteDeadline(time.Time) error { return nil }

// identityDir holds the client's files, beside the simulator.
func identityDir() string {
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	return filepath.Join(filepath.Dir(exe), "identities")
}

// WriteIdentities writes the client's files. It is no part of a run: files
// written at the same time by many simulators would make the memory of a run
// depend on the others.
func WriteIdentities() error {
	dir := identityDir()
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	id := theIdentities()
	config := func(scheme, port, tls string) []byte {
		return []byte(fmt.Sprintf(`{"scheme": %q, "host": "router", "port": %q%s}`, scheme, port, tls))
	}
	files := fmt.Sprintf(`, "tls": {"ca": %q, "cert": %q, "key": %q, "verify": `, dir+"/ca.crt", dir+"/tls.crt", dir+"/tls.key")
	for name, b := range map[string][]byte{
		"ca.crt": id.caPEM, "tls.crt": id.certPEM, "tls.key": id.keyPEM,
		"plain.json":  config("amqp", "5672", ""),
		"verify.json": config("amqps", "5671", files+"true}"),
		"blind.json":  config("amqps", "5671", files+"false}"),
	} {
		tmp := filepath.Join(dir, "."+name)
		if err := os.WriteFile(tmp, b, 0o644); err != nil {
			return err
		}
		if err := os.Rename(tmp, filepath.Join(dir, name)); err != nil {
			return err
		}
	}
	return nil
}
