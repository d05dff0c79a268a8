package tool

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"fmt"
	"io"
	"math/big"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/c-kruse/vanflow"
	"pgregory.net/rapid"

	"vanflowverif/peer"
	"vanflowverif/vt"
)

// C31Plan is a run of the tool with a TLS configuration.
type C31Plan struct {
	Command string   `json:"command"` // serve, log, fixture
	JSON    bool     `json:"json"`    // configured by a connect.json, else by flags
	Plain   bool     `json:"plain"`   // configured without TLS
	Verify  bool     `json:"verify"`
	CA      string   `json:"ca"`     // good, other, bundle, garbage, missing, unset
	Client  string   `json:"client"` // pair, none, mismatch, nokey, nocert, garbage
	Host    string   `json:"host"`
	Broken  string   `json:"broken,omitempty"` // unreadable, malformed, mistyped, command, nocommand, commands
	Servers []string `json:"servers"`          // certificates of the router over time, see serverKinds
	Old     bool     `json:"old"`              // the router speaks TLS 1.2 only
}

var serverKinds = []string{"good", "intermediate", "plain", "otherca", "otherhost", "expired", "future", "selfsigned", "clientonly", "impostor"}

func genC31(t *rapid.T) C31Plan {
	p := C31Plan{
		Command: rapid.SampledFrom([]string{"serve", "serve", "log", "fixture"}).Draw(t, "command"),
		JSON:    rapid.Bool().Draw(t, "json"),
		Plain:   rapid.IntRange(0, 9).Draw(t, "plain") == 7,
		Verify:  rapid.IntRange(0, 3).Draw(t, "verify") != 3,
		CA:      rapid.SampledFrom([]string{"good", "good", "good", "good", "bundle", "bundle", "other", "garbage", "missing", "unset"}).Draw(t, "ca"),
		Client:  rapid.SampledFrom([]string{"pair", "pair", "pair", "pair", "pair", "pair", "none", "none", "mismatch", "nokey", "nocert", "garbage"}).Draw(t, "client"),
		Host:    rapid.SampledFrom([]string{"localhost", "127.0.0.1"}).Draw(t, "host"),
		Old:     rapid.IntRange(0, 3).Draw(t, "old") == 3,
	}
	if rapid.IntRange(0, 11).Draw(t, "broken") == 7 {
		p.Broken = rapid.SampledFrom([]string{"unreadable", "malformed", "mistyped", "command", "nocommand", "commands"}).Draw(t, "how")
	}
	if p.CA == "unset" && p.Client == "none" {
		p.Client = "pair" // or there is no TLS configuration
	}
	for i, n := 0, rapid.IntRange(1, 2).Draw(t, "servers"); i < n; i++ {
		p.Servers = append(p.Servers, rapid.SampledFrom(serverKinds).Draw(t, "server"))
	}
	if rapid.Bool().Draw(t, "fine") {
		p.Servers = append(p.Servers, "good")
	}
	return p
}

// refused tells that the tool cannot start with the configuration.
func (p C31Plan) refused() bool {
	if p.Broken != "" && (p.JSON || p.Broken != "unreadable" && p.Broken != "malformed" && p.Broken != "mistyped") {
		return true
	}
	if p.Plain {
		return false
	}
	if p.Verify && (p.CA == "missing" || p.CA == "unset") {
		return true
	}
	return p.Client != "pair" && p.Client != "none"
}

// accepts tells that a router with a certificate is to be trusted.
func (p C31Plan) accepts(server string) bool {
	if p.Plain || server == "plain" {
		return p.Plain && server == "plain"
	}
	if !p.Verify {
		return true
	}
	if server == "otherca" {
		return p.CA == "other" || p.CA == "bundle"
	}
	return (server == "good" || server == "intermediate") && (p.CA == "good" || p.CA == "bundle")
}

// authority issues certificates.
type authority struct {
	cert  *x509.Certificate
	key   *ecdsa.PrivateKey
	chain [][]byte
}

var serial int64 = 1

func newKey() *ecdsa.PrivateKey {
	k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		vt.Abort("key: %v", err)
	}
	return k
}

// issue makes a certificate; by a nil authority it is self-signed.
func (a *authority) issue(name string, ca bool, adjust func(*x509.Certificate)) *authority {
	serial++
	t := &x509.Certificate{
		SerialNumber: big.NewInt(serial), Subject: pkix.Name{CommonName: name},
		NotBefore: time.Now().Add(-48 * time.Hour), NotAfter: time.Now().Add(48 * time.Hour),
		IsCA: ca, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageDigitalSignature,
	}
	if ca {
		t.KeyUsage |= x509.KeyUsageCertSign
	} else {
		t.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth, x509.ExtKeyUsageClientAuth}
	}
	if adjust != nil {
		adjust(t)
	}
	k := newKey()
	parent, signer := t, k
	if a != nil {
		parent, signer = a.cert, a.key
	}
	der, err := x509.CreateCertificate(rand.Reader, t, parent, &k.PublicKey, signer)
	if err != nil {
		vt.Abort("certificate: %v", err)
	}
	c, err := x509.ParseCertificate(der)
	if err != nil {
		vt.Abort("certificate: %v", err)
	}
	out := &authority{cert: c, key: k, chain: [][]byte{der}}
	if a != nil && len(a.chain) > 1 || a != nil && a.cert.Subject.CommonName == "intermediate" {
		out.chain = append(out.chain, a.chain...)
	}
	return out
}

func (a *authority) tls() tls.Certificate {
	return tls.Certificate{Certificate: a.chain, PrivateKey: a.key}
}

func (a *authority) certPEM() []byte {
	return pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: a.cert.Raw})
}

func (a *authority) keyPEM() []byte {
	b, err := x509.MarshalECPrivateKey(a.key)
	if err != nil {
		vt.Abort("key: %v", err)
	}
	return pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: b})
}

// front is a router's TLS listener.
type front struct {
	l    net.Listener
	back string

	mu       sync.Mutex
	kind     string
	cert     map[string]tls.Certificate
	old      bool
	refused  map[string]int // handshakes that failed
	accepted map[string]int
	clients  map[string]int // names of the clients' certificates
	leaked   string         // what reached a router that is not to be trusted
	conns    []net.Conn
}

func (f *front) run() {
	for {
		c, err := f.l.Accept()
		if err != nil {
			return
		}
		go f.serve(c)
	}
}

// use changes the certificate and ends all connections.
func (f *front) use(kind string) {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.kind = kind
	for _, c := range f.conns {
		c.Close()
	}
	f.conns = nil
}

func (f *front) serve(c net.Conn) {
	defer c.Close()
	f.mu.Lock()
	kind := f.kind
	cert := f.cert[kind]
	f.conns = append(f.conns, c)
	f.mu.Unlock()
	if kind == "plain" {
		f.pass(kind, c, "")
		return
	}
	cfg := &tls.Config{Certificates: []tls.Certificate{cert}, ClientAuth: tls.RequestClientCert}
	if f.old {
		cfg.MaxVersion = tls.VersionTLS12
	}
	s := tls.Server(c, cfg)
	c.SetDeadline(time.Now().Add(60 * time.Second))
	if err := s.Handshake(); err != nil {
		f.mu.Lock()
		f.refused[kind]++
		f.mu.Unlock()
		return
	}
	c.SetDeadline(time.Time{})
	name := "none"
	if cs := s.ConnectionState().PeerCertificates; len(cs) > 0 {
		name = cs[0].Subject.CommonName
	}
	f.pass(kind, s, name)
}

// pass connects a client with the router.
func (f *front) pass(kind string, c net.Conn, client string) {
	up, err := net.Dial("tcp", f.back)
	if err != nil {
		return
	}
	defer up.Close()
	b := make([]byte, 32<<10)
	first := true
	go func() {
		io.Copy(c, up)
		c.Close()
	}()
	for {
		n, err := c.Read(b)
		if first && n > 0 {
			first = false
			f.mu.Lock()
			if kind == "plain" && b[0] == 0x16 { // a TLS handshake
				f.refused[kind]++
				f.mu.Unlock()
				return
			}
			f.accepted[kind]++
			f.clients[client]++
			if f.leaked == "" {
				f.leaked = kind
			}
			f.mu.Unlock()
		}
		if n > 0 {
			if _, err := up.Write(b[:n]); err != nil {
				return
			}
		}
		if err != nil {
			return
		}
	}
}

var (
	pkiOnce sync.Once
	pki     struct {
		ca, other, client, other2 *authority
		servers                   map[string]tls.Certificate
	}
)

func makePKI() {
	pkiOnce.Do(func() {
		var root *authority
		names := func(c *x509.Certificate) {
			c.DNSNames, c.IPAddresses = []string{"localhost"}, []net.IP{net.IPv4(127, 0, 0, 1)}
		}
		with := func(f func(c *x509.Certificate)) func(*x509.Certificate) {
			return func(c *x509.Certificate) { names(c); f(c) }
		}
		pki.ca = root.issue("ca", true, nil)
		pki.other = root.issue("other", true, nil)
		pki.client = pki.ca.issue("the client", false, nil)
		pki.other2 = pki.ca.issue("another client", false, nil)
		// looks like the CA but has another key
		fake := root.issue("ca", true, func(c *x509.Certificate) { c.SubjectKeyId = pki.ca.cert.SubjectKeyId })
		pki.servers = map[string]tls.Certificate{
			"good":         pki.ca.issue("router", false, names).tls(),
			"intermediate": pki.ca.issue("intermediate", true, nil).issue("router", false, names).tls(),
			"otherca":      pki.other.issue("router", false, names).tls(),
			"otherhost": pki.ca.issue("localhost", false, func(c *x509.Certificate) {
				c.DNSNames, c.IPAddresses = []string{"router.example", "localhost.example"}, []net.IP{net.IPv4(127, 0, 0, 2)}
			}).tls(),
			"expired":    pki.ca.issue("router", false, with(func(c *x509.Certificate) { c.NotAfter = time.Now().Add(-24 * time.Hour) })).tls(),
			"future":     pki.ca.issue("router", false, with(func(c *x509.Certificate) { c.NotBefore = time.Now().Add(24 * time.Hour) })).tls(),
			"selfsigned": root.issue("router", false, names).tls(),
			"clientonly": pki.ca.issue("router", false, with(func(c *x509.Certificate) { c.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth} })).tls(),
			"impostor":   fake.issue("router", false, names).tls(),
		}
	})
}

func runC31(c *vt.Case, p C31Plan) error {
	defer exclusive()()
	makePKI()
	pr, err := peer.New(peer.Options{Forward: true, SASL: true, Multicast: func(a string) bool { return strings.HasPrefix(a, "mc/") }})
	if err != nil {
		vt.Abort("peer: %v", err)
	}
	b := &broker{Peer: pr}
	defer b.Close()
	l, err := net.Listen("tcp4", "127.0.0.1:0")
	if err != nil {
		vt.Abort("listen: %v", err)
	}
	f := &front{l: l, back: b.Addr(), cert: pki.servers, old: p.Old, refused: map[string]int{}, accepted: map[string]int{}, clients: map[string]int{}, kind: p.Servers[0]}
	go f.run()
	defer l.Close()
	defer f.use("good")
	_, port, _ := net.SplitHostPort(l.Addr().String())

	dir, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "tls")
	if err != nil {
		vt.Abort("%v", err)
	}
	defer os.RemoveAll(dir)
	file := func(name string, content []byte) string {
		path := filepath.Join(dir, name)
		if content != nil {
			if err := os.WriteFile(path, content, 0o600); err != nil {
				vt.Abort("%v", err)
			}
		}
		return path
	}
	var ca, cert, key string
	switch p.CA {
	case "good":
		ca = file("ca.crt", pki.ca.certPEM())
	case "other":
		ca = file("ca.crt", pki.other.certPEM())
	case "bundle":
		ca = file("ca.crt", append(pki.other.certPEM(), pki.ca.certPEM()...))
	case "garbage":
		ca = file("ca.crt", []byte("nothing\n"))
	case "missing":
		ca = file("ca.crt", nil)
	}
	switch p.Client {
	case "pair":
		cert, key = file("tls.crt", pki.client.certPEM()), file("tls.key", pki.client.keyPEM())
	case "mismatch":
		cert, key = file("tls.crt", pki.client.certPEM()), file("tls.key", pki.other2.keyPEM())
	case "nokey":
		cert, key = file("tls.crt", pki.client.certPEM()), file("tls.key", nil)
	case "nocert":
		cert, key = file("tls.crt", nil), file("tls.key", pki.client.keyPEM())
	case "garbage":
		cert, key = file("tls.crt", []byte("x")), file("tls.key", []byte("y"))
	}
	scheme := "amqps"
	if p.Plain {
		scheme = "amqp"
	}
	var args []string
	if p.JSON {
		doc := map[string]any{"scheme": scheme, "host": p.Host, "port": port}
		if !p.Plain {
			of := map[string]any{}
			for name, path := range map[string]string{"ca": ca, "cert": cert, "key": key} {
				if path != "" {
					of[name] = path
				}
			}
			if p.Verify {
				of["verify"] = true
			}
			doc["tls"] = of
		}
		body := jsonOf(doc)
		switch p.Broken {
		case "malformed":
			body = body[:len(body)-3]
		case "mistyped":
			doc["zone"], doc["tls"] = 1, map[string]any{"ca": []string{ca}, "cert": cert, "key": key, "verify": p.Verify}
			body = jsonOf(doc)
		}
		path := file("connect.json", body)
		if p.Broken == "unreadable" {
			path += ".not"
		}
		args = append(args, "-messaging-config", path)
	} else {
		args = append(args, "-server", fmt.Sprintf("%s://%s:%s", scheme, p.Host, port))
		if !p.Plain {
			for _, f := range []struct{ name, path string }{{"-ca", ca}, {"-cert", cert}, {"-key", key}} {
				if f.path != "" {
					args = append(args, f.name, f.path)
				}
			}
			args = append(args, settings("tls-verify", p.Verify, true)...)
		}
	}
	switch p.Broken {
	case "command":
		args = append(args, p.Command+"s")
	case "nocommand":
	case "commands":
		args = append(args, p.Command, p.Command)
	default:
		args = append(args, p.Command)
	}
	tool := &proc{cmd: exec.Command(filepath.Join(os.Getenv("VERIF_BIN"), "vanflow-tool"), args...), done: make(chan struct{})}
	tool.cmd.Stdout, tool.cmd.Stderr = tool, tool
	// what the system trusts is no reason for the tool to
	tool.cmd.Env = append(os.Environ(), "SSL_CERT_FILE="+file("system.crt", pki.other.certPEM()), "SSL_CERT_DIR="+file("certs", nil))
	tool.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := tool.cmd.Start(); err != nil {
		vt.Abort("starting the tool: %v", err)
	}
	go func() {
		tool.cmd.Wait()
		close(tool.done)
	}()
	defer tool.stop()
	attempts := func(kind string) (refused, accepted int) {
		f.mu.Lock()
		defer f.mu.Unlock()
		return f.refused[kind], f.accepted[kind]
	}

	if p.refused() {
		limit := patience(30)
		for ended := false; !ended; {
			select {
			case <-tool.done:
				ended = true
			case <-time.After(10 * time.Millisecond):
				if limit() {
					return fmt.Errorf("the tool runs though its configuration cannot be used; output:\n%s", tool.tail())
				}
			}
		}
		if tool.cmd.ProcessState.Success() || strings.Contains(tool.tail(), "panic:") {
			return fmt.Errorf("the tool ended with %v for a configuration that cannot be used; output:\n%s", tool.cmd.ProcessState, tool.tail())
		}
		f.mu.Lock()
		defer f.mu.Unlock()
		if len(f.refused)+len(f.accepted) > 0 {
			return fmt.Errorf("the tool connected though its configuration cannot be used: %v %v", f.refused, f.accepted)
		}
		c.Class("configuration refused")
		return nil
	}

	ps := []*proc{tool}
	address := "mc/sfe.all"
	up := func() error {
		b.Lock()
		defer b.Unlock()
		for _, x := range b.Conns() {
			if x.Opened {
				return nil
			}
		}
		return fmt.Errorf("the tool is not connected")
	}
	trusted, distrusted := 0, 0
	for i, kind := range p.Servers {
		if i > 0 {
			f.use(kind)
		}
		r0, a0 := attempts(kind)
		if i == 0 {
			r0, a0 = 0, 0
		}
		if !p.accepts(kind) {
			distrusted++
			// it has to have tried
			if err := until(40, ps, func() error {
				r, a := attempts(kind)
				if a > a0 {
					return nil
				}
				if r <= r0 {
					return fmt.Errorf("the tool does not try to connect to the router (%s)", kind)
				}
				return nil
			}); err != nil {
				return err
			}
			sleepMS(30)
			if _, a := attempts(kind); a > a0 {
				return fmt.Errorf("the tool talks to a router that it must not trust (%s)", kind)
			}
			continue
		}
		trusted++
		if err := until(60, ps, func() error {
			if _, a := attempts(kind); a <= a0 {
				return fmt.Errorf("the tool does not talk to the router (%s)", kind)
			}
			if p.Command == "fixture" {
				return up()
			}
			if !b.receiving(address) {
				return fmt.Errorf("the tool does not listen for beacons (%s)", kind)
			}
			return nil
		}); err != nil {
			return err
		}
		if p.Command == "fixture" {
			break // it would not notice that the connection ended
		}
		// the connection it makes for a source is as good
		id := fmt.Sprintf("s%d", i)
		bm := vanflow.BeaconMessage{Version: 1, SourceType: "ROUTER", Address: "mc/sfe." + id, Direct: "sfe." + id, Identity: id}
		if _, err := b.deliver(address, wire(bm.Encode()), ps); err != nil {
			return err
		}
		if err := until(40, ps, func() error {
			if !b.receiving("mc/sfe." + id) {
				return fmt.Errorf("the tool does not listen to the source it discovered (%s)", kind)
			}
			return nil
		}); err != nil {
			return err
		}
	}
	f.mu.Lock()
	defer f.mu.Unlock()
	for kind, n := range f.accepted {
		if n > 0 && !p.accepts(kind) {
			return fmt.Errorf("the tool talked to a router that it must not trust (%s)", kind)
		}
	}
	want := map[bool]string{true: "the client", false: "none"}[p.Client == "pair"]
	for name := range f.clients {
		if !p.Plain && name != want {
			return fmt.Errorf("the tool identified itself with the certificate %q instead of %q", name, want)
		}
	}
	b.Lock()
	for _, x := range b.Conns() {
		if !p.Plain && x.Opened && x.SASL != "EXTERNAL" {
			b.Unlock()
			return fmt.Errorf("the tool authenticates with %q on a secured connection", x.SASL)
		}
	}
	b.Unlock()
	if bytes.Contains([]byte(tool.tail()), []byte("panic:")) {
		return fmt.Errorf("the tool panicked:\n%s", tool.tail())
	}
	if !p.Plain {
		c.NonTrivial()
	}
	c.ClassIf(trusted > 0, "connected")
	c.ClassIf(distrusted > 0, "router not trusted")
	c.ClassIf(trusted > 0 && distrusted > 0, "trusted and distrusted in turn")
	c.ClassIf(!p.Verify && !p.Plain, "not verifying")
	c.ClassIf(p.JSON, "connect.json")
	c.ClassIf(p.Plain, "plain")
	for _, s := range p.Servers {
		c.Class("server " + s)
	}
	return nil
}

func TestC31(t *testing.T) {
	vt.Check(t, vt.Spec[C31Plan]{
		ID:   "C31",
		Rule: "a run of the built tool (collector, logger or fixture; configured by flags or a connect.json) against a router whose certificate changes over time (signed by the configured CA, an intermediate, another CA or itself; expired, for another host, for clients only, or no TLS at all); whether it talks to the router, how it identifies itself, and whether it starts at all are compared with the configuration; non-trivial: TLS is configured and the tool starts",
		Gen:  genC31, Run: runC31, Quick: 480, Thorough: 4000, HangTicks: 60000, Trace: true, NoShrink: true,
	})
}
