package mon

import (
	"bufio"
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"fmt"
	"io"
	"math/big"
	"math/rand"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/BTBurke/monny/pkg/pb"
	"verif/harness/vt"
)

// ca is a throw-away certificate authority.
type ca struct {
	key  *ecdsa.PrivateKey
	cert *x509.Certificate
	pem  string // file
}

var serial int64

func newCA(dir, name string) *ca {
	k, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	must(err)
	t := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: name}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(24 * time.Hour), IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign}
	der, err := x509.CreateCertificate(crand.Reader, t, t, &k.PublicKey, k)
	must(err)
	c, err := x509.ParseCertificate(der)
	must(err)
	p := filepath.Join(dir, name+".pem")
	must(os.WriteFile(p, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), 0o644))
	return &ca{k, c, p}
}

// issue makes a server certificate; expired ones ended an hour ago.
func (c *ca) issue(expired, selfSigned bool, names ...string) tls.Certificate {
	k, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	must(err)
	t := &x509.Certificate{SerialNumber: big.NewInt(100 + atomic.AddInt64(&serial, 1)), Subject: pkix.Name{CommonName: "server"}, NotBefore: time.Now().Add(-48 * time.Hour), NotAfter: time.Now().Add(24 * time.Hour), KeyUsage: x509.KeyUsageDigitalSignature, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}}
	if expired {
		t.NotAfter = time.Now().Add(-time.Hour)
	}
	for _, n := range names {
		if ip := net.ParseIP(n); ip != nil {
			t.IPAddresses = append(t.IPAddresses, ip)
		} else {
			t.DNSNames = append(t.DNSNames, n)
		}
	}
	parent, pk := c.cert, c.key
	if selfSigned {
		parent, pk = t, k
	}
	der, err := x509.CreateCertificate(crand.Reader, t, parent, &k.PublicKey, pk)
	must(err)
	return tls.Certificate{Certificate: [][]byte{der, c.cert.Raw}, PrivateKey: k}
}

// tap listens and records the first bytes of every connection, then behaves as told.
type tap struct {
	lis   net.Listener
	mu    sync.Mutex
	first [][]byte
	Addr  string
}

func newTap(behave func(c net.Conn, first []byte)) *tap {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	t := &tap{lis: l, Addr: l.Addr().String()}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go func() {
				defer c.Close()
				b := make([]byte, 4096)
				c.SetReadDeadline(time.Now().Add(4 * time.Second))
				n, _ := c.Read(b)
				t.mu.Lock()
				t.first = append(t.first, append([]byte{}, b[:n]...))
				t.mu.Unlock()
				behave(c, b[:n])
			}()
		}
	}()
	return t
}

func (t *tap) First() [][]byte {
	t.mu.Lock()
	defer t.mu.Unlock()
	return append([][]byte{}, t.first...)
}

// sni extracts the server name of a client hello.
func sni(hello []byte) string {
	var name string
	cl, sv := net.Pipe()
	go func() { cl.Write(hello); cl.Close() }()
	tls.Server(sv, &tls.Config{GetConfigForClient: func(h *tls.ClientHelloInfo) (*tls.Config, error) { name = h.ServerName; return nil, io.EOF }}).Handshake()
	sv.Close()
	return name
}

func isHello(b []byte) bool { return len(b) > 3 && b[0] == 0x16 && b[1] == 3 }

// proxy is an HTTP CONNECT proxy; open decides what to do with a tunnel.
type proxy struct {
	lis  net.Listener
	mu   sync.Mutex
	reqs []string
	Addr string
}

func newProxy(open func(target string, c net.Conn, r *bufio.Reader)) *proxy {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	p := &proxy{lis: l, Addr: l.Addr().String()}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go func() {
				defer c.Close()
				c.SetDeadline(time.Now().Add(20 * time.Second))
				r := bufio.NewReader(c)
				q, err := http.ReadRequest(r)
				if err != nil {
					p.mu.Lock()
					p.reqs = append(p.reqs, "unreadable: "+err.Error())
					p.mu.Unlock()
					return
				}
				p.mu.Lock()
				p.reqs = append(p.reqs, q.Method+" "+q.Host)
				p.mu.Unlock()
				if q.Method != "CONNECT" {
					return
				}
				io.WriteString(c, "HTTP/1.1 200 OK\r\n\r\n")
				open(q.Host, c, r)
			}()
		}
	}()
	return p
}

func (p *proxy) Reqs() []string {
	p.mu.Lock()
	defer p.mu.Unlock()
	return append([]string{}, p.reqs...)
}

// peeked is a connection of which the first bytes have been read already.
type peeked struct {
	net.Conn
	r io.Reader
}

func (p *peeked) Read(b []byte) (int, error) { return p.r.Read(b) }

// TestC13 checks the transport of reports.
func TestC13(t *testing.T) {
	rec := vt.New(t, "C13", "a case is one run of the real binary without the insecure option (or with it set to false) against a server with an untrusted, expired, self-signed, wrongly named or trusted certificate, a plain-text gRPC server, a raw listener that closes, answers garbage, an alert or an HTTP/2 preface, or through a recording CONNECT proxy; the first bytes of every accepted connection are recorded; distinct by server kind, options and what was received")
	dir := Dir()
	defer os.RemoveAll(dir)
	good, other := newCA(dir, "good"), newCA(dir, "other")
	type cs struct {
		name    string
		cert    *tls.Certificate
		plain   bool
		raw     func(net.Conn, []byte)
		host    string // host name used for dialling
		deliver bool
		noCA    bool
	}
	mk := func(expired, self bool, c *ca, names ...string) *tls.Certificate {
		x := c.issue(expired, self, names...)
		return &x
	}
	base := []cs{
		{name: "trusted, by address", cert: mk(false, false, good, "127.0.0.1"), host: "127.0.0.1", deliver: true},
		{name: "trusted, by name", cert: mk(false, false, good, "localhost"), host: "localhost", deliver: true},
		{name: "authority not trusted", cert: mk(false, false, good, "127.0.0.1"), host: "127.0.0.1", noCA: true},
		{name: "other authority", cert: mk(false, false, other, "127.0.0.1", "localhost"), host: "localhost"},
		{name: "self-signed", cert: mk(false, true, other, "127.0.0.1"), host: "127.0.0.1"},
		{name: "wrong name", cert: mk(false, false, good, "report.lmkwtf.com", "example.org"), host: "localhost"},
		{name: "wrong address", cert: mk(false, false, good, "127.0.0.2"), host: "127.0.0.1"},
		{name: "expired", cert: mk(true, false, good, "127.0.0.1"), host: "127.0.0.1"},
		{name: "plain gRPC server", plain: true, host: "127.0.0.1"},
		{name: "closing listener", host: "127.0.0.1", raw: func(c net.Conn, _ []byte) {}},
		{name: "garbage", host: "127.0.0.1", raw: func(c net.Conn, _ []byte) { c.Write([]byte(strings.Repeat("garbage", 100))) }},
		{name: "plain HTTP answer", host: "localhost", raw: func(c net.Conn, _ []byte) {
			io.WriteString(c, "HTTP/1.1 400 Bad Request\r\nContent-Length: 0\r\n\r\n")
		}},
		{name: "HTTP/2 settings in clear text", host: "127.0.0.1", raw: func(c net.Conn, _ []byte) {
			c.Write([]byte{0, 0, 0, 4, 0, 0, 0, 0, 0})
			time.Sleep(200 * time.Millisecond)
		}},
		{name: "TLS alert", host: "127.0.0.1", raw: func(c net.Conn, _ []byte) { c.Write([]byte{0x15, 3, 3, 0, 2, 2, 70}) }},
		{name: "silent", host: "127.0.0.1", raw: func(c net.Conn, _ []byte) { time.Sleep(2 * time.Second) }},
	}
	opts := []struct {
		name  string
		flags []string
		yaml  string
	}{{"default", nil, ""}, {"--insecure=false", []string{"--insecure=false"}, ""}, {"yaml insecure: false", nil, "insecure: false\n"}, {"yaml without it, with lists", nil, "rule: [a, b]\ndaemon: true\n"}}
	scripts := []struct {
		st   []Step
		exit int
		fl   []string
		n    int // reports when delivered
	}{
		{[]Step{w(1, "hello\n")}, 0, nil, 1}, {[]Step{w(2, "x\n")}, 3, nil, 1}, {[]Step{w(1, "ERROR\n")}, 0, []string{"--rule", "ERROR"}, 2}, {nil, 0, []string{"--creates", "/nonexistent/x"}, 1}, {[]Step{slp(4000)}, 0, []string{"--timeout-kill=200ms"}, 1}, {[]Step{slp(600)}, 1, []string{"--timeout-warn=100ms"}, 2},
	}
	type job struct {
		b, o, s int
		long    string // deadline of sending
	}
	var jobs []job
	for b := range base { // trying for a while does not lead to less security
		if !base[b].deliver {
			jobs = append(jobs, job{b, b % len(opts), 0, fmt.Sprint(rec.Pick(18, 100), "s")})
		}
	}
	for b := range base {
		for o := range opts {
			for s := range scripts {
				if rec.Thorough() || (b+o+s)%3 == 0 || s == 0 {
					jobs = append(jobs, job{b, o, s, ""})
				}
			}
		}
	}
	rec.Pool(24, len(jobs), func(i int) {
		c, o, sc := base[jobs[i].b], opts[jobs[i].o], scripts[jobs[i].s]
		d := Dir()
		defer os.RemoveAll(d)
		var s *Srv
		var tp *tap
		port := ""
		if c.raw != nil {
			tp = newTap(c.raw)
			defer tp.lis.Close()
			_, port, _ = net.SplitHostPort(tp.Addr)
		} else {
			var tc *tls.Config
			if c.cert != nil {
				tc = &tls.Config{Certificates: []tls.Certificate{*c.cert}, NextProtos: []string{"h2"}}
			}
			s = newSrvOn("127.0.0.1:0", nil, tc)
			defer s.Close()
			_, port, _ = net.SplitHostPort(s.Addr)
		}
		fl := append([]string{"-i", "c13", "--no-error-reports", "--host", c.host + ":" + port}, o.flags...)
		if o.yaml != "" {
			y := filepath.Join(d, "c.yml")
			must(os.WriteFile(y, []byte(o.yaml), 0o644))
			fl = append(fl, "-c", y)
		}
		fl = append(fl, sc.fl...)
		env := []string{"MONNY_VERIF_SEND_TIMEOUT=2s"}
		if jobs[i].long != "" {
			env = []string{"MONNY_VERIF_SEND_TIMEOUT=" + jobs[i].long}
		}
		if c.deliver {
			env = nil
		}
		if c.noCA {
			env = append(env, "SSL_CERT_FILE="+other.pem, "SSL_CERT_DIR="+d)
		} else {
			env = append(env, "SSL_CERT_FILE="+good.pem, "SSL_CERT_DIR="+d)
		}
		res := Run{Flags: fl, Sep: true, Env: env, Script: &Script{Steps: sc.st, Exit: sc.exit}, Dir: d}.Do()
		wit := map[string]interface{}{"server": c.name, "option": o.name, "flags": fl}
		if !res.Common(rec, "tls", wit) {
			return
		}
		var first [][]byte
		var got []Got
		if s != nil {
			first, got = s.First(), s.Got()
			wit["log"] = brief(got)
		} else {
			first = tp.First()
		}
		hellos := 0
		for _, f := range first {
			if isHello(f) {
				hellos++
			} else if len(f) > 0 {
				rec.Violation("tls:clear", fmt.Sprintf("a connection to the report server started with %q instead of a TLS handshake", f[:min(len(f), 24)]), wit)
			}
			for _, x := range []string{"c13", "hello", "PRI"} {
				if s == nil && bytes.Contains(f, []byte(x)) {
					rec.Violation("tls:leak", "clear-text data was sent to the report server", wit)
				}
			}
		}
		if c.deliver {
			if n := len(s.Acked()); n != sc.n && !(o.yaml != "" && n >= sc.n) { // the YAML rules of one option may match more
				rec.Violation("tls:undelivered", fmt.Sprintf("%d reports were delivered to the verified server, expected %d", n, sc.n), wit)
			}
		} else if len(got) > 0 {
			rec.Violation("tls:unverified", "a report was delivered to a server whose identity cannot be verified", wit)
		}
		if hellos == 0 {
			rec.Violation("tls:noconn", "the configured host was never contacted with a TLS handshake", wit)
		}
		rec.Add("handshakes", hellos)
		rec.Add("reports_delivered", len(got))
		rec.Case(fmt.Sprint(c.name, o.name, jobs[i].s, jobs[i].long, len(got), hellos > 1), true, map[string]interface{}{"server": c.name, "option": o.name, "handshakes": hellos, "delivered": len(got)})
	})
	// which host is contacted: seen by a CONNECT proxy
	hosts := []string{"", "report.example.test:8443", "a.b.example.test:443", "x.example.test:50051", "x.example.test:80", "x.example.test:8080", "x.example.test:1", "x.example.test:65535", "internal:9000", "monitor.local:443", "monitor.internal:4443", "10.0.0.5:443", "192.168.1.9:8443", "172.16.3.4:80", "192.0.2.7:50051", "report.lmkwtf.com:443", "report.lmkwtf.com:80", "Upper.Example.Test:443", "dev:443", "test.staging.example.test:443", "xn--bcher-kva.example.test:443", "lmkwtf.com:443", "www.example.test:443", "api.report.example.test:8443", "localhost.example.test:443", "a-b.example.test:443", "1.example.test:443", "vpn.internal:443", "host.docker.internal:443", "svc.cluster.local:50051"}
	rec.Pool(32, len(hosts)*rec.Pick(5, 20), func(i int) {
		h := hosts[i%len(hosts)]
		want := "report.lmkwtf.com:443"
		if h != "" {
			want = h
		}
		// the proxy leads to a server that presents a certificate, or to none
		name, _, _ := net.SplitHostPort(want)
		up := name[strings.Index(name, ".")+1:]
		if net.ParseIP(name) != nil || up == name {
			up = "other-" + name
		}
		variant := i / len(hosts) % 5
		var cert *tls.Certificate
		switch variant {
		case 1:
			cert = mk(false, true, other, name)
		case 2:
			cert = mk(i%2 == 0, false, map[bool]*ca{true: good, false: other}[i%2 == 0], name) // expired, or of another authority
		case 3: // of other names
			cert = mk(false, false, good, up, "sub."+name, "x"+name, name+".example.org", "*."+name, strings.ReplaceAll(name, ".", "-")+"-")
		case 4:
			cert = mk(false, false, good, name)
		}
		srv := NewSrv(nil)
		defer srv.Close()
		d := Dir()
		defer os.RemoveAll(d)
		var mu sync.Mutex
		var hellos [][]byte
		p := newProxy(func(_ string, c net.Conn, r *bufio.Reader) {
			b := make([]byte, 4096)
			n, _ := r.Read(b)
			mu.Lock()
			hellos = append(hellos, append([]byte{}, b[:n]...))
			mu.Unlock()
			if cert == nil || n == 0 {
				return
			}
			tc := tls.Server(&peeked{c, io.MultiReader(bytes.NewReader(b[:n]), r)}, &tls.Config{Certificates: []tls.Certificate{*cert}, NextProtos: []string{"h2"}})
			if tc.Handshake() != nil {
				return
			}
			defer tc.Close()
			to, err := net.Dial("tcp", srv.Addr)
			if err != nil {
				return
			}
			go func() {
				io.Copy(to, tc)
				to.Close()
			}()
			io.Copy(tc, to)
		})
		defer p.lis.Close()
		sc := scripts[i/3%len(scripts)]
		fl := append([]string{"-i", "c13", "--no-error-reports"}, sc.fl...)
		if h != "" {
			if i%2 == 0 {
				fl = append(fl, "--host", h)
			} else {
				y := filepath.Join(d, "c.yml")
				must(os.WriteFile(y, []byte("host: "+h+"\n"), 0o644))
				fl = append(fl, "-c", y)
			}
		}
		res := Run{Flags: fl, Sep: true, Env: append([]string{"SSL_CERT_FILE=" + good.pem, "SSL_CERT_DIR=" + d, "MONNY_VERIF_SEND_TIMEOUT=" + map[bool]string{true: "50s", false: "2s"}[variant == 4], "HTTPS_PROXY=http://" + p.Addr, "https_proxy=http://" + p.Addr}, [][]string{nil, {"environment=development"}, {"ENVIRONMENT=test", "INSECURE=true", "DEBUG=1"}}[i/2%3]...), Script: &Script{Steps: append([]Step{w(1, "hello\n")}, sc.st...), Exit: sc.exit}, Dir: d}.Do()
		wit := map[string]interface{}{"host": h, "flags": fl, "proxy_requests": p.Reqs()}
		if !res.Common(rec, "host", wit) {
			return
		}
		if n := len(srv.Got()); n > 0 && variant != 4 {
			wit["log"] = brief(srv.Got())
			rec.Violation("host:impostor", fmt.Sprintf("a report for %s was delivered to a server whose certificate does not verify", want), wit)
		} else if variant == 4 {
			if n == 0 {
				rec.Violation("host:refused", "no report was delivered to a server with a valid certificate for "+name, wit)
			}
			rec.Add("reports_delivered", n)
		}
		if len(p.Reqs()) == 0 {
			rec.Violation("host:none", "the report host was never contacted", wit)
		}
		for _, r := range p.Reqs() {
			if r != "CONNECT "+want {
				rec.Violation("host:other", fmt.Sprintf("monny contacted %q, the report host is %s", r, want), wit)
			}
		}
		mu.Lock()
		for _, b := range hellos {
			if len(b) > 0 && !isHello(b) {
				rec.Violation("host:clear", fmt.Sprintf("the connection starts with %q instead of a TLS handshake", b[:min(len(b), 24)]), wit)
			} else if hn, _, _ := net.SplitHostPort(want); len(b) > 0 && net.ParseIP(hn) == nil && !strings.EqualFold(sni(b), hn) {
				rec.Violation("host:sni", fmt.Sprintf("the handshake asks for %q instead of %q", sni(b), hn), wit)
			}
		}
		rec.Add("proxied_connections", len(hellos))
		mu.Unlock()
		rec.Case("proxy "+h, true, wit)
	})
	rec.Finish()
}

// TestC14 checks crash reports to the vendor.
func TestC14(t *testing.T) {
	rec := vt.New(t, "C14", "a case is one run of monny, through its exported API with the crash-report endpoint pointed at a recorder or as the real binary behind a CONNECT proxy that terminates TLS for the vendor's host, whose configuration, arguments and output contain unique tokens, under internal errors (failing stdout or stderr, broken stdin, reports that cannot be sent, odd JSON, missing files, missing command, limits); every recorded request is searched for the tokens; with error reports off there must be no request; non-trivial if an internal error was provoked; distinct by trigger, mode and requests seen")
	dir := Dir()
	defer os.RemoveAll(dir)
	authority := newCA(dir, "vendor")
	vcert := authority.issue(false, false, "api.rollbar.com")
	type trig struct {
		name   string
		steps  []Step
		exit   int
		outF   string
		errF   string
		stdin  int
		plan   string
		opts   [][2]string
		env    []string
		cmd    string
		silent bool
		args   []string // command line for the parser instead of options
		yaml   string   // configuration file behind it
	}
	tok := func(q *rand.Rand) string {
		b := make([]byte, 14)
		for i := range b {
			b[i] = "ABCDEFGHJKLMNPQRSTUVWXYZ23456789"[q.Intn(32)]
		}
		return "ZQ" + string(b)
	}
	to := []string{"MONNY_VERIF_SEND_TIMEOUT=1200ms"}
	trigs := []trig{
		{name: "stdout full", outF: "/dev/full"},
		{name: "stderr full", errF: "/dev/full"},
		{name: "both full, failing", outF: "/dev/full", errF: "/dev/full", exit: 2},
		{name: "stdin refused", stdin: 1 << 20, steps: []Step{{Op: "close", Fd: 0}, slp(400)}},
		{name: "stdin refused at once", stdin: 4 << 20},
		{name: "server silent", plan: hang, env: to},
		{name: "server refuses", plan: unavail, env: to, exit: 1},
		{name: "server nacks", plan: nack, env: to},
		{name: "server drops", plan: drop, env: to},
		{name: "server internal error, alerts", plan: intern, env: to, opts: [][2]string{{"rule", "@"}}},
		{name: "unknown host", env: to, opts: [][2]string{{"host", "@.invalid:4443"}}},
		{name: "missing files", opts: [][2]string{{"creates", "/nonexistent/@/x"}, {"creates", "@"}}, plan: nack, env: to},
		{name: "odd JSON", opts: [][2]string{{"rule-json", "a.b:@"}, {"rule-json", "a:@"}}, steps: []Step{w(1, `{"a":{"b":`+"\n"), w(1, `{"a":[1,"x",null,{"b":2}]}`+"\n"), w(2, `{"a":{"b":[[1]]}}`+"\n"), w(1, "\xff\xfe{\n")}},
		{name: "killed by limit", opts: [][2]string{{"timeout-kill", "300ms"}}, steps: []Step{slp(20000)}, plan: nack, env: to},
		{name: "warned", opts: [][2]string{{"timeout-warn", "100ms"}}, steps: []Step{slp(500)}, plan: unavail, env: to},
		{name: "missing command", cmd: "/nonexistent/@"},
		{name: "missing command in path", cmd: "@"},
		{name: "no error", silent: true},
		{name: "fine: failing command", silent: true, exit: 7},
		{name: "fine: stdin", silent: true, stdin: 200000, steps: []Step{{Op: "stdin", Path: filepath.Join(dir, "stdin")}}},
		{name: "fine: warned", silent: true, opts: [][2]string{{"timeout-warn", "100ms"}}, steps: []Step{slp(400)}},
		{name: "fine: killed", silent: true, opts: [][2]string{{"timeout-kill", "300ms"}}, steps: []Step{slp(20000)}},
		{name: "fine: memory warned", silent: true, opts: [][2]string{{"memory-warn", "20M"}}, steps: []Step{{Op: "alloc", N: 40}, slp(2500)}},
		{name: "fine: alerts", silent: true, opts: [][2]string{{"rule", "@"}, {"rule", "."}}, steps: []Step{slp(50), w(2, "one\n"), slp(50), w(1, "two\n")}},
		{name: "signal death", steps: []Step{{Op: "sig", N: 9}}, plan: unavail, env: to},
		{name: "files that cannot be looked at", opts: [][2]string{{"creates", "/etc/passwd/@"}, {"creates", "/tmp/@" + strings.Repeat("n", 300)}, {"creates", "@/../@"}}},
		{name: "fine: long lines", silent: true, opts: [][2]string{{"rule-json", "a.b.c:@"}}, steps: []Step{w(1, strings.Repeat("plain ", 5000)+"\n"), w(2, `{"a":{"b":`+strings.Repeat("9", 3000)+"\n"), w(1, `{"a":{"b":{"c":"`+strings.Repeat("text ", 3000)+`"}}}`+"\n")}},
		{name: "broken configuration: rule", opts: [][2]string{{"rule", "(@"}, {"rule", "@["}}},
		{name: "broken configuration: JSON rule", opts: [][2]string{{"rule-json", "@:(@"}}},
		{name: "broken configuration: limit", opts: [][2]string{{"timeout-kill", "@"}, {"memory-warn", "@G"}, {"stdout-history", "@"}}},
		{name: "broken configuration: host", opts: [][2]string{{"host", "@:@:@"}}},
		{name: "broken command line", args: []string{"--rule-json=@", "--daemon=@", "--", "true", "@"}},
		{name: "broken command line, unknown flag", args: []string{"--@=@", "true", "@"}},
		{name: "broken command line, value", args: []string{"--timeout-warn=@", "true", "@"}},
		{name: "broken configuration file", args: []string{"-c", "FILE", "true", "@"}, yaml: "rule: [@\n  @: {"},
		{name: "broken configuration file, types", args: []string{"-c", "FILE", "true", "@"}, yaml: "rule:\n  @: @\ndaemon: '@'\nstdout-history: '@'\n"},
		{name: "broken configuration file, unknown option", args: []string{"-c", "FILE", "true", "@"}, yaml: "'@': '@'\n"},
		{name: "missing configuration file", args: []string{"-c", "/nonexistent/@.yml", "true", "@"}},
		{name: "nothing to write to", outF: "/dev/full", steps: []Step{w(1, strings.Repeat("x", 200000)+"\n")}, plan: hang, env: to},
	}
	type job struct {
		t      int
		off    int // 0 on, 1 off by flag, 2 off by YAML
		binary bool
	}
	var jobs []job
	for r := 0; r < rec.Pick(2, 16); r++ {
		for t := range trigs {
			for _, off := range []int{0, 1, 2} {
				for _, b := range []bool{false, true} {
					if !(off == 2 && !b) {
						jobs = append(jobs, job{t, off, b})
					}
				}
			}
		}
	}
	rec.Pool(16, len(jobs), func(i int) {
		j := jobs[i]
		c := trigs[j.t]
		q := rec.Rng(fmt.Sprint("case", i))
		d := Dir()
		defer os.RemoveAll(d)
		toks := map[string]string{}
		sec := func(what string) string {
			x := tok(q)
			toks[x] = what
			return x
		}
		var mu sync.Mutex
		var bodies [][]byte
		record := func(b []byte) { mu.Lock(); bodies = append(bodies, b); mu.Unlock() }
		h := http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			b, _ := io.ReadAll(r.Body)
			record([]byte(r.URL.String() + "\n" + fmt.Sprint(r.Header) + "\n" + string(b)))
			w.WriteHeader(200)
		})
		l, err := net.Listen("tcp", "127.0.0.1:0")
		must(err)
		vs := &http.Server{Handler: h}
		go vs.Serve(l)
		defer vs.Close()
		s := NewSrv(func(int, *pb.Report) string {
			if c.plan != "" {
				return c.plan
			}
			return ack
		})
		defer s.Close()
		var px *proxy
		fill := func(what, t string) string {
			for strings.Contains(t, "@") {
				t = strings.Replace(t, "@", sec(what), 1)
			}
			return t
		}
		id, rule := sec("id"), sec("rule")
		opts := [][2]string{{"id", id}, {"rule", rule}, {"rule-json", sec("JSON rule field") + ":" + sec("JSON rule")}, {"creates", filepath.Join(d, sec("expected file"))}, {"insecure", "true"}}
		host := s.Addr
		for _, o := range c.opts {
			v := o[1]
			if strings.Contains(v, "@") {
				v = strings.ReplaceAll(v, "@", sec("option "+o[0]))
			}
			if o[0] == "host" {
				host = v
				continue
			}
			opts = append(opts, [2]string{o[0], v})
		}
		opts = append(opts, [2]string{"host", host})
		steps := []Step{w(1, sec("stdout")+" text\n"), w(2, sec("stderr")+" text\n"), w(1, rule+" matched "+sec("matching line")+"\n"), w(1, `{"a":"`+sec("JSON line")+`","n":[1,{}]}`+"\n")}
		steps = append(steps, c.steps...)
		sc := &Script{Steps: steps, Exit: c.exit, Rec: filepath.Join(d, "rec"), End: filepath.Join(d, "end")}
		if j.binary {
			sc.Steps = append(sc.Steps, slp(150))
		}
		sp := filepath.Join(d, "script.json")
		writeJSON(sp, sc)
		cmd := []string{childBin, sp, sec("argument"), "--opt=" + sec("argument")}
		if c.cmd != "" {
			cmd[0] = strings.ReplaceAll(c.cmd, "@", sec("command"))
		}
		r := Run{Dir: d, Env: append([]string{}, c.env...), Script: sc}
		r.Env = append(r.Env, [][]string{nil, {"environment=development"}, {"environment=production"}, {"environment="}, {"environment=test", "DEBUG=1"}, {"ENVIRONMENT=production"}}[i%6]...)
		wit := map[string]interface{}{"trigger": c.name, "error_reports_off": j.off, "real_binary": j.binary, "env": r.Env}
		if j.binary {
			px = newProxy(func(target string, cn net.Conn, br *bufio.Reader) {
				tc := tls.Server(&bufConn{cn, br}, &tls.Config{Certificates: []tls.Certificate{vcert}})
				hs := &oneConn{c: tc, done: make(chan struct{})}
				srv := &http.Server{Handler: h, ConnState: func(_ net.Conn, st http.ConnState) {
					if st == http.StateClosed || st == http.StateHijacked {
						hs.finish()
					}
				}}
				srv.Serve(hs)
			})
			defer px.lis.Close()
			r.Env = append(r.Env, "HTTPS_PROXY=http://"+px.Addr, "HTTP_PROXY=http://"+px.Addr, "SSL_CERT_FILE="+authority.pem, "SSL_CERT_DIR="+d)
			y := ""
			for _, o := range opts {
				r.Flags = append(r.Flags, "--"+o[0]+"="+o[1])
			}
			if j.off == 1 {
				r.Flags = append(r.Flags, "--no-error-reports")
			} else if j.off == 2 {
				y = "no-error-reports: true\n"
				yp := filepath.Join(d, "c.yml")
				must(os.WriteFile(yp, []byte(y), 0o644))
				r.Flags = append(r.Flags, "-c", yp)
			}
			r.Sep = true
			r.Cmd = cmd
		} else {
			lo := [][2]string{}
			for _, o := range opts {
				switch {
				case o[0] == "insecure":
					lo = append(lo, [2]string{"insecure", ""})
				default:
					lo = append(lo, o)
				}
			}
			if j.off > 0 {
				lo = append(lo, [2]string{"no-error-reports", ""})
			}
			conf := filepath.Join(d, "conf.json")
			writeJSON(conf, map[string]interface{}{"Opts": lo, "Cmd": cmd, "Rollbar": "http://" + l.Addr().String() + "/item"})
			r.Bin, r.Cmd = libBin, []string{conf}
		}
		if c.args != nil {
			var args []string
			if j.off > 0 {
				args = append(args, "--no-error-reports")
			}
			args = append(args, "--insecure", "--id="+id, "--host="+s.Addr)
			for _, a := range c.args {
				if a == "FILE" {
					a = filepath.Join(d, "broken.yml")
					must(os.WriteFile(a, []byte(fill("configuration file", c.yaml)), 0o644))
				}
				args = append(args, fill("command line", a))
			}
			if j.binary {
				r.Flags, r.Cmd, r.Sep = args, []string{}, false
			} else {
				conf := filepath.Join(d, "conf.json")
				writeJSON(conf, map[string]interface{}{"Args": args, "Rollbar": "http://" + l.Addr().String() + "/item"})
				r.Cmd = []string{conf}
			}
		}
		if c.outF != "" {
			f, err := os.OpenFile(c.outF, os.O_WRONLY, 0)
			must(err)
			defer f.Close()
			r.OutF = f
		}
		if c.errF != "" {
			f, err := os.OpenFile(c.errF, os.O_WRONLY, 0)
			must(err)
			defer f.Close()
			r.ErrF = f
		}
		if c.stdin > 0 {
			r.Stdin = strings.NewReader(strings.Repeat(sec("stdin"), c.stdin/16))
		}
		res := r.Do()
		if !res.Common(rec, "vendor", wit) {
			return
		}
		time.Sleep(20 * time.Millisecond)
		mu.Lock()
		defer mu.Unlock()
		for _, b := range bodies {
			for x, what := range toks {
				if bytes.Contains(b, []byte(x)) {
					wit["request"] = vt.Trim(string(b), 3000)
					rec.Violation("vendor:private", fmt.Sprintf("a crash report contains the %s (trigger: %s)", what, c.name), wit)
				}
			}
		}
		conns := []string{}
		if px != nil {
			for _, x := range px.Reqs() {
				if !strings.Contains(x, ".invalid") {
					conns = append(conns, x)
				}
			}
			wit["proxy_requests"] = conns
		}
		if j.off > 0 && (len(bodies) > 0 || len(conns) > 0) {
			rec.Violation("vendor:disabled", fmt.Sprintf("%d crash reports were sent (%v) although they are disabled (trigger: %s)", len(bodies), conns, c.name), wit)
		}
		if c.silent && len(bodies)+len(conns) > 0 {
			if len(bodies) > 0 {
				wit["request"] = vt.Trim(string(bodies[0]), 3000)
			}
			rec.Violation("vendor:unprovoked", fmt.Sprintf("%d crash reports were sent (%v) by a run in which nothing failed inside monny (trigger: %s)", len(bodies), conns, c.name), wit)
		}
		rec.Add("crash_reports_seen", len(bodies))
		rec.Add("tokens_searched", len(toks)*len(bodies))
		rec.Case(fmt.Sprint(c.name, j.off, j.binary, len(bodies)), !c.silent, map[string]interface{}{"trigger": c.name, "off": j.off, "binary": j.binary, "crash_reports": len(bodies)})
	})
	rec.Finish()
}

type bufConn struct {
	net.Conn
	r *bufio.Reader
}

func (b *bufConn) Read(p []byte) (int, error) { return b.r.Read(p) }

// oneConn is a listener with a single connection.
type oneConn struct {
	c    net.Conn
	once sync.Once
	got  bool
	mu   sync.Mutex
	done chan struct{}
}

func (o *oneConn) Accept() (net.Conn, error) {
	o.mu.Lock()
	g := o.got
	o.got = true
	o.mu.Unlock()
	if !g {
		return o.c, nil
	}
	<-o.done
	return nil, io.EOF
}
func (o *oneConn) finish()        { o.once.Do(func() { close(o.done) }) }
func (o *oneConn) Close() error   { o.finish(); return nil }
func (o *oneConn) Addr() net.Addr { return o.c.LocalAddr() }
