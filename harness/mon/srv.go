package mon

import (
	"context"
	"crypto/tls"
	"encoding/json"
	"errors"
	"fmt"
	"net"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/BTBurke/monny/pkg/pb"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/credentials"
	"google.golang.org/grpc/peer"
	"google.golang.org/grpc/status"
)

// what the server does with a report
const (
	ack     = "ack"     // accept
	unavail = "unavail" // refuse with Unavailable
	intern  = "intern"  // refuse with Internal
	nack    = "nack"    // answer Success=false
	drop    = "drop"    // close the connection before handling
	lost    = "lost"    // handle, then close the connection instead of answering
	hang    = "hang"    // never answer
)

// Got is one report that arrived.
type Got struct {
	Rep   *pb.Report
	Act   string
	At    time.Time
	AckAt time.Time
	Acked bool
}

// Srv is a recording report server.
type Srv struct {
	mu               sync.Mutex
	lis              net.Listener
	gs               *grpc.Server
	got              []*Got
	conns            map[string]net.Conn
	plan             func(i int, rep *pb.Report) string
	delay            func(i int, rep *pb.Report) time.Duration
	holdOn           func(i int, rep *pb.Report) string // path of a file to wait for before answering
	onGot            func(i int, rep *pb.Report)
	hungNow, hungAll int
	first            [][]byte // first bytes of each connection
	stop             chan struct{}
	tlsCfg           *tls.Config
	Addr             string
}

type tapConn struct {
	net.Conn
	s    *Srv
	done bool
}

func (c *tapConn) Read(p []byte) (int, error) {
	n, err := c.Conn.Read(p)
	if !c.done && n > 0 {
		c.done = true
		m := n
		if m > 8 {
			m = 8
		}
		c.s.mu.Lock()
		c.s.first = append(c.s.first, append([]byte{}, p[:m]...))
		c.s.mu.Unlock()
	}
	return n, err
}

type tapLis struct {
	net.Listener
	s *Srv
}

func (l tapLis) Accept() (net.Conn, error) {
	c, err := l.Listener.Accept()
	if err != nil {
		return nil, err
	}
	l.s.mu.Lock()
	l.s.conns[c.RemoteAddr().String()] = c
	l.s.mu.Unlock()
	return &tapConn{Conn: c, s: l.s}, nil
}

// NewSrv starts a server on a free port. plan decides what happens to the i-th report (nil: accept all).
func NewSrv(plan func(i int, rep *pb.Report) string) *Srv { return newSrvOn("127.0.0.1:0", plan, nil) }

func newSrvOn(addr string, plan func(i int, rep *pb.Report) string, tc *tls.Config) *Srv {
	lis, err := net.Listen("tcp", addr)
	if err != nil {
		panic(err)
	}
	s := &Srv{plan: plan, conns: map[string]net.Conn{}, stop: make(chan struct{}), tlsCfg: tc}
	s.serve(lis)
	return s
}

func (s *Srv) serve(lis net.Listener) {
	s.lis = tapLis{lis, s}
	s.Addr = lis.Addr().String()
	opts := []grpc.ServerOption{grpc.MaxRecvMsgSize(64 << 20)}
	if s.tlsCfg != nil {
		opts = append(opts, grpc.Creds(credentials.NewTLS(s.tlsCfg)))
	}
	s.gs = grpc.NewServer(opts...)
	pb.RegisterReportsServer(s.gs, s)
	go s.gs.Serve(s.lis)
}

// Create receives one report.
func (s *Srv) Create(ctx context.Context, rep *pb.Report) (*pb.ReportAck, error) {
	s.mu.Lock()
	i := len(s.got)
	act := ack
	if s.plan != nil {
		act = s.plan(i, rep)
	}
	g := &Got{Rep: rep, Act: act, At: time.Now()}
	s.got = append(s.got, g)
	var d time.Duration
	if s.delay != nil {
		d = s.delay(i, rep)
	}
	hold := ""
	if s.holdOn != nil {
		hold = s.holdOn(i, rep)
	}
	on := s.onGot
	s.mu.Unlock()
	if on != nil {
		on(i, rep)
	}
	if d > 0 {
		time.Sleep(d)
	}
	for hold != "" {
		if _, err := os.Stat(hold); err == nil {
			break
		}
		select {
		case <-s.stop:
			return nil, errors.New("stopping")
		case <-time.After(2 * time.Millisecond):
		}
	}
	kill := func() {
		if p, ok := peer.FromContext(ctx); ok {
			s.mu.Lock()
			c := s.conns[p.Addr.String()]
			s.mu.Unlock()
			if c != nil {
				c.Close()
			}
		}
	}
	if strings.HasPrefix(act, "code") {
		n := 0
		fmt.Sscanf(act, "code%d", &n)
		return nil, status.Error(codes.Code(n), "refused")
	}
	switch act {
	case unavail:
		return nil, status.Error(codes.Unavailable, "try later")
	case intern:
		return nil, status.Error(codes.Internal, "oops")
	case nack:
		return &pb.ReportAck{Success: false}, nil
	case drop:
		kill()
		return nil, status.Error(codes.Unavailable, "dropped")
	case lost:
		s.mu.Lock()
		g.AckAt = time.Now()
		s.mu.Unlock()
		kill()
		return nil, status.Error(codes.Unavailable, "lost")
	case hang:
		s.mu.Lock()
		s.hungNow++
		s.hungAll++
		s.mu.Unlock()
		select {
		case <-s.stop:
		case <-ctx.Done():
		}
		s.mu.Lock()
		s.hungNow--
		s.mu.Unlock()
		return nil, errors.New("hung up")
	}
	s.mu.Lock()
	g.Acked = true
	g.AckAt = time.Now()
	s.mu.Unlock()
	return &pb.ReportAck{Success: true}, nil
}

// Close stops the server.
func (s *Srv) Close() {
	select {
	case <-s.stop:
	default:
		close(s.stop)
	}
	s.gs.Stop()
}

// Hung returns how many attempts are waiting in vain now and how many there were.
func (s *Srv) Hung() (now, all int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.hungNow, s.hungAll
}

// givenUp makes the run shorten monny's sending deadline and touch givenup0, givenup1, ... when
// all attempts of a round, which the server does not answer, have been cancelled.
func givenUp(run *Run, s *Srv, dir string, rounds int) {
	run.Env = append(run.Env, "MONNY_VERIF_SEND_TIMEOUT=2500ms")
	over := make(chan struct{})
	run.After = func() { close(over) }
	run.Bg = func(*os.Process) {
		for i, seen, quiet := 0, 0, 0; i < rounds; {
			select {
			case <-over:
				return
			case <-time.After(50 * time.Millisecond):
			}
			open, all := s.Hung()
			if quiet++; open > 0 || all == seen {
				quiet = 0
			}
			if quiet > 10 {
				seen, quiet = all, 0
				touch(filepath.Join(dir, fmt.Sprintf("givenup%d", i)))
				i++
			}
		}
	}
}

// Got returns a copy of the log.
func (s *Srv) Got() []Got {
	s.mu.Lock()
	defer s.mu.Unlock()
	out := make([]Got, len(s.got))
	for i, g := range s.got {
		out[i] = *g
	}
	return out
}

// Acked returns the acknowledged reports with one of the given reasons (all if none given).
func (s *Srv) Acked(reasons ...pb.ReportReason) []Got {
	var out []Got
	for _, g := range s.Got() {
		if !g.Acked {
			continue
		}
		if len(reasons) == 0 {
			out = append(out, g)
		}
		for _, r := range reasons {
			if g.Rep.ReportReason == r {
				out = append(out, g)
			}
		}
	}
	return out
}

// Received returns all arrived reports with one of the given reasons.
func (s *Srv) Received(reasons ...pb.ReportReason) []Got {
	var out []Got
	for _, g := range s.Got() {
		for _, r := range reasons {
			if g.Rep.ReportReason == r {
				out = append(out, g)
			}
		}
	}
	return out
}

// First returns the first bytes of each connection.
func (s *Srv) First() [][]byte {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([][]byte{}, s.first...)
}

// Conns returns how many connections were opened.
func (s *Srv) Conns() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return len(s.conns)
}

func brief(gs []Got) []string {
	out := []string{}
	for _, g := range gs {
		out = append(out, fmt.Sprintf("%s[%s acked=%v success=%v exit=%d killed=%v/%s dur=%s]", g.Rep.ReportReason, g.Act, g.Acked, g.Rep.Success, g.Rep.ExitCode, g.Rep.Killed, g.Rep.KillReason, g.Rep.Duration))
	}
	return out
}

func writeJSON(path string, v interface{}) {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	os.MkdirAll(filepath.Dir(path), 0o755)
	if err := os.WriteFile(path, b, 0o644); err != nil {
		panic(err)
	}
}

// NewSrvOn starts a server that accepts everything on the given address.
func NewSrvOn(addr string, plan func(i int, rep *pb.Report) string) *Srv {
	return newSrvOn(addr, plan, nil)
}
