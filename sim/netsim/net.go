// Package netsim is the simulated network between the process under test and
// report servers.
package netsim

import (
	"bytes"
	"errors"
	"fmt"
	"hash/maphash"
	"time"

	"google.golang.org/grpc/codes"

	"simverif/rt"
)

// Server is a report server.
type Server struct {
	Addr string
	TLS  bool
	Recs []Rec
}

// Rec is one request that reached a server.
type Rec struct {
	From     *Attempt
	Raw      []byte
	Method   string
	At       time.Duration
	Seq      uint64
	Accepted bool // acknowledged with success by the server
	AckLost  bool // but the acknowledgement did not arrive
	AckAt    time.Duration
	AckSeq   uint64
}

// Attempt is one call made by the process under test.
type Attempt struct {
	Target     string
	Secure     bool
	SkipVerify bool
	At         time.Duration
	End        time.Duration
	Raw        []byte
	Err        error
	Done       bool
}

// OutKind says how an outage looks to the client.
type OutKind int

const (
	Refused   OutKind = iota // connection refused at once
	Blackhole                // packets vanish: connect timeout
	Hang                     // connections open, nothing is answered until the outage ends
	numOut
)

// Outage is a time window in which no server can be used.
type Outage struct {
	From, To time.Duration
	Kind     OutKind
}

// Net is the network of a run.
type Net struct {
	Servers  []*Server
	Attempts []*Attempt
	Outages  []Outage
	Latency  time.Duration
	Jitter   time.Duration
	PDelay   float64
	PRefuse  float64
	PLostReq float64
	PLostAck float64
	PNack    float64
	PStatus  float64
	PHang    float64
	Hung     int
	// OnRecv runs when a request is recorded.
	OnRecv func(*Server, *Rec)

	sent map[uint64][][]byte // distinct requests, by hash: retries share their bytes
}

// N is the current network.
func N() *Net {
	n, _ := rt.S.Local["net"].(*Net)
	if n == nil {
		n = &Net{Latency: 5 * time.Millisecond}
		rt.S.Local["net"] = n
	}
	return n
}

// Listen adds a server.
func (n *Net) Listen(addr string, tls bool) *Server {
	s := &Server{Addr: addr, TLS: tls}
	n.Servers = append(n.Servers, s)
	return s
}

// Codes of the errors a server may answer with.
var Codes = []codes.Code{codes.Internal, codes.ResourceExhausted, codes.InvalidArgument, codes.Unimplemented, codes.NotFound, codes.PermissionDenied, codes.Unauthenticated, codes.Unknown, codes.FailedPrecondition, codes.Aborted, codes.OutOfRange, codes.DataLoss, codes.Unavailable, codes.DeadlineExceeded, codes.Canceled}

// Rejected is an error answered by the server.
type Rejected struct{ Code codes.Code }

func (e Rejected) Error() string { return "rejected by the server: " + e.Code.String() }

// Errors the transport reports.
var (
	ErrUnavailable = errors.New("unavailable")
	ErrCtx         = errors.New("context done")
)

func (n *Net) outage() *Outage {
	now := rt.Elapsed()
	for i := range n.Outages {
		if o := &n.Outages[i]; now >= o.From && now < o.To {
			return o
		}
	}
	return nil
}

// LastOutage is when the last outage ends.
func (n *Net) LastOutage() time.Duration {
	var t time.Duration
	for _, o := range n.Outages {
		if o.To > t {
			t = o.To
		}
	}
	return t
}

// wait sleeps d or until done closes; false if done closed.
func wait(d time.Duration, done <-chan struct{}) bool {
	if d <= 0 {
		d = time.Nanosecond
	}
	tm := rt.NewTimer(d)
	if done == nil {
		rt.Recv(tm.C)
		return true
	}
	if rt.Select(false, rt.RecvCase(tm.C), rt.RecvCase(done)) == 0 {
		return true
	}
	tm.Stop()
	return false
}

var hashSeed = maphash.MakeSeed()

// intern is a copy of the request, the same one for the same bytes.
func (n *Net) intern(raw []byte) []byte {
	k := maphash.Bytes(hashSeed, raw)
	for _, x := range n.sent[k] {
		if bytes.Equal(x, raw) {
			return x
		}
	}
	if n.sent == nil {
		n.sent = map[uint64][][]byte{}
	}
	x := append([]byte{}, raw...)
	n.sent[k] = append(n.sent[k], x)
	return x
}

// Call performs one request; ack is nil unless err is nil.
func (n *Net) Call(target, method string, secure, skipVerify bool, raw []byte, done <-chan struct{}) (ok bool, err error) {
	a := &Attempt{Target: target, Secure: secure, SkipVerify: skipVerify, At: rt.Elapsed(), Raw: n.intern(raw)}
	n.Attempts = append(n.Attempts, a)
	rt.Logf("rpc to %s (tls=%v): %d bytes", target, secure, len(raw))
	ok, err = n.call(a, method, raw, done)
	a.Err, a.Done, a.End = err, true, rt.Elapsed()
	rt.Logf("rpc to %s done: ok=%v err=%v", target, ok, err)
	return
}

func (n *Net) call(a *Attempt, method string, raw []byte, done <-chan struct{}) (bool, error) {
	lat := n.Latency
	if d := rt.Fault("net-delay", n.PDelay, 64); d > 0 {
		lat += n.Jitter * time.Duration(d) / 64
	}
	if o := n.outage(); o != nil {
		rt.Stat("fault.outage-" + [...]string{"refused", "blackhole", "hang"}[o.Kind])
		switch o.Kind {
		case Refused:
			if !wait(n.Latency, done) {
				return false, ErrCtx
			}
			return false, fmt.Errorf("%w: connection refused", ErrUnavailable)
		case Blackhole:
			if !wait(20*time.Second, done) {
				return false, ErrCtx
			}
			return false, fmt.Errorf("%w: connect timeout", ErrUnavailable)
		default:
			if !wait(o.To-rt.Elapsed(), done) {
				return false, ErrCtx
			}
			return false, fmt.Errorf("%w: connection reset", ErrUnavailable)
		}
	}
	if rt.Fault("net-refuse", n.PRefuse, 1) > 0 {
		if !wait(n.Latency, done) {
			return false, ErrCtx
		}
		return false, fmt.Errorf("%w: connection refused", ErrUnavailable)
	}
	if rt.Fault("net-hang", n.PHang, 1) > 0 {
		n.Hung++
		rt.Logf("rpc hangs")
		if done == nil {
			rt.BlockForever()
		}
		rt.Recv(done)
		return false, ErrCtx
	}
	if !wait(lat/2, done) {
		return false, ErrCtx
	}
	if rt.Fault("net-lost-request", n.PLostReq, 1) > 0 {
		if !wait(lat, done) {
			return false, ErrCtx
		}
		return false, fmt.Errorf("%w: connection lost", ErrUnavailable)
	}
	var s *Server
	for _, x := range n.Servers {
		if x.Addr == a.Target {
			s = x
		}
	}
	if s == nil {
		return false, fmt.Errorf("%w: no such host %s", ErrUnavailable, a.Target)
	}
	if s.TLS != a.Secure {
		return false, fmt.Errorf("%w: tls handshake failed", ErrUnavailable)
	}
	if k := rt.Fault("net-status", n.PStatus, len(Codes)); k > 0 {
		return false, Rejected{Codes[k-1]}
	}
	s.Recs = append(s.Recs, Rec{From: a, Raw: a.Raw, Method: method, At: rt.Elapsed(), Seq: rt.Seq()})
	i := len(s.Recs) - 1
	if rt.Fault("net-nack", n.PNack, 1) > 0 {
		if !wait(lat/2, done) {
			return false, ErrCtx
		}
		return false, nil
	}
	s.Recs[i].Accepted = true
	if n.OnRecv != nil {
		n.OnRecv(s, &s.Recs[i])
	}
	if rt.Fault("net-lost-ack", n.PLostAck, 1) > 0 {
		s.Recs[i].AckLost = true
		if !wait(lat, done) {
			return false, ErrCtx
		}
		return false, fmt.Errorf("%w: connection lost", ErrUnavailable)
	}
	if !wait(lat/2, done) {
		s.Recs[i].AckLost = true
		return false, ErrCtx
	}
	s.Recs[i].AckAt = rt.Elapsed()
	s.Recs[i].AckSeq = rt.Seq()
	return true, nil
}
