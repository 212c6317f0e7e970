// Shared by the demonstrations: runs the real monny binary against a report
// server on the loopback network.
package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"net"
	"os"
	"os/exec"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/BTBurke/monny/pkg/pb"
	"google.golang.org/grpc"
)

type server struct {
	mu      sync.Mutex
	reports []*pb.Report
	addr    string
	reply   func(n int, r *pb.Report) (bool, error)
	calls   int
}

// Create records a report and answers it.
func (s *server) Create(ctx context.Context, r *pb.Report) (*pb.ReportAck, error) {
	s.mu.Lock()
	n := s.calls
	s.calls++
	s.mu.Unlock()
	ok := true
	var err error
	if s.reply != nil {
		ok, err = s.reply(n, r)
	}
	if err == nil && ok {
		s.mu.Lock()
		s.reports = append(s.reports, r)
		s.mu.Unlock()
	}
	return &pb.ReportAck{Success: ok}, err
}

func newServer() *server {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		die("listen: %v", err)
	}
	s := &server{addr: l.Addr().String()}
	g := grpc.NewServer()
	pb.RegisterReportsServer(g, s)
	go g.Serve(l)
	return s
}

func (s *server) of(reason pb.ReportReason) (out []*pb.Report) {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, r := range s.reports {
		if r.ReportReason == reason {
			out = append(out, r)
		}
	}
	return
}

type result struct {
	out, err string
	code     int
	took     time.Duration
	hung     bool
	sig      syscall.Signal
}

// monny runs the binary named by $MONNY with args; mod may adjust the command, and
// during runs while it does.
func monny(limit time.Duration, mod func(*exec.Cmd), during func(*os.Process), args ...string) result {
	c := exec.Command(os.Getenv("MONNY"), args...)
	c.Env = append(os.Environ(), "SHELL=/bin/sh")
	c.Dir = os.Getenv("SCRATCH")
	var o, e bytes.Buffer
	c.Stdout, c.Stderr = &o, &e
	c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	c.WaitDelay = 2 * time.Second
	if mod != nil {
		mod(c)
	}
	start := time.Now()
	if err := c.Start(); err != nil {
		die("start monny: %v", err)
	}
	hung := false
	t := time.AfterFunc(limit, func() {
		hung = true
		syscall.Kill(-c.Process.Pid, syscall.SIGKILL)
	})
	if during != nil {
		go during(c.Process)
	}
	werr := c.Wait()
	t.Stop()
	syscall.Kill(-c.Process.Pid, syscall.SIGKILL)
	r := result{o.String(), e.String(), c.ProcessState.ExitCode(), time.Since(start), hung, 0}
	var ee *exec.ExitError
	if errors.As(werr, &ee) {
		if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
			r.sig = ws.Signal()
		}
	}
	return r
}

func die(f string, a ...interface{}) {
	fmt.Println("demo: " + fmt.Sprintf(f, a...))
	os.Exit(1)
}

func need(ok bool, f string, a ...interface{}) {
	if !ok {
		die(f, a...)
	}
}

var _ = strings.Contains
