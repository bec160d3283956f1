package main

import (
	"bytes"
	"context"
	"crypto/tls"
	"fmt"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials"
	"google.golang.org/grpc/credentials/insecure"
)

// proc is one running deckard binary.
type proc struct {
	cmd  *exec.Cmd
	port int
	out  *syncBuf
	exit chan struct{}
	err  error // of Wait, once exit is closed
	at   time.Time
}

type syncBuf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (s *syncBuf) Write(p []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.b.Len() < 1<<20 {
		s.b.Write(p)
	}
	return len(p), nil
}

func (s *syncBuf) String() string {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.b.String()
}

var portNext atomic.Int64

// shardPort hands out ports below the ephemeral range, a separate part of it for every process of a check.
func shardPort(shard int) int {
	for i := 0; i < 2000; i++ {
		p := 12000 + shard*2000 + int((portNext.Add(1)*7+int64(os.Getpid())*13)%1999)
		l, err := net.Listen("tcp", fmt.Sprint(":", p))
		if err == nil {
			l.Close()
			return p
		}
	}
	return freePort()
}

func binary() string {
	me, _ := os.Executable()
	return filepath.Join(filepath.Dir(me), "deckard")
}

// launch starts the binary with the given settings and nothing else in its environment.
func launch(dir string, port int, env map[string]string) (*proc, error) {
	p := &proc{port: port, out: &syncBuf{}, exit: make(chan struct{})}
	p.cmd = exec.Command(binary())
	p.cmd.Dir = dir
	p.cmd.Env = []string{"PATH=" + os.Getenv("PATH"), "HOME=" + dir, fmt.Sprint("DECKARD_GRPC_PORT=", port)}
	if _, ok := env["DECKARD_METRICS_ENABLED"]; !ok {
		p.cmd.Env = append(p.cmd.Env, "DECKARD_METRICS_ENABLED=false")
	}
	for _, k := range sortedKeys(env) {
		p.cmd.Env = append(p.cmd.Env, k+"="+env[k])
	}
	p.cmd.Stdout, p.cmd.Stderr = p.out, p.out
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL, Setpgid: true}
	if err := p.cmd.Start(); err != nil {
		return nil, err
	}
	go func() {
		p.err = p.cmd.Wait()
		p.at = time.Now()
		close(p.exit)
	}()
	return p, nil
}

func (p *proc) gone() bool {
	select {
	case <-p.exit:
		return true
	default:
		return false
	}
}

// portTaken: some other process has the port; nothing about the service follows.
func (p *proc) portTaken() bool { return strings.Contains(p.out.String(), "address already in use") }

// ready waits until the port accepts connections; false: the process ended first or took too long.
func (p *proc) ready(limit time.Duration) bool {
	end := time.Now().Add(limit)
	for time.Now().Before(end) && !p.gone() {
		c, err := net.DialTimeout("tcp", fmt.Sprint("127.0.0.1:", p.port), time.Second)
		if err == nil {
			c.Close()
			return true
		}
		time.Sleep(2 * time.Millisecond)
	}
	return false
}

func (p *proc) signal(s syscall.Signal) { _ = p.cmd.Process.Signal(s) }

// wait reports whether the process has ended within the limit.
func (p *proc) wait(limit time.Duration) bool {
	select {
	case <-p.exit:
		return true
	case <-time.After(limit):
		return false
	}
}

func (p *proc) kill() {
	_ = p.cmd.Process.Kill()
	<-p.exit
}

// status is the exit status in words.
func (p *proc) status() string {
	if p.err == nil {
		return "exit status 0"
	}
	return p.err.Error()
}

func (p *proc) tail(n int) string {
	s := p.out.String()
	if len(s) > n {
		s = "..." + s[len(s)-n:]
	}
	return s
}

// start launches the binary and waits for its port.
func startProc(shard int, dir string, env map[string]string) (*proc, error) {
	var last string
	for i := 0; i < 8; i++ {
		p, err := launch(dir, shardPort(shard), env)
		if err != nil {
			return nil, err
		}
		if p.ready(60 * time.Second) {
			if p.portTaken() {
				p.kill()
				continue
			}
			return p, nil
		}
		last = p.status() + ": " + p.tail(600)
		taken := p.portTaken()
		p.kill()
		if !taken {
			break
		}
	}
	return nil, fmt.Errorf("the service did not start: %s", last)
}

func plainCreds() credentials.TransportCredentials { return insecure.NewCredentials() }

func dialTo(port int, conf *tls.Config) (*grpc.ClientConn, error) {
	cr := insecure.NewCredentials()
	if conf != nil {
		cr = credentials.NewTLS(conf)
	}
	return grpc.NewClient(fmt.Sprintf("passthrough:///127.0.0.1:%d", port), grpc.WithTransportCredentials(cr))
}

func within(d time.Duration) (context.Context, context.CancelFunc) {
	return context.WithTimeout(context.Background(), d)
}
