package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	_ "github.com/gernest/requiemdb/internal/compress"
	collector_logs "go.opentelemetry.io/proto/otlp/collector/logs/v1"
	collector_metrics "go.opentelemetry.io/proto/otlp/collector/metrics/v1"
	collector_trace "go.opentelemetry.io/proto/otlp/collector/trace/v1"
	mv1 "go.opentelemetry.io/proto/otlp/metrics/v1"
	"google.golang.org/grpc"
	"google.golang.org/grpc/backoff"
	"google.golang.org/grpc/credentials/insecure"
	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/proto"
)

// e2e scenario: repeats behaviours of Server.tla with the server itself, over gRPC.
// Calls keep coming while it shuts down, some take long to decode.

type e2eOp struct {
	O         string `json:"o"`
	Sig       int    `json:"sig"`
	N         int    `json:"n"`
	Par       bool   `json:"par"`
	Exporters int    `json:"exporters"`
	Scanners  int    `json:"scanners"`
	Slow      int    `json:"slow"`
	At        int    `json:"at"`
}

type e2eRun struct {
	bin, dir string
	cmd      *exec.Cmd
	out      *lockedBuffer
	addr     string
	conn     *grpc.ClientConn
	e        *Emitter
	base     ts
	seed     int64
	next     atomic.Int64
	exports  sync.WaitGroup
	exited   chan struct{}
}

type lockedBuffer struct {
	sync.Mutex
	b bytes.Buffer
}

func (l *lockedBuffer) Write(p []byte) (int, error) {
	l.Lock()
	defer l.Unlock()
	if l.b.Len() < 1<<20 {
		l.b.Write(p)
	}
	return len(p), nil
}

func (l *lockedBuffer) tail() string {
	l.Lock()
	defer l.Unlock()
	s := l.b.String()
	return s[max(0, len(s)-600):]
}

func e2eMain(args []string) {
	fs := flag.NewFlagSet("e2e", flag.ExitOnError)
	out := fs.String("out", "", "")
	dir := fs.String("dir", "", "")
	bin := fs.String("bin", "", "the server")
	ops := fs.String("ops", "", "json list of behaviours")
	seed := fs.Int64("seed", 1, "")
	check(fs.Parse(args))
	b, err := os.ReadFile(*ops)
	check(err)
	var hs [][]e2eOp
	check(json.Unmarshal(b, &hs))
	e := newEmitter(*out)
	defer e.Close()
	for i, h := range hs {
		e.Emit(obj{"ev": "new", "src": "model", "i": i})
		g := &Gen{rng: newRng(*seed + int64(i))}
		r := &e2eRun{bin: *bin, dir: filepath.Join(*dir, "s"+itoa(i)), e: e, seed: *seed + int64(i)*1000, base: pick(g.rng, g.instants(1))}
		check(os.MkdirAll(r.dir, 0755))
		ok := r.run(h)
		r.kill()
		if !ok {
			return
		}
		check(os.RemoveAll(r.dir))
	}
}

func (r *e2eRun) kill() {
	if r.cmd != nil {
		r.cmd.Process.Kill()
		<-r.exited
		r.cmd = nil
	}
	if r.conn != nil {
		r.conn.Close()
	}
}

func (r *e2eRun) env() []string {
	return append(os.Environ(), "HOME="+r.dir, "RQ_LOG_LEVEL=warn")
}

// start runs the server on a free port
func (r *e2eRun) start() error {
	for try := 0; ; try++ {
		l, err := net.Listen("tcp", fmt.Sprintf("127.%d.%d.%d:0", 1+os.Getpid()>>16%200, os.Getpid()>>8&255, 1+os.Getpid()&127)) // its own
		check(err)
		r.addr = l.Addr().String()
		check(l.Close())
		r.out = &lockedBuffer{}
		r.cmd = exec.Command(r.bin, "--otlpListen", r.addr)
		r.cmd.Env, r.cmd.Stdout, r.cmd.Stderr, r.cmd.Dir = r.env(), r.out, r.out, r.dir
		r.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		check(r.cmd.Start())
		r.exited = make(chan struct{})
		go func(c *exec.Cmd, x chan struct{}) { c.Wait(); close(x) }(r.cmd, r.exited)
		r.conn, err = grpc.NewClient(r.addr, grpc.WithTransportCredentials(insecure.NewCredentials()),
			grpc.WithConnectParams(grpc.ConnectParams{Backoff: backoff.Config{BaseDelay: 10 * time.Millisecond, Multiplier: 1.2, MaxDelay: time.Second}, MinConnectTimeout: 5 * time.Second}))
		check(err)
		for i := 0; ; i++ {
			ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
			_, err = v1.NewRQClient(r.conn).GetVersion(ctx, &v1.GetVersionRequest{})
			cancel()
			if err == nil {
				return nil
			}
			select {
			case <-r.exited:
				err = fmt.Errorf("server exited: %s", r.out.tail())
			case <-time.After(50 * time.Millisecond):
				if i < 1200 {
					continue
				}
				err = fmt.Errorf("server does not answer: %w", err)
			}
			break
		}
		r.kill()
		if try < 5 && strings.Contains(err.Error(), "failed listening") {
			continue // someone else took the port
		}
		return err
	}
}

func (r *e2eRun) open() bool {
	err := r.start()
	r.e.Emit(obj{"ev": "open", "err": errString(err)})
	return err == nil
}

func (r *e2eRun) opts(x int64) (o []grpc.CallOption) {
	if x%2 == 0 {
		o = append(o, grpc.UseCompressor("zstd"))
	}
	return
}

// export sends one export. Whether it was acknowledged is all that counts.
func (r *e2eRun) export(sig, slow int) (acked bool) {
	x := r.next.Add(1)
	g := &Gen{rng: newRng(r.seed*7919 + x), uid: int(x) * 1000, small: true, rich: x%5 == 0}
	d := g.labelled(sig, nil, nil, r.base)
	r.e.Emit(obj{"ev": "call", "x": x, "sig": sig, "us": project(d).uids()})
	if slow > 0 {
		// The server is built to take its time when it decodes this
		d = proto.Clone(d).(*v1.Data)
		u := fmt.Sprintf("verif-decode-delay-%03d", slow)
		switch x := d.Data.(type) {
		case *v1.Data_Metrics:
			x.Metrics.ResourceMetrics[0].SchemaUrl = u
		case *v1.Data_Traces:
			x.Traces.ResourceSpans[0].SchemaUrl = u
		case *v1.Data_Logs:
			x.Logs.ResourceLogs[0].SchemaUrl = u
		}
	}
	ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
	defer cancel()
	var err error
	switch sig {
	case 1:
		_, err = collector_metrics.NewMetricsServiceClient(r.conn).Export(ctx, &collector_metrics.ExportMetricsServiceRequest{ResourceMetrics: d.GetMetrics().ResourceMetrics}, r.opts(x)...)
	case 2:
		_, err = collector_trace.NewTraceServiceClient(r.conn).Export(ctx, &collector_trace.ExportTraceServiceRequest{ResourceSpans: d.GetTraces().ResourceSpans}, r.opts(x)...)
	default:
		_, err = collector_logs.NewLogsServiceClient(r.conn).Export(ctx, &collector_logs.ExportLogsServiceRequest{ResourceLogs: d.GetLogs().ResourceLogs}, r.opts(x)...)
	}
	if err != nil {
		r.e.Emit(obj{"ev": "nack", "x": x, "err": errString(err)})
		return false
	}
	r.e.Emit(obj{"ev": "ack", "x": x, "err": "", "firm": true})
	return true
}

// scan leaves out what the server records about itself
func (r *e2eRun) everything(sig int, quiet, mayFail bool) bool {
	b := r.base.Time()
	q := &Query{Sig: sig, Range: true, Start: fromTime(b.AddDate(-3, 0, 0)), End: fromTime(b.AddDate(3, 0, 0)), Now: r.base}
	return r.emitScan(sig, quiet, mayFail, func() (*v1.Data, error) {
		ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
		defer cancel()
		return v1.NewRQClient(r.conn).ScanSamples(ctx, q.proto(), append(r.opts(int64(sig)), grpc.MaxCallRecvMsgSize(256<<20))...)
	})
}

func (r *e2eRun) emitScan(sig int, quiet, mayFail bool, f func() (*v1.Data, error)) bool {
	d, err := f()
	if err != nil && mayFail {
		return false
	}
	us := []int{}
	if err == nil {
		doc := project(d)
		for _, u := range doc.uids() {
			if u >= 0 {
				us = append(us, u)
			}
		}
		if doc.Sig != 0 && doc.Sig != sig {
			us = append(us, -1)
		}
	}
	r.e.Emit(obj{"ev": "scan", "sig": sig, "us": us, "err": errString(err), "quiet": quiet, "racing": mayFail})
	return err == nil
}

// query runs a script with the command line
func (r *e2eRun) query(n int, quiet bool) {
	b := r.base.Time()
	src := fmt.Sprintf(`import { Metrics } from "@requiemdb/rq";
const m = new Metrics();
m.ptr.TimeRange(%d, %d);
Metrics.renderJSON(m.query());
// %d
`, b.AddDate(-3, 0, 0).UnixMilli(), b.AddDate(3, 0, 0).UnixMilli(), n)
	r.emitScan(1, quiet, false, func() (*v1.Data, error) {
		f := filepath.Join(r.dir, "script.ts")
		check(os.WriteFile(f, []byte(src), 0600))
		c := exec.Command(r.bin, "query", "--remoteAddress", r.addr, f)
		c.Env, c.Dir = r.env(), r.dir
		var e bytes.Buffer
		c.Stderr = &e
		o, err := c.Output()
		if err != nil {
			return nil, fmt.Errorf("%w: %s", err, e.String()[max(0, e.Len()-600):])
		}
		var m mv1.MetricsData
		if err := protojson.Unmarshal(o, &m); err != nil {
			return nil, err
		}
		return &v1.Data{Data: &v1.Data_Metrics{Metrics: &m}}, nil
	})
}

// traffic keeps coming until there is no server
func (r *e2eRun) traffic(exporters, scanners, slow int) *sync.WaitGroup {
	var wg sync.WaitGroup
	for p := 0; p < exporters; p++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 60; i++ {
				if !r.export(1+(i+p)%3, 0) || i > 5 && r.over() {
					return
				}
			}
		}()
	}
	for p := 0; p < scanners; p++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 60 && !r.over(); i++ {
				if !r.everything(1+(i+p)%3, false, true) {
					return
				}
			}
		}()
	}
	for p := 0; p < slow; p++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			r.export(1+p%3, 15+12*p)
		}()
	}
	return &wg
}

// down interrupts the server while there is traffic
func (r *e2eRun) down(o e2eOp) bool {
	wg := r.traffic(o.Exporters, o.Scanners, o.Slow)
	time.Sleep(time.Duration(o.At) * time.Millisecond)
	r.e.Emit(obj{"ev": "closing"})
	check(r.cmd.Process.Signal(os.Interrupt))
	var err error
	select {
	case <-r.exited:
		if c := r.cmd.ProcessState.ExitCode(); c != 0 {
			err = fmt.Errorf("exit code %d: %s", c, r.out.tail())
		}
	case <-time.After(90 * time.Second):
		r.cmd.Process.Signal(syscall.SIGQUIT)
		time.Sleep(time.Second)
		err = errors.New("server does not end: " + r.out.tail())
	}
	wg.Wait()
	r.exports.Wait()
	if err == nil {
		r.cmd = nil
	}
	r.conn.Close()
	r.e.Emit(obj{"ev": "down", "err": errString(err)})
	return err == nil
}

// killed ends the server at once
func (r *e2eRun) killed(o e2eOp) {
	wg := r.traffic(o.Exporters, 0, 0)
	time.Sleep(time.Duration(o.At) * time.Millisecond)
	settle(filepath.Join(r.dir, ".rq", "data", "db"))
	r.e.Emit(obj{"ev": "killing"})
	r.cmd.Process.Kill()
	<-r.exited
	wg.Wait()
	r.exports.Wait()
	r.cmd = nil
	r.conn.Close()
	r.e.Emit(obj{"ev": "killed"})
}

func (r *e2eRun) over() bool {
	select {
	case <-r.exited:
		return true
	default:
		return false
	}
}

func (r *e2eRun) probes(n int) {
	for s := 1; s <= 3; s++ {
		r.everything(s, true, false)
	}
	r.query(n, true)
}

func (r *e2eRun) run(ops []e2eOp) bool {
	if !r.open() {
		return false
	}
	up := true
	for i, o := range ops {
		switch o.O {
		case "export":
			for j := 0; j < o.N; j++ {
				if o.Par {
					r.exports.Add(1)
					go func() { defer r.exports.Done(); r.export(1+(j+o.Sig)%3, 0) }()
				} else {
					r.export(o.Sig, 0)
				}
			}
			if o.N > 3 {
				r.exports.Wait()
			}
		case "scan":
			r.everything(o.Sig, false, false)
		case "query":
			r.query(i, false)
		case "interrupt":
			if !r.down(o) {
				return false
			}
			up = false
		case "kill":
			r.killed(o)
			up = false
		case "restart":
			if !r.open() {
				return false
			}
			up = true
			r.probes(i)
		}
	}
	if up && !r.down(e2eOp{Exporters: 2, Slow: 6}) {
		return false
	}
	if !r.open() {
		return false
	}
	r.probes(len(ops))
	return r.down(e2eOp{Scanners: 1})
}
