package smt

import (
	"bytes"
	"context"
	"crypto/sha256"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Back is a solver back end.
type Back struct {
	Name string
	Args []string
}

// Result of a query.
type Result struct {
	Answer string // unsat, sat, unknown
	Back   string
	Time   time.Duration
}

// Pool runs queries on the solvers, at most N at a time.
type Pool struct {
	sem    chan struct{}
	Dump   string // directory to keep queries in
	mu     sync.Mutex
	cache  map[[32]byte]Result
	n      atomic.Int64
	Spent  atomic.Int64 // nanoseconds
	Dir    string
	ctx    context.Context
	cancel context.CancelFunc
}

// NewPool creates a pool.
func NewPool(n int) *Pool {
	d, err := os.MkdirTemp("", "govc")
	if err != nil {
		panic(err)
	}
	ctx, cancel := context.WithCancel(context.Background())
	return &Pool{sem: make(chan struct{}, n), cache: map[[32]byte]Result{}, Dir: d, ctx: ctx, cancel: cancel}
}

// Close removes the scratch directory.
func (p *Pool) Close() { os.RemoveAll(p.Dir) }

// Z3 is z3 with a deterministic resource limit, in millions, and a time limit.
func Z3(limit, secs int) Back {
	return Back{"z3-new", []string{"z3-new", fmt.Sprintf("rlimit=%d000000", limit), fmt.Sprintf("-T:%d", secs), "smt.random_seed=1"}}
}

// Z3M is z3 without model-based quantifier instantiation.
func Z3M(limit, secs int) Back {
	return Back{"z3-new/ematch", []string{"z3-new", fmt.Sprintf("rlimit=%d000000", limit), fmt.Sprintf("-T:%d", secs), "smt.random_seed=1", "smt.mbqi=false", "smt.auto_config=false"}}
}

// Z3C is z3 without model-based quantifier instantiation that splits on what is
// relevant first.
func Z3C(limit, secs int) Back {
	return Back{"z3-new/relevant", []string{"z3-new", fmt.Sprintf("rlimit=%d000000", limit), fmt.Sprintf("-T:%d", secs), "smt.random_seed=1", "smt.mbqi=false", "smt.auto_config=false", "smt.case_split=3"}}
}

// Z3Old is the older z3.
func Z3Old(limit, secs int) Back {
	return Back{"z3", []string{"z3", fmt.Sprintf("rlimit=%d000000", limit), fmt.Sprintf("-T:%d", secs)}}
}

// CVC5 is cvc5.
func CVC5(limit, secs int) Back {
	return Back{"cvc5", []string{"cvc5", fmt.Sprintf("--rlimit=%d", limit*100000), fmt.Sprintf("--tlimit=%d", secs*1000), "--strings-exp", "--full-saturate-quant", "--fp-exp"}}
}

// Run runs one query on one back end.
func (p *Pool) Run(name, q string, b Back) Result {
	key := sha256.Sum256([]byte(strings.Join(b.Args, " ") + "\n" + q))
	p.mu.Lock()
	if r, ok := p.cache[key]; ok {
		p.mu.Unlock()
		return r
	}
	p.mu.Unlock()
	p.sem <- struct{}{}
	defer func() { <-p.sem }()
	id := p.n.Add(1)
	f := filepath.Join(p.Dir, fmt.Sprintf("q%d.smt2", id))
	os.WriteFile(f, []byte(q), 0o644)
	defer os.Remove(f)
	start := time.Now()
	ctx, cancel := context.WithTimeout(context.Background(), 300*time.Second)
	defer cancel()
	if p.Stopped() {
		return Result{Answer: "out of time", Back: b.Name}
	}
	defer context.AfterFunc(p.ctx, cancel)()
	cmd := exec.CommandContext(ctx, b.Args[0], append(append([]string{}, b.Args[1:]...), f)...)
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	cmd.Run()
	r := Result{Answer: "unknown", Back: b.Name, Time: time.Since(start)}
	p.Spent.Add(int64(r.Time))
	s := out.String()
	switch l := strings.TrimSpace(strings.SplitN(s, "\n", 2)[0]); l {
	case "sat", "unsat", "unknown", "timeout":
		if l != "timeout" {
			r.Answer = l
		}
	default:
		if strings.Contains(s, "error") {
			r.Answer = "error: " + s
			if len(r.Answer) > 600 {
				r.Answer = r.Answer[:600]
			}
		}
	}
	if p.Dump != "" {
		os.WriteFile(filepath.Join(p.Dump, fmt.Sprintf("%03d_%s_%s_%s.smt2", id, name, strings.ReplaceAll(b.Name, "/", "-"), strings.SplitN(r.Answer, ":", 2)[0])), []byte("; "+name+"\n"+q), 0o644)
	}
	p.mu.Lock()
	p.cache[key] = r
	p.mu.Unlock()
	return r
}

// StopBy says when the pool stops at the latest.
func (p *Pool) StopBy(t time.Time) {
	time.AfterFunc(time.Until(t), p.cancel)
}

// Stopped tells whether the pool has stopped.
func (p *Pool) Stopped() bool { return p.ctx.Err() != nil }

// Prove tries to show that the assertions are unsatisfiable.
func (p *Pool) Prove(name string, q string, backs ...Back) Result {
	var last Result
	var total time.Duration
	for _, b := range backs {
		r := p.Run(name, q, b)
		total += r.Time
		r.Time = total
		if r.Answer == "unsat" {
			return r
		}
		if last.Answer == "" || r.Answer == "sat" {
			last = r
		}
		if r.Answer == "sat" {
			return r
		}
	}
	return last
}
