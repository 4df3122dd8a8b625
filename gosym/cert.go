package main

import (
	"bytes"
	"context"
	"fmt"
	"os/exec"
	"strings"
	"sync"
	"time"
)

// The exploration certificate. Every fork taken by the executor (a value chosen by the
// harness, a branch of which the solver found both sides feasible, a decision of the
// scheduler, a fault) is a variable c<k>_<v>: "choice number k took the value v". From the
// forks seen and the paths decided the certificate asks the solver for an assignment of
// these variables which is allowed by the forks but which is none of the paths decided.
// Unsat means that the paths decided are all the executions within the bounds.

// cp is a fork on a path: where it is in the trace and how many ways it has
type cp struct {
	pos int32
	n   int32
}

type certPath struct {
	val []int32
	n   []int32
}

type certificate struct {
	paths []certPath
	over  bool
	// the result
	Status  string
	Queries int
	Time    time.Duration
	Clauses int
}

const certMaxPaths = 200000

func (ce *certificate) add(in *Interp) {
	if ce.over {
		return
	}
	if len(ce.paths) >= certMaxPaths {
		ce.over, ce.paths = true, nil
		return
	}
	p := certPath{make([]int32, len(in.cps)), make([]int32, len(in.cps))}
	for i, c := range in.cps {
		p.val[i] = int32(in.trace[c.pos])
		p.n[i] = c.n
	}
	ce.paths = append(ce.paths, p)
}

type certNode struct {
	n    int32
	kids map[int32]*certNode
	leaf bool
	cnt  int
}

func (ce *certificate) check() {
	if ce.over {
		ce.Status = fmt.Sprintf("not made: more than %d paths", certMaxPaths)
		return
	}
	start := time.Now()
	root := &certNode{}
	for _, p := range ce.paths {
		x := root
		for i, v := range p.val {
			if x.leaf || x.n != 0 && x.n != p.n[i] {
				ce.Status = "the forks of the paths do not fit together"
				return
			}
			x.n = p.n[i]
			x.cnt++
			if x.kids == nil {
				x.kids = map[int32]*certNode{}
			}
			k := x.kids[v]
			if k == nil {
				k = &certNode{}
				x.kids[v] = k
			}
			x = k
		}
		if x.leaf || x.kids != nil {
			ce.Status = "the forks of the paths do not fit together"
			return
		}
		x.leaf = true
		x.cnt++
	}
	ce.paths = nil
	// subtrees of some thousands of paths each, every one a query; the part above them is one more
	ce.Status = "unsat"
	var part func(x *certNode, depth int)
	var todo []*certNode
	var depths []int
	part = func(x *certNode, depth int) {
		if x.cnt > 3000 && x.kids != nil {
			for v := int32(0); v < x.n; v++ {
				if k := x.kids[v]; k != nil && k.cnt > 3000 {
					part(k, depth+1)
				}
			}
		}
		todo = append(todo, x)
		depths = append(depths, depth)
	}
	part(root, 0)
	cut := map[*certNode]bool{}
	for _, x := range todo {
		cut[x] = true
	}
	sem := make(chan bool, 8)
	var wg sync.WaitGroup
	var mu sync.Mutex
	for i, x := range todo {
		wg.Add(1)
		sem <- true
		go func() {
			defer wg.Done()
			r, n := ask(x, depths[i], cut)
			<-sem
			mu.Lock()
			defer mu.Unlock()
			ce.Queries++
			ce.Clauses += n
			if r != "unsat" {
				ce.Status = r
			}
		}()
	}
	wg.Wait()
	ce.Time = time.Since(start)
}

// ask asks about the subtree; those which are cut count as one path
func ask(root *certNode, depth int, cut map[*certNode]bool) (string, int) {
	clauses := 0
	var b, decl bytes.Buffer
	seen := map[string]bool{}
	name := func(d int, v int32) string {
		s := fmt.Sprintf("c%d_%d", d, v)
		if !seen[s] {
			seen[s] = true
			fmt.Fprintf(&decl, "(declare-const %s Bool)\n", s)
		}
		return s
	}
	var neg []string
	var walk func(x *certNode, d int)
	walk = func(x *certNode, d int) {
		clauses++
		if x.leaf || x != root && cut[x] {
			// this path is decided
			fmt.Fprintf(&b, "(assert (or false %s))\n", strings.Join(neg, " "))
			return
		}
		// one of its ways is taken where the fork is met
		b.WriteString("(assert (or " + strings.Join(neg, " "))
		for v := int32(0); v < x.n; v++ {
			b.WriteString(" " + name(d, v))
		}
		b.WriteString("))\n")
		for v := int32(0); v < x.n; v++ {
			k := x.kids[v]
			if k == nil {
				continue // nothing says that it is decided
			}
			neg = append(neg, "(not "+name(d, v)+")")
			walk(k, d+1)
			neg = neg[:len(neg)-1]
		}
	}
	walk(root, depth)
	ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, solverBin, "-in", "-smt2")
	c.Stdin = strings.NewReader("(set-logic QF_UF)\n" + decl.String() + b.String() + "(check-sat)\n")
	out, err := c.Output()
	r := strings.TrimSpace(string(out))
	if err != nil || r != "unsat" && r != "sat" {
		r = "unknown"
	}
	return r, clauses
}
