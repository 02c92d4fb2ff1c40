package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"sync/atomic"
	"time"
)

// worker is a long-lived z3-new process answering one query at a time.
type z3proc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	n   int
}

var idle = make(chan *z3proc, 16)

func startWorker() *z3proc {
	c := exec.Command("z3-new", "-in", "-smt2")
	in, err := c.StdinPipe()
	if err != nil {
		return nil
	}
	out, err := c.StdoutPipe()
	if err != nil {
		return nil
	}
	if c.Start() != nil {
		return nil
	}
	return &z3proc{cmd: c, in: in, out: bufio.NewReader(out)}
}

func (w *z3proc) kill() {
	w.in.Close()
	w.cmd.Process.Kill()
	go w.cmd.Wait()
}

// ask runs one query on a pooled z3-new process.
func ask(head, body string, ms int) string {
	sem <- struct{}{}
	defer func() { <-sem }()
	start := time.Now()
	var w *z3proc
	select {
	case w = <-idle:
	default:
		w = startWorker()
	}
	if w == nil {
		return "unknown"
	}
	type ans struct {
		s   string
		err error
	}
	ch := make(chan ans, 1)
	go func() {
		_, err := io.WriteString(w.in, fmt.Sprintf("(reset)\n(set-option :timeout %d)\n", ms)+head+body+"(check-sat)\n(echo \"##\")\n")
		if err != nil {
			ch <- ans{"", err}
			return
		}
		res := ""
		for {
			l, err := w.out.ReadString('\n')
			if err != nil {
				ch <- ans{"", err}
				return
			}
			l = strings.TrimSpace(l)
			if l == "##" {
				ch <- ans{res, nil}
				return
			}
			if strings.HasPrefix(l, "(error") {
				res = "error"
			} else if res == "" {
				res = l
			}
		}
	}()
	var a ans
	select {
	case a = <-ch:
	case <-time.After(time.Duration(ms+2000) * time.Millisecond):
		a.err = fmt.Errorf("timeout")
	}
	st := stats["z3-new"]
	atomic.AddInt64(&st.queries, 1)
	atomic.AddInt64(&st.nanos, int64(time.Since(start)))
	if os.Getenv("VERIF_SLOW") != "" && time.Since(start) > time.Second {
		f := fmt.Sprintf("/tmp/slow_%d.smt2", start.UnixNano())
		os.WriteFile(f, []byte(head+body+"(check-sat)\n"), 0644)
	}
	w.n++
	if a.err != nil || w.n > 200 {
		w.kill()
	} else {
		select {
		case idle <- w:
		default:
			w.kill()
		}
	}
	switch a.s {
	case "sat", "unsat", "unknown", "timeout":
		return a.s
	case "error":
		dbg("SOLVER ERROR (pool)")
		return "error"
	}
	return "unknown"
}
