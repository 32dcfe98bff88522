//go:build go1.22

// Package js runs the JavaScript client library in a process of its own and hands it commands.
package js

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"io"
	"os"
	"os/exec"
	"sync"
	"time"

	kit "github.com/ConsenSys/fc-retrieval/common/pkg/verifkit"
)

// Worker is one such process.
type Worker struct {
	k     *kit.K
	cmd   *exec.Cmd
	in    io.WriteCloser
	err   bytes.Buffer
	mu    sync.Mutex
	wait  map[int]chan answer
	next  int
	dead  chan struct{}
	close bool
}

type answer struct {
	ID    int             `json:"seq"`
	Value json.RawMessage `json:"value"`
	Error string          `json:"error"`
	lost  bool
}

// ErrLost is what a command fails with when the worker is no more, or does not answer; it is reported already.
var ErrLost = errors.New("the worker is lost")

// Start runs one.
func Start(k *kit.K) *Worker {
	w := &Worker{k: k, wait: map[int]chan answer{}, dead: make(chan struct{})}
	w.cmd = exec.Command("node", "--max-old-space-size=1024", os.Getenv("VERIF_JS"))
	var err error
	if w.in, err = w.cmd.StdinPipe(); err != nil {
		panic("harness: " + err.Error())
	}
	out, err := w.cmd.StdoutPipe()
	if err != nil {
		panic("harness: " + err.Error())
	}
	w.cmd.Stderr = &w.err
	if err := w.cmd.Start(); err != nil {
		panic("harness: " + err.Error())
	}
	go w.read(out)
	return w
}

func (w *Worker) read(out io.Reader) {
	rd := bufio.NewReaderSize(out, 1<<20)
	for {
		l, err := rd.ReadBytes('\n')
		if err != nil {
			break
		}
		var a answer
		if json.Unmarshal(l, &a) != nil {
			w.k.Inconclusive("the worker said %q", l)
			continue
		}
		if a.ID < 0 {
			w.k.Violate("uncaught", a.Error, "the JavaScript client threw where nobody catches: %s", a.Error)
			continue
		}
		w.mu.Lock()
		c := w.wait[a.ID]
		delete(w.wait, a.ID)
		w.mu.Unlock()
		if c != nil {
			c <- a
		}
	}
	err := w.cmd.Wait()
	w.mu.Lock()
	defer w.mu.Unlock()
	if !w.close {
		text := w.err.String()
		if len(text) > 4000 {
			text = text[len(text)-4000:]
		}
		if w.cmd.ProcessState != nil && w.cmd.ProcessState.ExitCode() >= 0 {
			w.k.Violate("ended", text, "the process of the JavaScript client ended (%v): %s", err, text)
		} else {
			w.k.Inconclusive("the worker ended: %v %s", err, text)
		}
	}
	close(w.dead)
}

// Close stops it.
func (w *Worker) Close() {
	w.mu.Lock()
	w.close = true
	w.mu.Unlock()
	w.in.Close()
	select {
	case <-w.dead:
	case <-time.After(10 * time.Second):
		w.cmd.Process.Kill()
	}
}

// Args are those of a command.
type Args map[string]interface{}

// Do gives a command and waits for its result, which is decoded to v.
func (w *Worker) Do(op string, args Args, v interface{}) error {
	c := make(chan answer, 1)
	q := map[string]interface{}{"op": op}
	for n, x := range args {
		q[n] = x
	}
	w.mu.Lock()
	w.next++
	id := w.next
	q["seq"] = id
	w.wait[id] = c
	b, err := json.Marshal(q)
	if err != nil {
		panic("harness: " + err.Error())
	}
	_, err = w.in.Write(append(b, '\n'))
	w.mu.Unlock()
	if err != nil {
		return ErrLost
	}
	t0 := time.Now()
	for {
		select {
		case a := <-c:
			if a.Error != "" {
				return errors.New(a.Error)
			}
			if v != nil {
				if err := json.Unmarshal(a.Value, v); err != nil {
					w.k.Violate("result:"+op, string(a.Value), "%s gave %.300s", op, a.Value)
					return ErrLost
				}
			}
			return nil
		case <-w.dead:
			return ErrLost
		case <-time.After(time.Second):
			if time.Since(t0) > 90*time.Second+kit.Stalled(t0) {
				w.k.Violate("hang:"+op, q, "%s has not ended after 90 s, though everything it asked was answered", op)
				return ErrLost
			}
		}
	}
}
