package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"strings"
	"sync/atomic"
	"time"
)

// Prop is a property with the finite spaces (tasks) that are enumerated to decide it.
type Prop struct {
	ID     string
	Tasks  func(thorough bool) []Task
	Bounds string
	Assume []string
}

// Task is one finite space, enumerated completely and deterministically by one worker.
type Task struct {
	Name string
	Run  func(c *Ctx)
}

type Violation struct {
	Prop string `json:"property"`
	Tier string `json:"tier"`
	Task string `json:"task"`
	Case int64  `json:"case"`
	Desc string `json:"case_description"`
	Msg  string `json:"failure"`
}

type Stats struct {
	States      int64    `json:"states"`
	Transitions int64    `json:"transitions"`
	Traces      int64    `json:"traces"`
	Checks      int64    `json:"checks"`
	Samples     []string `json:"samples,omitempty"`
	Known       []string `json:"known,omitempty"`
	Truncated   bool     `json:"truncated,omitempty"`
}

type Ctx struct {
	propID   string
	tier     string
	task     string
	thorough bool
	deadline time.Time
	st       Stats
	caseNo   int64
	viol     *Violation
	known    []KnownFinding
	journal  *os.File
}

type KnownFinding struct {
	Property string `json:"property"`
	Contains string `json:"contains"`
	What     string `json:"what"`
}

type failure struct{ msg string }
type stopTask struct{}

// fail reports that the implementation disagrees with the reference in the current case.
func fail(format string, args ...any) {
	panic(failure{fmt.Sprintf(format, args...)})
}

// ---- watchdog state
var (
	caseStart atomic.Int64 // unix nano of the running case, 0 if none
	caseDesc  atomic.Pointer[func() string]
	caseNum   atomic.Int64
	curTask   atomic.Pointer[string]
)

func runGuarded(f func()) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case failure:
				msg = x.msg
			case stopTask:
				panic(r)
			default:
				msg = fmt.Sprintf("unexpected panic: %v\n%s", r, trimStack(debug.Stack()))
			}
			if msg == "" {
				msg = "failed"
			}
		}
	}()
	f()
	return ""
}

func trimStack(b []byte) string {
	lines := strings.Split(string(bytes.TrimSpace(b)), "\n")
	out := []string{}
	seenPanic := false
	for _, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			seenPanic = true
			out = out[:0]
			continue
		}
		if seenPanic {
			out = append(out, l)
		}
		if len(out) > 14 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// Case runs one case. f builds everything it needs itself, so it can be run again.
// Returns false if the case failed with a known finding.
func (c *Ctx) Case(desc func() string, f func()) bool {
	c.caseNo++
	if c.caseNo&63 == 0 && time.Now().After(c.deadline) {
		c.st.Truncated = true
		panic(stopTask{})
	}
	if c.journal != nil {
		c.journal.Truncate(0)
		c.journal.Seek(0, 0)
		fmt.Fprintf(c.journal, "%d\n%s", c.caseNo, desc())
	}
	caseNum.Store(c.caseNo)
	caseDesc.Store(&desc)
	caseStart.Store(time.Now().UnixNano())
	msg := runGuarded(f)
	caseStart.Store(0)
	if msg == "" {
		if n := c.caseNo; len(c.st.Samples) < 2 && (n == 1 || n == 97) {
			c.st.Samples = append(c.st.Samples, c.task+": "+clip(desc(), 600))
		}
		return true
	}
	// Confirm: the case must fail again when run on its own
	again := 0
	for i := 0; i < 5; i++ {
		if runGuarded(f) != "" {
			again++
		}
	}
	if again == 0 {
		fmt.Fprintf(os.Stderr, "note: %s case %d failed once and then passed 5 times: %s\n", c.task, c.caseNo, msg)
		return true
	}
	v := &Violation{Prop: c.propID, Tier: c.tier, Task: c.task, Case: c.caseNo, Desc: desc(), Msg: msg}
	if what := c.isKnown(v); what != "" {
		c.addKnown(what)
		return false
	}
	c.viol = v
	panic(stopTask{})
}

func (c *Ctx) addKnown(what string) {
	for _, k := range c.st.Known {
		if k == what {
			return
		}
	}
	c.st.Known = append(c.st.Known, what)
}

func (c *Ctx) isKnown(v *Violation) string {
	for _, k := range c.known {
		if k.Property == v.Prop && k.Contains != "" && strings.Contains(v.Task+"\n"+v.Desc+"\n"+v.Msg, k.Contains) {
			return k.What
		}
	}
	return ""
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// runTask runs the task to completion, a violation, or the deadline.
func (c *Ctx) runTask(t Task) {
	c.task = t.Name
	name := t.Name
	curTask.Store(&name)
	defer func() {
		mapDisarm()
		mapDefault(0)
		if r := recover(); r != nil {
			if _, ok := r.(stopTask); ok {
				return
			}
			if f, ok := r.(failure); ok {
				c.viol = &Violation{Prop: c.propID, Tier: c.tier, Task: c.task, Case: c.caseNo, Desc: "outside of a case", Msg: f.msg}
				return
			}
			c.viol = &Violation{Prop: c.propID, Tier: c.tier, Task: c.task, Case: c.caseNo, Desc: "outside of a case",
				Msg: fmt.Sprintf("unexpected panic: %v\n%s", r, trimStack(debug.Stack()))}
		}
	}()
	mapDisarm()
	mapDefault(0)
	t.Run(c)
}

// panics returns whether f panics.
func panics(f func()) (p bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(failure); ok {
				panic(r)
			}
			p = true
		}
	}()
	f()
	return false
}

func js(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprintf("%+v", v)
	}
	return string(b)
}
