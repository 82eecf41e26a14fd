package c21

import (
	"fmt"
	"strings"
	"testing"

	"github.com/clipperhouse/jargon"
	"github.com/clipperhouse/jargon/tokenqueue"
	"pgregory.net/rapid"
	"verif/harness/rt"
)

type op struct {
	Op string
	Q  int // which queue
	To int // the other
	N  int
}

type history struct {
	Ops []op
}

const queues = 3

func check(c history, info *rt.Info) error {
	var qs [queues]*tokenqueue.TokenQueue
	var model [queues][]*jargon.Token
	for i := range qs {
		qs[i] = tokenqueue.New()
	}
	serial := 0
	fresh := func(n int) []*jargon.Token {
		var ts []*jargon.Token
		for i := 0; i < n; i++ {
			ts = append(ts, jargon.NewToken(fmt.Sprintf("t%d", serial), false))
			serial++
		}
		return ts
	}
	moves, maxlen := 0, 0
	for i, o := range c.Ops {
		q, to := o.Q%queues, o.To%queues
		n := o.N
		fail := func(format string, args ...interface{}) error {
			return fmt.Errorf("step %d (%s, queue %d): %s", i, o.Op, q, fmt.Sprintf(format, args...))
		}
		switch o.Op {
		case "new":
			ts := fresh(n)
			qs[q] = tokenqueue.New(append([]*jargon.Token(nil), ts...)...)
			model[q] = ts
		case "push":
			ts := fresh(n)
			qs[q].Push(ts...)
			model[q] = append(model[q][:len(model[q]):len(model[q])], ts...)
		case "pushboth":
			// the caller's slice is not the queue's
			ts := fresh(n)
			qs[q].Push(ts...)
			model[q] = append(model[q][:len(model[q]):len(model[q])], ts...)
			qs[to].Push(ts...)
			model[to] = append(model[to][:len(model[to]):len(model[to])], ts...)
		case "newboth":
			ts := fresh(n)
			qs[q] = tokenqueue.New(ts...)
			model[q] = append([]*jargon.Token(nil), ts...)
			qs[to] = tokenqueue.New(ts...)
			model[to] = append([]*jargon.Token(nil), ts...)
		case "pop":
			if len(model[q]) == 0 {
				continue
			}
			got := qs[q].Pop()
			if got != model[q][0] {
				return fail("popped %v, expected %v", got, model[q][0])
			}
			model[q] = model[q][1:]
		case "drop":
			if n > len(model[q]) {
				n = len(model[q])
			}
			qs[q].Drop(n)
			model[q] = model[q][n:]
		case "clear":
			qs[q].Clear()
			model[q] = nil
		case "popto":
			if len(model[q]) == 0 || q == to {
				continue
			}
			qs[q].PopTo(qs[to])
			model[to] = append(model[to][:len(model[to]):len(model[to])], model[q][0])
			model[q] = model[q][1:]
			moves++
		case "flushto":
			if q == to {
				continue
			}
			if len(model[q]) > 0 {
				moves++
			}
			qs[q].FlushTo(qs[to])
			model[to] = append(model[to][:len(model[to]):len(model[to])], model[q]...)
			model[q] = nil
		}
		for j := range qs {
			if qs[j].Len() != len(model[j]) || qs[j].Any() != (len(model[j]) > 0) {
				return fail("queue %d has Len %d, Any %t, expected %d", j, qs[j].Len(), qs[j].Any(), len(model[j]))
			}
			var quoted []string
			for _, t := range model[j] {
				quoted = append(quoted, fmt.Sprintf("%q", t.String()))
			}
			if got, want := qs[j].String(), "["+strings.Join(quoted, " ")+"]"; got != want {
				return fail("queue %d: String is %s, expected %s", j, got, want)
			}
			if len(model[j]) > maxlen {
				maxlen = len(model[j])
			}
		}
	}
	// Not only the same texts, but the same tokens
	for j := range qs {
		for k, t := range model[j] {
			if !qs[j].Any() {
				return fmt.Errorf("at the end, queue %d has only %d tokens, expected %d", j, k, len(model[j]))
			}
			if got := qs[j].Pop(); got != t {
				return fmt.Errorf("at the end, queue %d has %v at %d, expected %v", j, got, k, t)
			}
		}
		if qs[j].Any() || qs[j].Len() != 0 {
			return fmt.Errorf("at the end, queue %d has %d more tokens", j, qs[j].Len())
		}
	}
	info.NonTrivial = moves >= 1 && maxlen >= 3
	info.LabelIf(maxlen >= 8, "8 or more in a queue")
	return nil
}

func Test(t *testing.T) {
	rt.Main(t, "C21",
		rt.P[history]{
			Name:  "history",
			Rule:  "sequences of up to 40 operations (new, push, the same slice to two queues, pop, drop, clear, pop to, flush to) on 3 queues, against 3 lists, all of which are compared after every step (their texts, which are unique), and emptied at the end; non-trivial: tokens moved between queues, and some queue had at least 3",
			Quick: 800000, Thorough: 10000000,
			Gen: func(t *rapid.T) history {
				var c history
				for i := rapid.IntRange(1, 40).Draw(t, "steps"); i > 0; i-- {
					o := op{
						Op: rapid.SampledFrom([]string{"push", "push", "push", "pop", "pop", "drop", "popto", "popto", "flushto", "flushto", "clear", "new", "pushboth", "newboth"}).Draw(t, "op"),
						Q:  rapid.IntRange(0, queues-1).Draw(t, "q"),
					}
					switch o.Op {
					case "push", "drop", "new":
						o.N = rapid.IntRange(0, 5).Draw(t, "n")
					case "popto", "flushto", "pushboth", "newboth":
						o.To = rapid.IntRange(0, queues-1).Draw(t, "to")
					}
					if o.Op == "pushboth" || o.Op == "newboth" {
						o.N = rapid.IntRange(0, 5).Draw(t, "n")
					}
					c.Ops = append(c.Ops, o)
				}
				return c
			},
			Check: check,
		},
		rt.P[history]{
			Name:  "long",
			Rule:  "the same, with up to 120 operations, and up to 700 tokens pushed or dropped at once; non-trivial: tokens moved between queues, and some queue had at least 3",
			Quick: 3200, Thorough: 60000,
			Gen: func(t *rapid.T) history {
				var c history
				for i := rapid.IntRange(1, 120).Draw(t, "steps"); i > 0; i-- {
					o := op{
						Op: rapid.SampledFrom([]string{"push", "push", "pop", "pop", "pop", "drop", "popto", "popto", "popto", "flushto", "flushto", "clear", "new", "pushboth", "newboth"}).Draw(t, "op"),
						Q:  rapid.IntRange(0, queues-1).Draw(t, "q"),
						To: rapid.IntRange(0, queues-1).Draw(t, "to"),
					}
					switch o.Op {
					case "push", "drop", "new", "pushboth", "newboth":
						o.N = rapid.SampledFrom([]int{0, 1, 2, 7, 16, 33, 64, 100, 257, 700}).Draw(t, "n")
					}
					c.Ops = append(c.Ops, o)
				}
				return c
			},
			Check: check,
		},
		rt.P[history]{
			Name:  "large",
			Rule:  "the same, with up to 30 operations, and up to 20000 tokens pushed or dropped at once; non-trivial: tokens moved between queues, and some queue had at least 3",
			Quick: 160, Thorough: 2400,
			Gen: func(t *rapid.T) history {
				var c history
				for i := rapid.IntRange(2, 30).Draw(t, "steps"); i > 0; i-- {
					o := op{
						Op: rapid.SampledFrom([]string{"push", "push", "pop", "drop", "drop", "popto", "flushto", "flushto", "new", "pushboth", "newboth"}).Draw(t, "op"),
						Q:  rapid.IntRange(0, queues-1).Draw(t, "q"),
						To: rapid.IntRange(0, queues-1).Draw(t, "to"),
					}
					switch o.Op {
					case "push", "drop", "new", "pushboth", "newboth":
						o.N = rapid.SampledFrom([]int{0, 1, 7, 100, 1000, 1024, 1025, 3000, 4096, 4097, 8200, 20000}).Draw(t, "n")
					}
					c.Ops = append(c.Ops, o)
				}
				return c
			},
			Check: check,
		},
	)
}
