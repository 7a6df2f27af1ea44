package harness

import (
	"context"
	"errors"
	"fmt"
	"sort"
	"sync"
	"testing/synctest"
	"time"

	"github.com/milosgajdos/netscrape/pkg/broker"
	membroker "github.com/milosgajdos/netscrape/pkg/broker/memory"
	"pgregory.net/rapid"
)

// Here messages come, slots become free and contexts end at the very instant
// at which timeouts are over. What then happens to each call is up to the
// broker, but it has to be one of two things, and the messages have to add up:
// a receive that times out takes at most one of them with it.

func init() {
	const d = "rounds in virtual time in which up to six receives of one timeout wait, and up to eight messages are published on that topic before, at and after the very instant the timeouts are over; each call handles a message or times out at that instant, and what was published and not handled is taken afterwards, but for at most one message for each receive that timed out; non-trivial: a message was published at the instant a receive timed out"
	register("B01", Part("at the timeout", 4000, 80000, d, genAtTO, runAtTO))
	register("B07",
		Part("at the timeout", 4000, 80000, d, genAtTO, runAtTO),
		Part("slot at the timeout", 4000, 80000, "rounds in virtual time in which up to six publishes of one timeout wait on a full topic, and up to eight receives come before, at and after the very instant the timeouts are over; each publish succeeds or times out, at the instant that fits, and the messages whose publish succeeded are taken once each, no others are; non-trivial: a receive came at the instant a publish timed out", genAtTO, runSlotTO))
}

// ATCase is a case of rounds: those who wait, and those who come.
type ATCase struct {
	Cap    int       `json:"cap"`
	TO     int       `json:"to"` // milliseconds; 0: the default
	Rounds []ATRound `json:"rounds"`
	// Seq: all are published by one goroutine, one after the other
	Seq bool `json:"seq,omitempty"`
}

// ATRound is one round: how many wait, and when the others come, relative to
// the timeout.
type ATRound struct {
	Wait  int   `json:"wait"`
	Subs  int   `json:"subs"`
	Comes []int `json:"comes"`
}

func genAtTO(t *rapid.T) ATCase {
	c := ATCase{Cap: rapid.SampledFrom([]int{0, 1, 1, 2, 3, 5, 8, 100}).Draw(t, "cap"), TO: rapid.SampledFrom([]int{0, 1, 2, 10, 700, 5000, 9000}).Draw(t, "to")}
	c.Seq = rapid.Bool().Draw(t, "seq")
	c.Rounds = drawList(t, "rounds", 1, 5, func(t *rapid.T) ATRound {
		return ATRound{Wait: rapid.IntRange(1, 6).Draw(t, "wait"), Subs: rapid.IntRange(1, 3).Draw(t, "subs"),
			Comes: drawList(t, "comes", 0, 8, func(t *rapid.T) int {
				return rapid.SampledFrom([]int{0, 0, 0, 0, 0, 0, -2, -1, 1, 2}).Draw(t, "when")
			})}
	})
	return c
}

func (c *ATCase) timeout() time.Duration {
	if c.TO == 0 {
		return defTO
	}
	return time.Duration(c.TO) * time.Millisecond
}

type atCall struct {
	start, end time.Duration
	due        time.Duration
	err        error
	got        []string
	msg        string
}

func runAtTO(c ATCase, r *R) error {
	return bubble(r, func() error {
		base := time.Now()
		now := func() time.Duration { return time.Since(base) }
		b, err := membroker.New(broker.WithCap(c.Cap))
		if err != nil {
			return err
		}
		if err := b.Open(bg); err != nil {
			return err
		}
		defer func() {
			_ = b.Close()
			time.Sleep(1000 * time.Hour)
		}()
		to := c.timeout()
		var opts []broker.Option
		if c.TO > 0 {
			opts = append(opts, broker.WithSubTimeout(to))
		}
		subs := make([]broker.Subscriber, 3)
		for i := range subs {
			if subs[i], err = b.Sub(bg, "t"); err != nil {
				return err
			}
		}
		published, handled := map[string]bool{}, map[string]int{}
		queued, timeouts, together, n := 0, 0, 0, 0
		for _, rd := range c.Rounds {
			time.Sleep(time.Minute)
			synctest.Wait()
			// receives wait only on a topic with nothing on it
			left, err := drainTopic(b, "t", handled)
			if err == nil && c.Seq {
				err = inOrder(left)
			}
			if err != nil {
				return err
			}
			queued += len(left)
			var recvs, pubs []*atCall
			var wg sync.WaitGroup
			for i := 0; i < rd.Wait; i++ {
				x := &atCall{due: now() + to}
				recvs = append(recvs, x)
				s := subs[i%rd.Subs]
				wg.Add(1)
				go func() {
					defer wg.Done()
					x.err = safely(func() error {
						return s.Receive(bg, func(_ context.Context, m broker.Message) error {
							x.got = append(x.got, m.UID)
							return nil
						}, opts...)
					})
					x.end = now()
				}()
			}
			var flow [][]*atCall
			for _, w := range rd.Comes {
				n++
				x := &atCall{msg: fmt.Sprintf("m%d", n), start: to + time.Duration(w)*time.Nanosecond}
				pubs = append(pubs, x)
				flow = append(flow, []*atCall{x})
			}
			if c.Seq && len(pubs) > 0 {
				// messages are numbered in the order they are published
				sort.SliceStable(pubs, func(i, j int) bool { return pubs[i].start < pubs[j].start })
				for i, x := range pubs {
					x.msg = fmt.Sprintf("m%d", n-len(pubs)+1+i)
				}
				flow = [][]*atCall{pubs}
			}
			began := now()
			for _, f := range flow {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for _, x := range f {
						time.Sleep(began + x.start - now())
						x.start = now()
						x.err = safely(func() error {
							return b.Pub(bg, "t", broker.Message{UID: x.msg}, broker.WithPubTimeout(time.Second))
						})
						x.end = now()
					}
				}()
			}
			time.Sleep(to + 12*time.Second)
			synctest.Wait()
			over := 0
			for i, x := range recvs {
				switch {
				case x.end == 0:
					return fmt.Errorf("a receive that waits from %v with a timeout of %v has not returned at %v", x.due-to, to, now())
				case len(x.got) > 1:
					return fmt.Errorf("a receive handled %v", x.got)
				case len(x.got) == 1 && x.err != nil:
					return fmt.Errorf("a receive handled %s and returned %v", x.got[0], x.err)
				case len(x.got) == 1:
					handled[x.got[0]]++
					if x.end > x.due {
						return fmt.Errorf("a receive whose timeout was over at %v handled %s at %v", x.due, x.got[0], x.end)
					}
				case !errors.Is(x.err, broker.ErrTimeout):
					return fmt.Errorf("receive %d without a message returned %v", i, x.err)
				case x.end != x.due:
					return fmt.Errorf("a receive whose timeout was over at %v failed with the timeout error at %v", x.due, x.end)
				default:
					over++
				}
			}
			timeouts += over
			for _, p := range pubs {
				switch {
				case p.end == 0:
					return fmt.Errorf("the publish of %s at %v has not returned at %v", p.msg, p.start, now())
				case p.err == nil:
					published[p.msg] = true
				case !errors.Is(p.err, broker.ErrTimeout) || p.end != p.start+time.Second:
					return fmt.Errorf("the publish of %s at %v failed at %v: %v", p.msg, p.start, p.end, p.err)
				}
				if over > 0 && p.start == recvs[0].due {
					together++
				}
			}
		}
		time.Sleep(time.Minute)
		left, err := drainTopic(b, "t", handled)
		if err == nil && c.Seq {
			err = inOrder(left)
		}
		if err != nil {
			return err
		}
		lost := 0
		for m := range published {
			if handled[m] == 0 {
				lost++
			}
		}
		for m, k := range handled {
			if k > 1 {
				return fmt.Errorf("%s was handled %d times", m, k)
			}
			if !published[m] {
				return fmt.Errorf("%s was handled, but its publish failed", m)
			}
		}
		if lost > timeouts {
			return fmt.Errorf("%d of %d messages are lost, though only %d receives timed out", lost, len(published), timeouts)
		}
		if together > 0 {
			r.NonTrivial()
		}
		if lost > 0 {
			r.Label("a message was dropped")
		}
		if queued > 0 {
			r.Label("messages were left")
		}
		return nil
	})
}

// inOrder fails unless the messages, whose numbers say in which order they were
// published by one goroutine, are in that order.
func inOrder(l []string) error {
	last := 0
	for _, m := range l {
		n := 0
		if _, err := fmt.Sscanf(m, "m%d", &n); err != nil {
			return err
		}
		if n < last {
			return fmt.Errorf("messages published one after the other were left in the order %v", l)
		}
		last = n
	}
	return nil
}

// drainTopic takes all that is on a topic, at this instant, from a fresh
// subscription.
func drainTopic(b *membroker.Memory, topic string, handled map[string]int) ([]string, error) {
	s, err := b.Sub(bg, topic)
	if err != nil {
		return nil, fmt.Errorf("subscribing: %v", err)
	}
	var all []string
	for {
		before := len(all)
		err := s.Receive(bg, func(_ context.Context, m broker.Message) error {
			handled[m.UID]++
			all = append(all, m.UID)
			return nil
		}, broker.WithSubTimeout(time.Millisecond))
		if err != nil {
			if !errors.Is(err, broker.ErrTimeout) || len(all) != before {
				return all, fmt.Errorf("receiving what is left: %v", err)
			}
			break
		}
		if len(all) != before+1 {
			return all, fmt.Errorf("receiving what is left: no error, and %d messages", len(all)-before)
		}
	}
	if err := s.Unsubscribe(bg); err != nil {
		return all, err
	}
	return all, nil
}

func runSlotTO(c ATCase, r *R) error {
	return bubble(r, func() error {
		base := time.Now()
		now := func() time.Duration { return time.Since(base) }
		to := c.timeout()
		bopts := []broker.Option{broker.WithCap(c.Cap)}
		if c.TO > 0 {
			bopts = append(bopts, broker.WithPubTimeout(to))
		}
		b, err := membroker.New(bopts...)
		if err != nil {
			return err
		}
		if err := b.Open(bg); err != nil {
			return err
		}
		defer func() {
			_ = b.Close()
			time.Sleep(1000 * time.Hour)
		}()
		subs := make([]broker.Subscriber, 3)
		for i := range subs {
			if subs[i], err = b.Sub(bg, "t"); err != nil {
				return err
			}
		}
		published, handled := map[string]bool{}, map[string]int{}
		together, n := 0, 0
		for _, rd := range c.Rounds {
			time.Sleep(time.Minute)
			synctest.Wait()
			if _, err := drainTopic(b, "t", handled); err != nil {
				return err
			}
			for i := 0; i < c.Cap; i++ {
				n++
				m := fmt.Sprintf("m%d", n)
				if err := b.Pub(bg, "t", broker.Message{UID: m}); err != nil {
					return fmt.Errorf("publishing on a topic with %d of %d messages: %v", i, c.Cap, err)
				}
				published[m] = true
			}
			var recvs, pubs []*atCall
			for i := 0; i < rd.Wait; i++ {
				n++
				x := &atCall{msg: fmt.Sprintf("m%d", n), due: now() + to}
				pubs = append(pubs, x)
				go func() {
					x.err = safely(func() error { return b.Pub(bg, "t", broker.Message{UID: x.msg}) })
					x.end = now()
				}()
			}
			for i, w := range rd.Comes {
				x := &atCall{}
				recvs = append(recvs, x)
				at := to + time.Duration(w)*time.Nanosecond
				s := subs[i%rd.Subs]
				go func() {
					time.Sleep(at)
					x.start = now()
					x.err = safely(func() error {
						return s.Receive(bg, func(_ context.Context, m broker.Message) error {
							x.got = append(x.got, m.UID)
							return nil
						}, broker.WithSubTimeout(time.Second))
					})
					x.end = now()
				}()
			}
			time.Sleep(to + 3*time.Second)
			synctest.Wait()
			over := 0
			for _, p := range pubs {
				switch {
				case p.end == 0:
					return fmt.Errorf("a publish that waits from %v with a timeout of %v has not returned at %v", p.due-to, to, now())
				case p.err == nil && p.end > p.due:
					return fmt.Errorf("a publish whose timeout was over at %v went through at %v", p.due, p.end)
				case p.err == nil:
					published[p.msg] = true
				case !errors.Is(p.err, broker.ErrTimeout) || p.end != p.due:
					return fmt.Errorf("a publish whose timeout was over at %v failed at %v: %v", p.due, p.end, p.err)
				default:
					over++
				}
			}
			for _, x := range recvs {
				switch {
				case x.end == 0:
					return fmt.Errorf("a receive at %v with a timeout of one second has not returned at %v", x.start, now())
				case len(x.got) > 1 || len(x.got) == 1 && x.err != nil:
					return fmt.Errorf("a receive handled %v and returned %v", x.got, x.err)
				case len(x.got) == 1:
					handled[x.got[0]]++
				case !errors.Is(x.err, broker.ErrTimeout) || x.end != x.start+time.Second:
					return fmt.Errorf("a receive at %v failed at %v: %v", x.start, x.end, x.err)
				}
				if over > 0 && x.start == pubs[0].due {
					together++
				}
			}
			// nobody publishes when these time out: none is lost by that
		}
		time.Sleep(time.Minute)
		if _, err := drainTopic(b, "t", handled); err != nil {
			return err
		}
		for m := range published {
			if handled[m] != 1 {
				return fmt.Errorf("%s was published, and handled %d times", m, handled[m])
			}
		}
		for m := range handled {
			if !published[m] {
				return fmt.Errorf("%s was handled, but its publish failed", m)
			}
		}
		if together > 0 {
			r.NonTrivial()
		}
		return nil
	})
}
