package ctngverif

// P08: every new statement, fragment and proof is passed on to every peer
// exactly once, whatever is delivered how often; nothing else is sent.

import (
	"encoding/json"
	"fmt"
	"sync"
	"testing"
	"time"

	"github.com/jik18001/CTngV2/definition"
	"github.com/jik18001/CTngV2/gossiper"
	"pgregory.net/rapid"
)

func TestP08Forward(t *testing.T) {
	slots(t, 1, 0, 0, 0)
	check(t, 500, func(rt *rapid.T, c *Case) {
		gw := gweights{events: 20, forge: 12, horizon: rapid.SampledFrom([]int{12, 38, 38, 130}).Draw(rt, "horizon"), stmt: 8, frag: 8, acc: 1, con: 1, equiv: 10, stray: 10, dup: 45}
		g := drawGossiperCase(rt, gw)
		c.Describe("%v", g)
		m := g.model()
		for k := range m.stat {
			class("happened: " + k)
		}
		if m.stat["duplicate"]+m.stat["fragment not needed"] > 0 {
			c.NonTrivial(g.String())
		}
		r := g.run(t, c, scratch(), nil)
		g.compare(c, r.sends, m.sends, true, "INIT", "FRAG", "OWNFRAG", "CON", "FULL", "?")
	})
}

// The same object from many peers at once is passed on once.
func TestP08Concurrent(t *testing.T) {
	slots(t, 1, 0, 0, 0)
	check(t, 350, func(rt *rapid.T, c *Case) {
		w := drawWorld(rt, 2, 5, 2, 2)
		minute := rapid.IntRange(0, 59).Draw(rt, "minute")
		copies := map[string]int{}
		evs := []gev{}
		for e := range w.entities() {
			k := rapid.IntRange(0, 5).Draw(rt, "copies")
			o := w.make2(e, minute, 0)
			copies[sendKey(o)] = k
			for i := 0; i < k; i++ {
				evs = append(evs, gev{obj: o})
			}
			if e < len(w.L) {
				k = rapid.IntRange(0, 3).Draw(rt, "fragments")
				f := w.frag(w.G[1], o)
				copies[sendKey(f)] = k
				for i := 0; i < k; i++ {
					evs = append(evs, gev{obj: f})
				}
			}
		}
		evs = rapid.Permutation(evs).Draw(rt, "order")
		c.Describe("copies at once: %v", copies)
		c.NonTrivial(fmt.Sprint(copies))
		dir := scratch()
		bubble(t, c, minute, 3, func() {
			n := newNet(c)
			n.gossiper(w, 0, 30, dir)
			n.hosts[w.M[0]] = sink
			for _, x := range w.G[1:] {
				n.hosts[x] = sink
			}
			var wg sync.WaitGroup
			gate := make(chan bool)
			for _, e := range evs {
				body, path := js(e.obj), pathOf[e.obj.Type]
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-gate
					n.post(w.G[0], path, body)
				}()
			}
			close(gate)
			wg.Wait()
			time.Sleep(time.Second)
			got := map[string]int{}
			for _, m := range n.sent(func(m *Msg) bool { return m.Src == w.G[0] }) {
				got[m.Dst+" "+noteKey(m)]++
			}
			for _, p := range w.G[1:] {
				for k, n := range copies {
					want := min(n, 1)
					if got[p+" "+k] != want {
						c.Errorf("%s was delivered %d times and passed on to %s %d times", k, n, p, got[p+" "+k])
					}
				}
			}
		})
	})
}

// Revocations are announced: who announces one that is not known gets a
// request, and who requests one that is known gets it, nobody else gets anything.
func TestP08Pull(t *testing.T) {
	slots(t, 1, 0, 0, 0)
	check(t, 300, func(rt *rapid.T, c *Case) {
		w := newWorld(rapid.IntRange(0, 3).Draw(rt, "naming"), rapid.IntRange(2, 4).Draw(rt, "n"), 1, 2, 2)
		minute := rapid.OneOf(rapid.IntRange(0, 59), rapid.SampledFrom([]int{59, 0})).Draw(rt, "minute")
		type step struct {
			what    string
			e, p, v int
			from    string
		}
		steps := []step{}
		for i, k := 0, rapid.IntRange(1, 12).Draw(rt, "steps"); i < k; i++ {
			steps = append(steps, step{rapid.SampledFrom([]string{"deliver", "deliver", "forged", "announce", "announce", "request", "request", "reset"}).Draw(rt, "what"),
				1 + rapid.IntRange(0, 1).Draw(rt, "ca"), rapid.SampledFrom([]int{0, 0, 0, 1, -1}).Draw(rt, "period"), rapid.SampledFrom([]int{0, 0, 0, 1}).Draw(rt, "version"),
				rapid.SampledFrom(w.G[1:]).Draw(rt, "from")})
		}
		c.Describe("minute %d, %d gossipers: %v", minute, len(w.G), steps)
		c.NonTrivial(fmt.Sprint(minute, len(w.G), steps))
		dir := scratch()
		bubble(t, c, minute, 0, func() {
			n := newNet(c)
			ctx := n.gossiper(w, 0, 10, dir)
			n.hosts[w.M[0]] = sink
			for _, x := range w.G[1:] {
				n.hosts[x] = sink
			}
			pay := map[string]definition.Gossip_object{}
			for i, s := range steps {
				o := w.make2(s.e, minute+s.p, s.v)
				k := o.Payload[0] + o.Period
				before := len(n.sent(func(m *Msg) bool { return true }))
				want := "" // receiver and path of the only message
				var body definition.Gossip_object
				switch s.what {
				case "deliver":
					n.post(w.G[0], "/gossip/rev_init", js(o))
					pay[k] = o
				case "forged":
					o = w.make2(s.e, minute+s.p, s.v+2)
					o.Signature = w.make2(s.e, minute+s.p, s.v).Signature
					n.post(w.G[0], "/gossip/rev_init", js(o))
				case "reset":
					ctx.WipeStorage()
					pay = map[string]definition.Gossip_object{}
				default:
					note := gossiper.Gossip_Notification{Sender: s.from, Period: o.Period, Type: o.Type, Entity_URL: o.Payload[0], Objhash: gossiper.ComputeobjHash(o)}
					known, ok := pay[k]
					if s.what == "announce" {
						n.post(w.G[0], "/gossip/new_payload_notification", js(note))
						if !ok || msgOf(known) != msgOf(o) {
							want = s.from + "/gossip/new_payload_request"
						}
					} else {
						n.post(w.G[0], "/gossip/new_payload_request", js(note))
						if ok {
							want, body = s.from+"/gossip/rev_init", known
						}
					}
					class(fmt.Sprintf("%s known=%v", s.what, ok))
				}
				time.Sleep(100 * time.Millisecond)
				if s.what != "announce" && s.what != "request" {
					continue
				}
				got := ""
				for _, m := range n.sent(func(m *Msg) bool { return true })[before:] {
					if m.Src != w.G[0] {
						continue
					}
					got += m.Dst + m.Path
					if s.what == "announce" {
						var r gossiper.Gossip_Notification
						json.Unmarshal(m.Body, &r)
						if r.Sender != w.G[0] || r.Period != o.Period || r.Entity_URL != o.Payload[0] {
							c.Errorf("step %d: the request names sender %s, entity %s, period %s", i, r.Sender, r.Entity_URL, r.Period)
						}
					} else if x := objOf(m); msgOf(x) != msgOf(body) || x.Signature != body.Signature || x.Period != body.Period || x.Signer != body.Signer || x.Type != body.Type {
						c.Errorf("step %d: another object than the one that was requested is delivered: %s", i, m.Body)
					}
				}
				if got != want {
					c.Errorf("step %d %v: the gossiper sends %q, has to send %q", i, s, got, want)
				}
			}
		})
	})
}
