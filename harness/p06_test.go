package ctngverif

// P06: a statement becomes certified when, and only when, a threshold of valid
// fragments of different gossipers on it has arrived, exactly once.

import (
	"fmt"
	"sync"
	"testing"
	"time"

	"github.com/jik18001/CTngV2/definition"
	"pgregory.net/rapid"
)

func TestP06Aggregation(t *testing.T) {
	slots(t, 1, 0, 0, 0)
	check(t, 450, func(rt *rapid.T, c *Case) {
		gw := gweights{events: 24, forge: 12, horizon: rapid.SampledFrom([]int{12, 38, 38, 130}).Draw(rt, "horizon"), stmt: 5, frag: 14, acc: 2, con: 0, equiv: 8, stray: 5, dup: 20,
			fullfrag: rapid.Bool().Draw(rt, "payload")}
		if percent(rt, "rivals", 30) { // fragments on rival statements only
			gw.stmt, gw.acc, gw.equiv, gw.stray = 0, 0, 60, 0
		}
		g := drawGossiperCase(rt, gw)
		c.Describe("%v", g)
		m := g.model()
		for k := range m.stat {
			class("happened: " + k)
		}
		if m.stat["certified"] > 0 {
			c.NonTrivial(g.String())
		}
		r := g.run(t, c, scratch(), nil)
		g.compare(c, r.sends, m.sends, true, "FULL", "?")
	})
}

// All fragments of a statement at once, among them invalid and repeated ones and some on another statement.
func TestP06Concurrent(t *testing.T) {
	slots(t, 1, 0, 0, 0)
	check(t, 400, func(rt *rapid.T, c *Case) {
		w := drawWorld(rt, 2, 6, 1, 1)
		minute := rapid.IntRange(0, 59).Draw(rt, "minute")
		kind := rapid.SampledFrom([]string{"STH", "ACC", "REV"}).Draw(rt, "kind")
		var o, other definition.Gossip_object
		switch kind {
		case "STH":
			o, other = w.make2(0, minute, 0), w.make2(0, minute, 1)
		case "REV":
			o, other = w.make2(1, minute, 0), w.make2(1, minute, 1)
		default:
			o, other = w.acc(w.M[0], w.L[0], minute), w.acc(w.M[0], w.C[0], minute)
		}
		type item struct {
			f    definition.Gossip_object
			desc string
		}
		items := []item{}
		good := map[string]bool{}
		for i, k := 0, rapid.IntRange(1, len(w.G)+4).Draw(rt, "fragments"); i < k; i++ {
			g := w.G[rapid.IntRange(0, len(w.G)-1).Draw(rt, "signer")]
			f := w.frag(g, o)
			how := rapid.SampledFrom([]string{"good", "good", "good", "good", "wrong key", "other statement", "garbled"}).Draw(rt, "how")
			switch how {
			case "good":
				good[g] = true
			case "wrong key":
				f.Signature[0] = fragSigString(w.bls[w.G[(i+1)%len(w.G)]].Sign(msgOf(o)+"x"), g)
			case "other statement":
				if kind == "ACC" { // a genuine one, about the other entity
					f = w.frag(g, other)
				} else {
					f.Signature = w.frag(g, other).Signature
				}
			case "garbled":
				f.Signature[0] = f.Signature[0][:len(f.Signature[0])/2]
			}
			items = append(items, item{f, g + " " + how})
		}
		atOnce := rapid.Bool().Draw(rt, "at once")
		want := len(good) >= w.T
		desc := ""
		for _, i := range items {
			desc += i.desc + "; "
		}
		c.Describe("%s, T=%d, at once=%v: %s", kind, w.T, atOnce, desc)
		c.NonTrivial(fmt.Sprint(kind, w.T, atOnce, desc))
		class(fmt.Sprintf("concurrent %s certified=%v", kind, want))
		dir := scratch()
		bubble(t, c, minute, 3, func() {
			n := newNet(c)
			n.gossiper(w, 0, 30, dir)
			n.hosts[w.M[0]] = sink
			for _, x := range w.G[1:] {
				n.hosts[x] = sink
			}
			if kind == "REV" {
				n.post(w.G[0], pathOf[o.Type], js(o))
			}
			var wg sync.WaitGroup
			gate := make(chan bool)
			for _, i := range items {
				body, path := js(i.f), pathOf[i.f.Type]
				if !atOnce {
					n.post(w.G[0], path, body)
					continue
				}
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-gate
					n.post(w.G[0], path, body)
				}()
			}
			close(gate)
			wg.Wait()
			time.Sleep(time.Second)
			full := o
			full.Type = fullOf[o.Type]
			got := n.sent(func(m *Msg) bool {
				return m.Src == w.G[0] && m.Dst == w.M[0] && keyOfBody(m) == sendKey(full)
			})
			if want && len(got) != 1 || !want && len(got) != 0 {
				c.Errorf("%d of %d needed gossipers signed, the monitor got %d certified objects", len(good), w.T, len(got))
			}
			for _, m := range got {
				if ok, why := w.authentic(objOf(m)); !ok {
					c.Errorf("the certified object %s: %s", why, m.Body)
				}
			}
		})
	})
}
