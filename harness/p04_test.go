package ctngverif

// P04: a gossiper that sees two conflicting statements convicts their signer,
// for good, and tells everybody; nobody else is convicted.

import (
	"fmt"
	"sort"
	"sync"
	"testing"
	"time"

	"github.com/jik18001/CTngV2/definition"
	"pgregory.net/rapid"
)

func TestP04Detection(t *testing.T) {
	slots(t, 1, 0, 0, 0)
	check(t, 450, func(rt *rapid.T, c *Case) {
		g := drawGossiperCase(rt, gweights{events: 14, forge: 12, horizon: rapid.SampledFrom([]int{10, 38, 130}).Draw(rt, "horizon"), stmt: 10, frag: 2, acc: 1, con: 1, equiv: 35, stray: 15, dup: 15})
		c.Describe("%v", g)
		m := g.model()
		for k := range m.stat {
			class("happened: " + k)
		}
		if m.stat["conflict"] > 0 {
			c.NonTrivial(g.String())
		}
		r := g.run(t, c, scratch(), nil)
		g.compare(c, r.sends, m.sends, true, "CON", "?")
		for _, e := range g.w.entities() {
			_, want := m.black[e]
			if r.black[e] != want {
				c.Errorf("%s is listed as malicious: %v, has to be: %v (%s)", e, r.black[e], want, m.proof[e])
			}
		}
		// convicted entities: nothing of theirs is certified or endorsed after that
		for _, s := range r.sends {
			for e, at := range m.black {
				if (s.class == "FULL" || s.class == "OWNFRAG") && s.at > at && containsEntity(s.key, e) {
					c.Errorf("%s was convicted at %d ms, and at %d ms the gossiper sends %s", e, at, s.at, s.key)
				}
			}
		}
	})
}

func containsEntity(key, e string) bool {
	for i := 0; i+len(e) <= len(key); i++ {
		if key[i:i+len(e)] == e && (i+len(e) == len(key) || key[i+len(e)] == ' ') && (i == 0 || key[i-1] == ' ') {
			return true
		}
	}
	return false
}

// Conflicting statements, duplicates and fragments delivered at the same time by many senders.
func TestP04Concurrent(t *testing.T) {
	slots(t, 1, 0, 0, 0)
	check(t, 500, func(rt *rapid.T, c *Case) {
		w := drawWorld(rt, 2, 4, 2, 2)
		minute := rapid.IntRange(0, 59).Draw(rt, "minute")
		bodies := []gev{}
		versions := map[int]map[int]bool{}
		for e := range w.entities() {
			versions[e] = map[int]bool{}
			for k, n := 0, rapid.IntRange(0, 4).Draw(rt, "copies"); k < n; k++ {
				content := rapid.SampledFrom([]int{0, 0, 0, 1, 2, 3, 4}).Draw(rt, "content")
				versions[e][content] = true
				o := w.make2(e, minute, content)
				bodies = append(bodies, gev{obj: o, desc: fmt.Sprintf("%s#%d", short(o), content)})
			}
		}
		order := rapid.Permutation(bodies).Draw(rt, "order")
		conflicts := 0
		desc := ""
		for _, b := range order {
			desc += b.desc + " "
		}
		for _, v := range versions {
			if len(v) > 1 {
				conflicts++
			}
		}
		c.Describe("at once: %s", desc)
		if conflicts > 0 {
			c.NonTrivial(desc)
		}
		class(fmt.Sprintf("concurrent conflicts %d", conflicts))
		dir := scratch()
		bubble(t, c, minute, 3, func() {
			n := newNet(c)
			ctx := n.gossiper(w, 0, 5, dir)
			n.hosts[w.M[0]] = sink
			for _, x := range w.G[1:] {
				n.hosts[x] = sink
			}
			var wg sync.WaitGroup
			gate := make(chan bool)
			for _, b := range order {
				body, path := js(b.obj), pathOf[b.obj.Type]
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-gate
					n.post(w.G[0], path, body)
				}()
			}
			close(gate)
			wg.Wait()
			time.Sleep(8 * time.Second)
			for e, id := range w.entities() {
				want := len(versions[e]) > 1
				if ctx.InBlacklistPerm(id) != want {
					c.Errorf("%s signed %d different statements, listed as malicious: %v", id, len(versions[e]), !want)
				}
				for _, dst := range append(cp(w.G[1:]), w.M[0]) {
					told := len(n.sent(func(m *Msg) bool {
						return m.Src == w.G[0] && m.Dst == dst && keyOfBody(m) == "CON_INIT "+id
					})) > 0
					if told != want {
						c.Errorf("%s signed %d different statements, %s gets a proof: %v", id, len(versions[e]), dst, told)
					}
				}
			}
		})
	})
}

// The conflicting statement arrives late: after none, some or enough fragments
// of the first one, before or after the own fragment, while others are also underway.
func TestP04Late(t *testing.T) {
	slots(t, 1, 0, 0, 0)
	check(t, 250, func(rt *rapid.T, c *Case) {
		w := drawWorld(rt, 2, 5, 2, 2)
		g := &gcase{w: w, wait: rapid.IntRange(1, 10).Draw(rt, "wait"), minute: rapid.IntRange(0, 59).Draw(rt, "minute"), down: map[string]bool{}}
		seq := 0
		add := func(at int, o definition.Gossip_object) {
			seq++
			g.evs = append(g.evs, gev{at: at*100 + seq, obj: o, desc: short(o)})
		}
		for _, e := range rapid.SliceOfNDistinct(rapid.IntRange(0, len(w.entities())-1), 1, 3, rapid.ID[int]).Draw(rt, "entities") {
			first := rapid.IntRange(0, 100).Draw(rt, "first")
			o := w.make2(e, g.minute, 0)
			add(first, o)
			least, conflict := 0, 0
			if percent(rt, "certified", 60) {
				least, conflict = len(w.G)-1, 120
			}
			for _, i := range rapid.SliceOfNDistinct(rapid.IntRange(1, len(w.G)-1), least, len(w.G)-1, rapid.ID[int]).Draw(rt, "fragments of") {
				f := w.frag(w.G[i], o)
				if f.Type == definition.REV_FRAG {
					f.Payload[1], f.Payload[2] = "", ""
				}
				add(first+rapid.IntRange(0, 120).Draw(rt, "later"), f)
			}
			if percent(rt, "accused", 15) {
				add(first+rapid.IntRange(0, 150).Draw(rt, "then"), w.acc(w.M[0], w.entities()[e], g.minute))
			}
			for k := pick(rt, "conflicts", 1, 5, 2); k > 0; k-- {
				add(first+rapid.IntRange(conflict, 280).Draw(rt, "then"), w.make2(e, g.minute, rapid.IntRange(0, 4).Draw(rt, "content")))
			}
		}
		sort.SliceStable(g.evs, func(i, j int) bool { return g.evs[i].at < g.evs[j].at })
		c.Describe("%v", g)
		m := g.model()
		for k := range m.stat {
			class("late: " + k)
		}
		if m.stat["conflict"] > 0 && m.stat["certified"] > 0 {
			class("late: conflict and certificate in one history")
			c.NonTrivial(g.String())
		}
		r := g.run(t, c, scratch(), nil)
		g.compare(c, r.sends, m.sends, true, "CON", "?")
		for _, e := range g.w.entities() {
			_, want := m.black[e]
			if r.black[e] != want {
				c.Errorf("%s is listed as malicious: %v, has to be: %v (%s)", e, r.black[e], want, m.proof[e])
			}
		}
	})
}
