package ctngverif

// P07: gossip converges. In a connected network of gossipers with delays,
// duplicates and unreachable members, what one correct gossiper learns all
// learn, and a threshold of correct gossipers certifies it at every one.

import (
	"fmt"
	"strings"
	"testing"
	"time"

	"github.com/jik18001/CTngV2/definition"
	"github.com/jik18001/CTngV2/gossiper"
	"pgregory.net/rapid"
)

type delivery struct {
	at, to int
	obj    definition.Gossip_object
}

func TestP07Converge(t *testing.T) {
	slots(t, 6, 0, 0, 0)
	check(t, 75, func(rt *rapid.T, c *Case) {
		n := rapid.IntRange(2, 6).Draw(rt, "gossipers")
		down := rapid.IntRange(0, min(2, n-2)).Draw(rt, "down")
		live := n - down
		T := rapid.IntRange(2, live).Draw(rt, "threshold")
		w := newWorld(rapid.IntRange(0, 3).Draw(rt, "naming"), n, 2, 2, T)
		minute := rapid.OneOf(rapid.IntRange(0, 59), rapid.SampledFrom([]int{0, 59})).Draw(rt, "minute")
		wait := rapid.IntRange(4, 9).Draw(rt, "wait")
		// a connected graph of the live gossipers: a random tree and some more edges; the dead ones hang on anywhere
		adj := make([]map[int]bool, n)
		for i := range adj {
			adj[i] = map[int]bool{}
		}
		mesh := rapid.Bool().Draw(rt, "mesh")
		for i := 1; i < live; i++ {
			j := rapid.IntRange(0, i-1).Draw(rt, "parent")
			adj[i][j], adj[j][i] = true, true
		}
		for i := 0; i < n; i++ {
			for j := 0; j < i; j++ {
				if mesh || i >= live || rapid.IntRange(0, 3).Draw(rt, "edge") == 0 {
					adj[i][j], adj[j][i] = true, true
				}
			}
		}
		maxDelay := max(1, (wait*1000-1000)/(4*live+1)) // a statement with its payload, and a proof after it, cross the network within the waiting time
		delays := rapid.SliceOfN(rapid.IntRange(0, maxDelay), 8, 40).Draw(rt, "delays")
		dups := rapid.SliceOfN(rapid.IntRange(0, 9), 5, 17).Draw(rt, "dups")
		// what is delivered to whom
		dels := []delivery{}
		type truth struct {
			versions int
			late     bool
			accusers map[int]bool
		}
		truths := map[int]*truth{}
		kinds := ""
		for e := range w.entities() {
			tr := &truth{accusers: map[int]bool{}}
			truths[e] = tr
			what := rapid.SampledFrom([]string{"honest", "honest", "honest", "equivocates", "silent", "accused"}).Draw(rt, "what")
			kinds += what + " "
			at := rapid.IntRange(0, 30).Draw(rt, "at") * 100
			switch what {
			case "honest":
				tr.versions = 1
				for _, g := range rapid.SliceOfNDistinct(rapid.IntRange(0, live-1), 1, live, rapid.ID[int]).Draw(rt, "to") {
					dels = append(dels, delivery{at + rapid.IntRange(0, 5).Draw(rt, "later")*100, g, w.make2(e, minute, 0)})
				}
			case "equivocates":
				tr.versions = 2
				gap := rapid.SampledFrom([]int{0, 0, 100, 700, 12000}).Draw(rt, "gap")
				tr.late = gap > 1000
				if live == 1 {
					tr.versions = 1
				}
				dels = append(dels, delivery{at, 0, w.make2(e, minute, 0)}, delivery{at + gap, rapid.IntRange(0, live-1).Draw(rt, "to"), w.make2(e, minute, 1)})
			case "accused":
				for _, g := range rapid.SliceOfNDistinct(rapid.IntRange(0, live-1), 1, live, rapid.ID[int]).Draw(rt, "by") {
					tr.accusers[g] = true
					dels = append(dels, delivery{at + rapid.IntRange(0, 20).Draw(rt, "later")*100, g, w.acc(w.M[g], w.entities()[e], minute)})
				}
			}
		}
		edges := ""
		for i := range adj {
			for j := range adj[i] {
				if j < i {
					edges += fmt.Sprintf("%d-%d ", j, i)
				}
			}
		}
		desc := []string{}
		for _, d := range dels {
			desc = append(desc, fmt.Sprintf("%.1fs %s to %d", float64(d.at)/1000, short(d.obj), d.to))
		}
		c.Describe("%d gossipers (%d down), threshold %d, wait %d, links %s, delays up to %d ms, %s: %s", n, down, T, wait, edges, maxDelay, kinds, strings.Join(desc, "; "))
		if live > 1 && len(dels) > 0 {
			c.NonTrivial(fmt.Sprint(n, down, T, edges, kinds, desc))
		}
		class(fmt.Sprintf("mesh=%v down=%d", mesh, down))
		for _, k := range strings.Fields(kinds) {
			class("entity " + k)
		}
		dir := scratch()
		bubble(t, c, minute, 0, func() {
			start := time.Now()
			nw := newNet(c)
			nw.fate = func(m *Msg, i int) Fate {
				if m.Src == "" || strings.HasPrefix(m.Path, "/monitor") {
					return Fate{}
				}
				f := Fate{Delay: time.Duration(delays[i%len(delays)]) * time.Millisecond}
				if dups[i%len(dups)] == 9 {
					f.Dup = time.Duration(1+delays[(i*7)%len(delays)]) * time.Millisecond
				}
				return f
			}
			ctxs := []*gossiper.GossiperContext{}
			for i := 0; i < live; i++ {
				ctx := nw.gossiper(w, i, wait, dir)
				peers := []string{}
				for j := 0; j < n; j++ {
					if adj[i][j] {
						peers = append(peers, w.G[j])
					}
				}
				ctx.Gossiper_private_config.Connected_Gossipers = peers
				nw.hosts[w.M[i]] = sink
				ctxs = append(ctxs, ctx)
			}
			for _, d := range dels {
				d := d
				go func() {
					time.Sleep(time.Until(start.Add(time.Duration(d.at) * time.Millisecond)))
					nw.post(w.G[d.to], pathOf[d.obj.Type], js(d.obj))
				}()
			}
			time.Sleep(38 * time.Second)
			got := map[string][]*Msg{}
			for _, m := range nw.sent(func(m *Msg) bool { return strings.HasPrefix(m.Path, "/monitor") }) {
				o := objOf(m)
				k := fmt.Sprint(m.Dst, " ", definition.TypeString(o.Type), " ", o.Payload[0])
				got[k] = append(got[k], m)
			}
			for i := 0; i < live; i++ {
				for e, id := range w.entities() {
					tr := truths[e]
					kind := "STH"
					if e >= len(w.L) {
						kind = "REV"
					}
					count := func(typ string) int { return len(got[fmt.Sprint(w.M[i], " ", typ, " ", id)]) }
					convicted := tr.versions > 1 || len(tr.accusers) >= T
					if ctxs[i].InBlacklistPerm(id) != convicted {
						c.Errorf("%s signed %d statements and was accused by %d of %d monitors; gossiper %d lists it as malicious: %v", id, tr.versions, len(tr.accusers), T, i, !convicted)
					}
					want := map[string]int{"CON_INIT": 0, "ACC_FULL": 0, kind + "_INIT": 0, kind + "_FULL": 0}
					switch {
					case tr.versions > 1:
						want["CON_INIT"] = 1
						delete(want, kind+"_INIT") // one version or, when the proof came first, none
						if tr.late {
							delete(want, kind+"_FULL") // certified before the second version showed up
						}
					case tr.versions == 1:
						want[kind+"_INIT"], want[kind+"_FULL"] = 1, 1
					case len(tr.accusers) >= T:
						want["ACC_FULL"] = 1
					}
					for typ, k := range want {
						if count(typ) != k {
							c.Errorf("the monitor of gossiper %d gets %d %s about %s, has to get %d", i, count(typ), typ, id, k)
						}
					}
				}
			}
			for _, ms := range got {
				for _, m := range ms {
					if ok, why := w.authentic(objOf(m)); !ok {
						c.Errorf("a monitor gets an object that %s: %s", why, m.Body)
					}
				}
			}
		})
	})
}
