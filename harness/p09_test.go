package ctngverif

// P09: monitors accuse exactly the entities that did not answer and are not
// known to have answered anybody; accusations of a threshold of monitors are
// needed for a conviction.

import (
	"encoding/hex"
	"fmt"
	"io"
	"net/http"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/bits-and-blooms/bitset"
	"github.com/jik18001/CTngV2/definition"
	"github.com/jik18001/CTngV2/gossiper"
	"github.com/jik18001/CTngV2/monitor"
	"pgregory.net/rapid"
)

type mquery struct {
	how   string
	delay int // ms
}

func goodAnswer(how string) bool { return how == "ok" || how == "slow" }

func TestP09Monitor(t *testing.T) {
	slots(t, 0, 1, 0, 0)
	check(t, 500, func(rt *rapid.T, c *Case) {
		w := newWorld(rapid.IntRange(0, 3).Draw(rt, "naming"), 3, 2, 2, 2)
		minute := rapid.OneOf(rapid.IntRange(0, 59), rapid.SampledFrom([]int{57, 58, 59, 0})).Draw(rt, "minute")
		wait := rapid.IntRange(2, 15).Draw(rt, "wait")
		drift := rapid.SampledFrom([]int{0, 0, 300, 1000}).Draw(rt, "drift")
		periods := rapid.IntRange(1, 3).Draw(rt, "periods")
		ents := w.entities()
		// how each entity answers in each period
		q := make([][]mquery, periods)
		deltas := make([][]uint, periods) // revoked in each period, per CA (same for both)
		for p := range q {
			for range ents {
				how := rapid.SampledFrom([]string{"ok", "ok", "ok", "refused", "garbage", "empty", "badsig", "error", "slow", "badsrh", "foreign srh", "old srh", "no srh", "foreign key", "foreign signer", "foreign name", "null", "wrong type"}).Draw(rt, "answer")
				d := 0
				if how == "slow" {
					d = rapid.IntRange(1, 180).Draw(rt, "delay") * 100
				}
				q[p] = append(q[p], mquery{how, d})
			}
			deltas[p] = rapid.SliceOfNDistinct(rapid.UintRange(0, 63), 0, 3, rapid.ID[uint]).Draw(rt, "revoked")
		}
		afterOf := func(p int) *bitset.BitSet {
			after := bitset.New(64)
			for i := 0; i <= p; i++ {
				for _, b := range deltas[i] {
					after.Set(b)
				}
			}
			return after
		}
		answers := func(p, e int) definition.Gossip_object {
			if e < len(w.L) {
				return w.sth(ents[e], minute+p, hex.EncodeToString(sha([]byte{byte(p)})), p)
			}
			return w.rev(ents[e], minute+p, afterOf(p), bits(64, deltas[p]...))
		}
		// what the gossiper delivers
		type mev struct {
			at   int
			what string
			e    int
			obj  definition.Gossip_object
		}
		evs := []mev{}
		for i, n := 1, rapid.IntRange(0, 12).Draw(rt, "events"); i <= n; i++ {
			at := rapid.IntRange(0, periods*600-1).Draw(rt, "at")*100 + i
			p := at / 60000
			e := rapid.IntRange(0, len(ents)-1).Draw(rt, "entity")
			what := rapid.SampledFrom([]string{"init", "init", "init", "full", "full", "con", "acc", "forged init", "stale init", "next init"}).Draw(rt, "what")
			var o definition.Gossip_object
			switch what {
			case "init":
				o = answers(p, e)
			case "full":
				o = w.full(w.G[:2], answers(p, e), minute+p)
			case "con":
				o = w.con(w.make2(e, minute+p, 7), w.make2(e, minute+p, 8), minute+p)
			case "acc":
				o = w.full(w.G[1:], w.acc(w.M[1], ents[e], minute+p), minute+p)
			case "forged init":
				o = answers(p, e)
				o.Signature[0] = rsaSigString(rsaRaw(w.rsa[w.M[2]], msgOf(o)), ents[e])
			case "stale init":
				o = w.make2(e, minute+p-1, 3)
			case "next init":
				o = w.make2(e, minute+p+1, 3)
			}
			evs = append(evs, mev{at, what, e, o})
		}
		sort.SliceStable(evs, func(i, j int) bool { return evs[i].at < evs[j].at })
		// the model
		type act struct {
			at   int
			what string // accuse or forward
			e    int
		}
		want := []act{}
		label := func(at int) string { return p2(minute + at/60000) }
		pom := func(e, at int) bool {
			for _, v := range evs {
				if v.at < at && v.e == e && (v.what == "con" || v.what == "acc" && v.obj.Period == label(at)) {
					return true
				}
			}
			return false
		}
		known := func(e, at int) bool { // the statement for this period is known through gossip
			wipe := (at/60000)*60000 - 20000
			if at%60000 > 40000 {
				wipe += 60000
			}
			for _, v := range evs {
				if v.at < at && v.at > wipe && v.e == e && (v.what == "init" || v.what == "stale init" || v.what == "next init") && v.obj.Period == label(at) {
					return true
				}
			}
			return false
		}
		nontrivial := 0
		for p := range q {
			for e, x := range q[p] {
				start := p*60000 + drift
				if pom(e, start) {
					class("convicted, not queried")
					continue
				}
				ok := goodAnswer(x.how)
				if strings.HasSuffix(x.how, "srh") {
					ok = e < len(w.L)
				}
				answered := start + x.delay
				if ok && e >= len(w.L) {
					// the chain: what this monitor has applied so far
					have := bitset.New(64)
					some := false
					for _, v := range evs {
						if v.what == "full" && v.e == e && v.at+20000 < answered {
							have.InPlaceUnion(bits(64, deltas[v.at/60000]...))
							some = true
						}
					}
					delta := bits(64, deltas[p]...)
					if !some {
						have = delta
					} else {
						have = have.Union(delta)
					}
					after := bitset.New(64)
					for i := 0; i <= p; i++ {
						after.InPlaceUnion(bits(64, deltas[i]...))
					}
					ok = have.Equal(after)
				}
				if ok {
					want = append(want, act{answered, "forward", e})
					continue
				}
				if x.how != "slow" {
					answered = start
				}
				at := answered + wait*1000
				if !pom(e, at) && !known(e, at) {
					want = append(want, act{at, "accuse", e})
					nontrivial++
					class("accused after " + x.how)
				} else {
					nontrivial++
					class("not accused, known or convicted")
				}
			}
		}
		desc := []string{}
		for _, v := range evs {
			desc = append(desc, fmt.Sprintf("%.1fs %s %s", float64(v.at)/1000, v.what, short(v.obj)))
		}
		c.Describe("minute %d wait %d drift %d answers %v revoked %v gossip: %s", minute, wait, drift, q, deltas, strings.Join(desc, "; "))
		if nontrivial > 0 {
			c.NonTrivial(fmt.Sprint(minute, wait, drift, q, desc))
		}
		dir := scratch()
		bubble(t, c, minute, 0, func() {
			begin := time.Now()
			n := newNet(c)
			defer n.install()()
			ctx := n.monitor(w, 0, wait, dir)
			ctx.Maxdrift_miliseconds = drift
			n.hosts[w.G[0]] = sink
			n.fate = func(m *Msg, i int) Fate {
				for e, id := range ents {
					if m.Dst == id {
						p := int(time.Since(begin).Milliseconds()) / 60000
						if p < periods && q[p][e].how == "refused" {
							return Fate{Drop: true}
						}
					}
				}
				return Fate{}
			}
			for e, id := range ents {
				e := e
				n.hosts[id] = http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
					p := int(time.Since(begin).Milliseconds()) / 60000
					if p >= periods {
						rw.Write(js(answers(periods-1, e)))
						return
					}
					o := answers(p, e)
					switch q[p][e].how {
					case "garbage":
						io.WriteString(rw, "not an object")
						return
					case "empty":
						return
					case "error":
						http.Error(rw, "unavailable", 500)
						return
					case "badsig":
						o.Signature[0] = strings.Replace(o.Signature[0], `"sig":"`, `"sig":"00`, 1)
					case "foreign key":
						o.Signature[0] = rsaSigString(rsaRaw(w.rsa[w.M[2]], msgOf(o)), ents[e])
					case "foreign signer": // the blame stays with the entity that was asked
						o.Signer = ents[(e+1)%len(ents)]
						o.Signature[0] = rsaSigString(rsaRaw(w.rsa[w.M[2]], msgOf(o)), ents[(e+1)%len(ents)])
					case "foreign name": // a made up statement of another entity of the same kind
						other := (e/2)*2 + (e+1)%2
						o = answers(p, other)
						o.Signature[0] = rsaSigString(rsaRaw(w.rsa[ents[e]], msgOf(o)), ents[other])
					case "null":
						io.WriteString(rw, "null")
						return
					case "wrong type":
						o.Type = definition.ACC_INIT
					case "badsrh":
						if e >= len(w.L) {
							o = w.revWithSRH(ents[e], minute+p, bits(64, deltas[p]...), w.srh(ents[e], minute+p, bits(64, 63, 62, 61), bits(64, 1)))
						}
					case "foreign srh": // the right content, signed by the other CA
						if e >= len(w.L) {
							o = w.revWithSRH(ents[e], minute+p, bits(64, deltas[p]...), w.srh(w.C[(e-len(w.L)+1)%len(w.C)], minute+p, afterOf(p), bits(64, deltas[p]...)))
						}
					case "old srh":
						if e >= len(w.L) {
							o = w.revWithSRH(ents[e], minute+p, bits(64, deltas[p]...), w.srh(ents[e], minute+p-1, afterOf(p), bits(64, deltas[p]...)))
						}
					case "no srh":
						if e >= len(w.L) {
							o = w.revWithSRH(ents[e], minute+p, bits(64, deltas[p]...), "")
						}
					case "slow":
						time.Sleep(time.Duration(q[p][e].delay) * time.Millisecond)
					}
					rw.Write(js(o))
				})
			}
			go func() {
				for _, v := range evs {
					time.Sleep(time.Until(begin.Add(time.Duration(v.at) * time.Millisecond)))
					n.post(w.M[0], "/monitor/receive-gossip-from-gossiper", js(v.obj))
				}
			}()
			startTask(func() { monitor.PeriodicTasks(ctx) })
			time.Sleep(time.Until(begin.Add(time.Duration(periods)*60*time.Second - 10*time.Millisecond)))
			got := []act{}
			for _, m := range n.sent(func(m *Msg) bool { return m.Src == w.M[0] }) {
				o := objOf(m)
				a := act{at: int(m.At.Sub(begin).Milliseconds()), e: -1}
				for e, id := range ents {
					if o.Payload[0] == id {
						a.e = e
					}
				}
				switch o.Type {
				case definition.ACC_INIT:
					a.what = "accuse"
					if o.Signer != w.M[0] || o.Period != p2(m.At.Minute()) {
						c.Errorf("an accusation is labelled %s, signer %s, in minute %d", o.Period, o.Signer, m.At.Minute())
					}
				default:
					a.what = "forward"
				}
				if ok, why := w.authentic(o); !ok {
					c.Errorf("the monitor sends an object that %s: %s", why, m.Body)
				}
				got = append(got, a)
			}
			less := func(l []act) func(i, j int) bool {
				return func(i, j int) bool {
					return fmt.Sprintf("%08d %v", l[i].at, l[i]) < fmt.Sprintf("%08d %v", l[j].at, l[j])
				}
			}
			end := periods*60000 - 10
			kept := []act{}
			for _, a := range want {
				if a.at < end {
					kept = append(kept, a)
				}
			}
			sort.Slice(got, less(got))
			sort.Slice(kept, less(kept))
			if fmt.Sprint(got) != fmt.Sprint(kept) {
				c.Errorf("the monitor sends its gossiper {ms what entity} %v, has to send %v", got, kept)
			}
		})
	})
}

// Monitors and gossipers together: an entity that answers at least one monitor
// is not accused by anybody and gets certified; one that answers nobody is
// convicted everywhere; a threshold of the monitors has to agree.
func TestP09System(t *testing.T) {
	slots(t, 4, 4, 0, 0)
	check(t, 45, func(rt *rapid.T, c *Case) {
		n := rapid.IntRange(2, 4).Draw(rt, "n")
		w := newWorld(rapid.IntRange(0, 3).Draw(rt, "naming"), n, 2, 2, rapid.IntRange(2, n).Draw(rt, "T"))
		minute := rapid.OneOf(rapid.IntRange(0, 59), rapid.SampledFrom([]int{59, 0})).Draw(rt, "minute")
		wait := rapid.IntRange(3, 8).Draw(rt, "wait")
		reach := [][]bool{} // entity, monitor
		desc := ""
		for e := range w.entities() {
			row := []bool{}
			mode := rapid.SampledFrom([]string{"all", "none", "some", "some"}).Draw(rt, "reach")
			for i := 0; i < n; i++ {
				row = append(row, mode == "all" || mode == "some" && rapid.Bool().Draw(rt, "reached"))
			}
			reach = append(reach, row)
			desc += fmt.Sprintf("%s reached by %v; ", w.entities()[e], row)
		}
		// which monitors ask at all: some entities are watched by few monitors only
		watch := [][]bool{}
		for range w.entities() {
			row := []bool{}
			for i := 0; i < n; i++ {
				row = append(row, rapid.IntRange(0, 3).Draw(rt, "watched") > 0)
			}
			watch = append(watch, row)
		}
		delays := rapid.SliceOfN(rapid.IntRange(0, (wait*1000-1500)/(4*n)), 5, 20).Draw(rt, "delays")
		c.Describe("n=%d T=%d minute %d wait %d: %s watched by %v", n, w.T, minute, wait, desc, watch)
		c.NonTrivial(fmt.Sprint(n, w.T, minute, wait, reach, watch))
		dir := scratch()
		bubble(t, c, minute, 0, func() {
			begin := time.Now()
			nw := newNet(c)
			defer nw.install()()
			who := func() int { return int(time.Since(begin).Milliseconds())%1000/100 - 1 }
			nw.fate = func(m *Msg, i int) Fate {
				if m.Src == "http.Get" {
					for e, id := range w.entities() {
						if m.Dst == id && !reach[e][who()] {
							return Fate{Drop: true}
						}
					}
					return Fate{}
				}
				if strings.HasPrefix(m.Path, "/gossip") && m.Src != "" {
					return Fate{Delay: time.Duration(delays[i%len(delays)]) * time.Millisecond}
				}
				return Fate{}
			}
			gs, ms := []*gossiper.GossiperContext{}, []*monitor.MonitorContext{}
			for i := 0; i < n; i++ {
				gs = append(gs, nw.gossiper(w, i, wait, dir))
				m := nw.monitor(w, i, wait, dir)
				m.Maxdrift_miliseconds = (i + 1) * 100 // tells the monitors apart
				m.Monitor_private_config.Logger_URLs, m.Monitor_private_config.CA_URLs = nil, nil
				for e, id := range w.entities() {
					if !watch[e][i] {
						continue
					}
					if e < len(w.L) {
						m.Monitor_private_config.Logger_URLs = append(m.Monitor_private_config.Logger_URLs, id)
					} else {
						m.Monitor_private_config.CA_URLs = append(m.Monitor_private_config.CA_URLs, id)
					}
				}
				ms = append(ms, m)
			}
			for e, id := range w.entities() {
				o := w.make2(e, minute, 1)
				nw.hosts[id] = http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) { rw.Write(js(o)) })
			}
			for i := range ms {
				startTask(func() { monitor.PeriodicTasks(ms[i]) })
			}
			time.Sleep(38 * time.Second)
			for e, id := range w.entities() {
				reached, failed := 0, 0
				for i := 0; i < n; i++ {
					if watch[e][i] && reach[e][i] {
						reached++
					}
					if watch[e][i] && !reach[e][i] {
						failed++
					}
				}
				convict := reached == 0 && failed >= w.T
				class(fmt.Sprintf("system: reached=%v failed>=T=%v", reached > 0, failed >= w.T))
				accusations := len(nw.sent(func(m *Msg) bool { return strings.HasSuffix(m.Path, "acc_init") && objOf(m).Payload[0] == id }))
				if reached > 0 && accusations > 0 {
					c.Errorf("%s answered %d monitors and is accused %d times", id, reached, accusations)
				}
				// a monitor that learns of the conviction before its own time is up need not accuse any more
				if reached == 0 && (accusations > failed || accusations < min(failed, w.T)) {
					c.Errorf("%s answered nobody, %d monitors asked, threshold %d, %d accusations", id, failed, w.T, accusations)
				}
				for i := 0; i < n; i++ {
					if gs[i].InBlacklistPerm(id) != convict {
						c.Errorf("%s answered %d monitors, failed %d (threshold %d), gossiper %d convicts it: %v", id, reached, failed, w.T, i, !convict)
					}
					held := false
					for k := range *ms[i].Storage_ACCUSATION_POM {
						held = held || k.Entity_URL == id
					}
					if held != convict {
						c.Errorf("%s answered %d monitors, failed %d (threshold %d), monitor %d holds a proof: %v", id, reached, failed, w.T, i, held)
					}
					full := false
					for k := range *ms[i].Storage_STH_FULL {
						full = full || k.Entity_URL == id
					}
					for k := range *ms[i].Storage_REV_FULL {
						full = full || k.Entity_URL == id
					}
					if full != (reached > 0) {
						c.Errorf("%s answered %d monitors, monitor %d holds its certified statement: %v", id, reached, i, full)
					}
				}
			}
		})
	})
}
