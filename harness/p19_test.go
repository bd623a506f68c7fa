package ctngverif

// P19: concurrency. Requests, timers and period changes of one party run at
// the same time; built with the race detector. Whatever the interleaving,
// there is no data race, no deadlock and no crash, and nothing is lost.

import (
	"crypto/x509"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"os"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"
	"unsafe"

	"github.com/jik18001/CTngV2/CA"
	"github.com/jik18001/CTngV2/Logger"
	"github.com/jik18001/CTngV2/definition"
	"github.com/jik18001/CTngV2/gossiper"
	"github.com/jik18001/CTngV2/monitor"
	"pgregory.net/rapid"
)

func init() {
	underRace = true
	forget = racemalloc
}

// what the runtime tells the race detector about newly allocated memory
//
//go:linkname racemalloc runtime.racemalloc
func racemalloc(p unsafe.Pointer, n uintptr)

// instants at which many things happen at once; some are those of the period tasks
func drawInstants(rt *rapid.T, periods int) []int {
	out := []int{}
	for i, n := 0, rapid.IntRange(1, 4).Draw(rt, "instants"); i < n; i++ {
		p := rapid.IntRange(0, periods-1).Draw(rt, "period")
		out = append(out, p*60000+rapid.SampledFrom([]int{1000, 5000, 6000, 10000, 11000, 30000, 39999, 40000, 40001, 41000, 55000, 59999, 60000}).Draw(rt, "ms"))
	}
	return out
}

// A storm: most of what happens is of one kind and at one instant, when the period is closed.
type storm struct{ when, what, n int }

func drawStorm(rt *rapid.T, kinds int) *storm {
	s := &storm{when: -1}
	if rapid.Bool().Draw(rt, "storm") {
		s.when = rapid.IntRange(0, 1).Draw(rt, "period of the storm")*60000 + 40000
		s.what = rapid.IntRange(0, kinds).Draw(rt, "kind of the storm")
	}
	return s
}

func (s *storm) at(t int) int {
	s.n++
	if s.when >= 0 && s.n%4 != 0 {
		return s.when
	}
	return t
}

func (s *storm) kind(k int) int {
	if s.when >= 0 && s.n%4 != 0 {
		return s.what
	}
	return k
}

func TestP19Gossiper(t *testing.T) {
	slots(t, 1, 0, 0, 0)
	check(t, 30, func(rt *rapid.T, c *Case) {
		w := drawWorld(rt, 2, 4, 2, 2)
		minute := rapid.IntRange(0, 57).Draw(rt, "minute")
		wait := rapid.SampledFrom([]int{1, 5, 10}).Draw(rt, "wait")
		times := drawInstants(rt, 2)
		type ev struct {
			at, kind int
			o        definition.Gossip_object
			desc     string
		}
		evs := []ev{}
		versions := map[string]map[string]bool{} // statements delivered in time, by entity and period
		any := map[string]map[string]bool{}
		storm := drawStorm(rt, 5)
		for i, n := 0, rapid.IntRange(4, 24).Draw(rt, "events"); i < n; i++ {
			at := storm.at(rapid.SampledFrom(times).Draw(rt, "at"))
			p := minute + at/60000
			e := rapid.IntRange(0, 3).Draw(rt, "entity")
			id := w.entities()[e]
			v := rapid.SampledFrom([]int{0, 0, 0, 1}).Draw(rt, "version")
			o := w.make2(e, p, v)
			x := ev{at: at}
			note := func(o definition.Gossip_object) {
				k := fmt.Sprint(e, " ", o.Period)
				if any[k] == nil {
					any[k], versions[k] = map[string]bool{}, map[string]bool{}
				}
				any[k][msgOf(o)] = true
				if at%60000 < 39000 {
					versions[k][msgOf(o)] = true
				}
			}
			switch x.kind = storm.kind(pick(rt, "kind", 8, 6, 2, 1, 1, 1)); x.kind {
			case 0:
				x.o = o
				note(o)
			case 1:
				x.o = w.frag(w.G[rapid.IntRange(0, len(w.G)-1).Draw(rt, "by")], o)
			case 2:
				x.o = w.acc(w.M[0], id, p)
			case 3:
				x.o = w.con(w.make2(e, p, 3), w.make2(e, p, 4), p)
				any["con "+id] = map[string]bool{"": true}
			case 4:
				x.o = w.full(w.G[:w.T], o, p)
			case 5: // announcement of a revocation
				x.o = w.make2(2+e%2, p, v)
			}
			x.desc = fmt.Sprintf("%d %s", at, short(x.o))
			if x.kind == 5 {
				x.desc = fmt.Sprintf("%d announced %s", at, short(x.o))
			}
			evs = append(evs, x)
		}
		desc := []string{}
		for _, x := range evs {
			desc = append(desc, x.desc)
		}
		c.Describe("%d gossipers, threshold %d, minute %d, wait %d: %s", len(w.G), w.T, minute, wait, strings.Join(desc, "; "))
		c.NonTrivial(fmt.Sprint(w.T, len(w.G), minute, wait, desc))
		dir := scratch()
		bubble(t, c, minute, 0, func() {
			begin := time.Now()
			nw := newNet(c)
			ctx := nw.gossiper(w, 0, wait, dir)
			for _, id := range append(cp(w.G[1:]), w.M[0]) {
				nw.hosts[id] = sink
			}
			nw.hush(dir)
			startTask(func() { gossiper.PeriodicTasks(ctx) })
			var wg sync.WaitGroup
			for _, x := range evs {
				wg.Add(1)
				go func() {
					defer wg.Done()
					time.Sleep(time.Until(begin.Add(time.Duration(x.at) * time.Millisecond)))
					switch {
					case x.kind == 5:
						nw.post(w.G[0], "/gossip/new_payload_notification", js(gossiper.Gossip_Notification{Sender: w.G[1], Period: x.o.Period, Type: x.o.Type, Entity_URL: x.o.Payload[0], Objhash: gossiper.ComputeobjHash(x.o)}))
						nw.post(w.G[0], "/gossip/new_payload_request", js(gossiper.Gossip_Notification{Sender: w.G[1], Period: x.o.Period, Type: x.o.Type, Entity_URL: x.o.Payload[0], Objhash: gossiper.ComputeobjHash(x.o)}))
					case x.kind == 4:
						gossiper.Handle_Gossip_object(ctx, x.o)
					default:
						nw.post(w.G[0], pathOf[x.o.Type], js(x.o))
					}
				}()
			}
			wg.Wait()
			time.Sleep(time.Until(begin.Add(125 * time.Second)))
			synctest.Wait()
			for e, id := range w.entities() {
				must, may := false, any["con "+id] != nil
				for k, v := range versions {
					if strings.HasPrefix(k, fmt.Sprint(e, " ")) {
						must = must || len(v) > 1
						may = may || len(any[k]) > 1
					}
				}
				// an accusation that got a threshold convicts, too
				for _, x := range evs {
					may = may || x.kind == 2 && x.o.Payload[0] == id
				}
				if got := ctx.InBlacklistPerm(id); must && !got || got && !may {
					c.Errorf("%s equivocated %v, is convicted %v", id, must, got)
				}
			}
		})
	})
}

func TestP19Monitor(t *testing.T) {
	slots(t, 0, 1, 0, 0)
	check(t, 24, func(rt *rapid.T, c *Case) {
		w := drawWorld(rt, 2, 3, 2, 2)
		minute := rapid.IntRange(0, 57).Draw(rt, "minute")
		times := drawInstants(rt, 2)
		type ev struct {
			at   int
			o    definition.Gossip_object
			ask  bool
			desc string
		}
		evs := []ev{}
		storm := drawStorm(rt, 5)
		for i, n := 0, rapid.IntRange(4, 24).Draw(rt, "events"); i < n; i++ {
			at := storm.at(rapid.SampledFrom(times).Draw(rt, "at"))
			p := minute + at/60000
			e := rapid.IntRange(0, 3).Draw(rt, "entity")
			o := w.make2(e, p, 0)
			switch storm.kind(rapid.IntRange(0, 5).Draw(rt, "kind")) {
			case 0, 1:
				o = w.full(w.G[:w.T], o, p)
			case 2:
				o = w.con(w.make2(e, p, 3), w.make2(e, p, 4), p)
			case 3:
				o = w.full(w.G[:w.T], w.acc(w.M[0], w.entities()[e], p), p)
			case 4:
				evs = append(evs, ev{at: at, ask: true, desc: fmt.Sprintf("%d asked", at)})
				continue
			}
			evs = append(evs, ev{at, o, false, fmt.Sprintf("%d %s", at, short(o))})
		}
		desc := []string{}
		for _, x := range evs {
			desc = append(desc, x.desc)
		}
		c.Describe("threshold %d, minute %d: %s", w.T, minute, strings.Join(desc, "; "))
		c.NonTrivial(fmt.Sprint(w.T, minute, desc))
		dir := scratch()
		bubble(t, c, minute, 0, func() {
			begin := time.Now()
			nw := newNet(c)
			defer nw.install()()
			mon := nw.monitor(w, 0, 5, dir)
			nw.hosts[w.G[0]] = sink
			for e, id := range w.entities() {
				if e%2 == 0 {
					continue // silent
				}
				nw.hosts[id] = http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
					rw.Write(js(w.make2(e, minute+int(time.Since(begin)/time.Minute), 0)))
				})
			}
			nw.hush(dir)
			startTask(func() { monitor.PeriodicTasks(mon) })
			var wg sync.WaitGroup
			for _, x := range evs {
				wg.Add(1)
				go func() {
					defer wg.Done()
					time.Sleep(time.Until(begin.Add(time.Duration(x.at) * time.Millisecond)))
					if x.ask {
						resp, err := nw.get(w.M[0], "/monitor/get-update", js(p2(minute+x.at/60000)))
						if err != nil {
							c.Errorf("asked at %d: %v", x.at, err)
						} else if resp.StatusCode == 200 {
							b, _ := io.ReadAll(resp.Body)
							var u monitor.ClientUpdate
							if err := json.Unmarshal(b, &u); err != nil || u.MonitorID != w.M[0] {
								c.Errorf("asked at %d: a broken update: %s", x.at, clip(string(b), 200))
							}
						}
						return
					}
					if resp, err := nw.post(w.M[0], "/monitor/receive-gossip-from-gossiper", js(x.o)); err != nil || resp.StatusCode != 200 {
						c.Errorf("the monitor refuses %s: %v", x.desc, err)
					}
				}()
			}
			wg.Wait()
			// every proof is published, once
			for p := 0; p < 3; p++ {
				time.Sleep(time.Until(begin.Add(time.Duration(p*60+42) * time.Second)))
			}
			synctest.Wait()
			published := map[string]int{}
			for p := 0; p < 3; p++ {
				u, _, err := updateOf(mon, minute+p)
				if err != nil {
					c.Errorf("no update of minute %d: %v", minute+p, err)
					return
				}
				for _, o := range u.POM_CONs {
					published[string(js(o))]++
				}
				for _, o := range u.POM_ACCs {
					published[o.Payload[0]+" "+o.Period]++
				}
			}
			for _, x := range evs {
				k := string(js(x.o))
				switch x.o.Type {
				case definition.CON_INIT:
				case definition.ACC_FULL:
					k = x.o.Payload[0] + " " + x.o.Period
				default:
					continue
				}
				if published[k] != 1 {
					c.Errorf("%s is published %d times", x.desc, published[k])
				}
			}
		})
	})
}

// Proofs that are delivered several times at the moment the update is made are
// published once.
func TestP19Twice(t *testing.T) {
	slots(t, 0, 1, 0, 0)
	check(t, 12, func(rt *rapid.T, c *Case) {
		w := newWorld(0, 2, 2, 2, 2)
		minute := rapid.IntRange(0, 57).Draw(rt, "minute")
		copies := rapid.IntRange(2, 3).Draw(rt, "copies")
		spin := rapid.SliceOfN(rapid.IntRange(0, 20000), 2*4*2*copies, 2*4*2*copies).Draw(rt, "delays")
		c.Describe("minute %d, every proof arrives %d times", minute, copies)
		c.NonTrivial(fmt.Sprint(minute, copies, spin))
		dir := scratch()
		proofs := map[int][]definition.Gossip_object{}
		for p := 0; p < 2; p++ {
			for e, id := range w.entities() {
				proofs[p] = append(proofs[p], w.con(w.make2(e, minute+p, 3), w.make2(e, minute+p, 4), minute+p), w.full(w.G[:w.T], w.acc(w.M[0], id, minute+p), minute+p))
			}
		}
		bubble(t, c, minute, 0, func() {
			begin := time.Now()
			nw := newNet(c)
			defer nw.install()()
			mon := nw.monitor(w, 0, 5, dir)
			nw.hosts[w.G[0]] = sink
			for _, id := range w.entities() {
				nw.hosts[id] = sink
			}
			nw.hush(dir)
			startTask(func() { monitor.PeriodicTasks(mon) })
			var wg sync.WaitGroup
			for p := 0; p < 2; p++ {
				for k, o := range proofs[p] {
					body := js(o)
					for i := 0; i < copies; i++ {
						wg.Add(1)
						go func() {
							defer wg.Done()
							time.Sleep(time.Until(begin.Add(time.Duration(p*60+40) * time.Second)))
							x := 0
							for n := spin[(p*8+k)*copies+i] * 20; n > 0; n-- {
								x += n ^ x
							}
							runtime.KeepAlive(x)
							nw.post(w.M[0], "/monitor/receive-gossip-from-gossiper", body)
						}()
					}
				}
			}
			wg.Wait()
			for p := 0; p < 3; p++ {
				time.Sleep(time.Until(begin.Add(time.Duration(p*60+42) * time.Second)))
			}
			synctest.Wait()
			published := map[string]int{}
			for p := 0; p < 3; p++ {
				u, _, err := updateOf(mon, minute+p)
				if err != nil {
					c.Errorf("no update of minute %d: %v", minute+p, err)
					return
				}
				for _, o := range append(u.POM_CONs, u.POM_ACCs...) {
					published[string(js(o))]++
				}
			}
			for p := 0; p < 2; p++ {
				for _, o := range proofs[p] {
					if n := published[string(js(o))]; n != 1 {
						c.Errorf("%s is published %d times", short(o), n)
					}
				}
			}
		})
	})
}

func TestP19LoggerCA(t *testing.T) {
	slots(t, 0, 0, 1, 1)
	check(t, 24, func(rt *rapid.T, c *Case) {
		w := newWorld(0, 2, 1, 1, 2)
		minute := rapid.IntRange(0, 57).Draw(rt, "minute")
		times := drawInstants(rt, 2)
		pre := []*precert{}
		for i, n := 0, rapid.IntRange(1, 5).Draw(rt, "precertificates"); i < n; i++ {
			pre = append(pre, w.precert(w.C[0], fmt.Sprintf("Testing Dummy %d", i), i+1))
		}
		_, pois := w.logTree([]string{pre[0].subject})
		type ev struct{ at, kind, x int }
		evs := []ev{}
		storm := drawStorm(rt, 5)
		for i, n := 0, rapid.IntRange(4, 24).Draw(rt, "events"); i < n; i++ {
			evs = append(evs, ev{storm.at(rapid.SampledFrom(times).Draw(rt, "at")), storm.kind(rapid.IntRange(0, 5).Draw(rt, "kind")), rapid.IntRange(0, len(pre)-1).Draw(rt, "which")})
		}
		kinds := [2]int{rapid.SampledFrom([]int{0, 0, 1, 3}).Draw(rt, "logger kind"), rapid.SampledFrom([]int{0, 0, 1, 3}).Draw(rt, "CA kind")}
		certs := 0
		if rapid.IntRange(0, 5).Draw(rt, "certificates of its own") == 3 {
			// the CA makes certificates of its own while proofs arrive
			certs = 1
			evs = append(evs, ev{30000, 4, 0})
			for i := 0; i < 8; i++ {
				evs = append(evs, ev{60000, 5, 0})
			}
		}
		c.Describe("minute %d, %d precertificates, kinds %v, %d certificates per period, {ms kind which} %v", minute, len(pre), kinds, certs, evs)
		c.NonTrivial(fmt.Sprint(minute, len(pre), kinds, certs, evs))
		dir := scratch()
		cwd, _ := os.Getwd()
		os.Chdir(dir)
		defer os.Chdir(cwd)
		tree := merkle([]string{pre[0].subject})
		bubble(t, c, minute, 0, func() {
			begin := time.Now()
			nw := newNet(c)
			lg, ca := nw.logger(w, 0, dir), nw.ca(w, 0, certs, dir)
			lg.Logger_Type, ca.CA_Type = kinds[0], kinds[1]
			ca.RevocationRatio = 0
			nw.hush(dir)
			startTask(func() { Logger.PeriodicTask(lg) })
			go CA.PeriodicTask(ca)
			posted := map[int]bool{}
			var wg sync.WaitGroup
			for _, x := range evs {
				if x.kind < 2 && x.at < 100000 {
					posted[x.x] = true
				}
				wg.Add(1)
				go func() {
					defer wg.Done()
					time.Sleep(time.Until(begin.Add(time.Duration(x.at) * time.Millisecond)))
					var err error
					switch x.kind {
					case 0, 1:
						_, err = nw.post(w.L[0], "/Logger/receive-precerts", pre[x.x].raw)
					case 2, 3:
						host, path := w.L[0], "/ctng/v2/get-sth/"
						if x.kind == 3 {
							host, path = w.C[0], "/ctng/v2/get-revocation/"
						}
						// at the end of a period queries go on while the statement of the next one is made
						for k := 0; k < 1 || x.at%60000 == 40000 && k < 40 && err == nil; k++ {
							_, err = nw.get(host, path, nil)
						}
					case 4:
						_, err = nw.post(w.C[0], "/CA/receive-sth", js(w.sth(w.L[0], minute+x.at/60000, hex.EncodeToString(tree.root()), 1)))
					case 5:
						poi := pois[0]
						poi.LoggerID = w.L[0]
						_, err = nw.post(w.C[0], "/CA/receive-poi", js(poi))
					}
					if err != nil {
						c.Errorf("%v is not answered: %v", x, err)
					}
				}()
			}
			wg.Wait()
			time.Sleep(time.Until(begin.Add(165 * time.Second)))
			synctest.Wait()
			// every precertificate got a proof
			for k := range posted {
				found := false
				for _, m := range nw.sent(func(m *Msg) bool { return m.Src == w.L[0] && strings.HasPrefix(m.Path, "/CA/receive-poi") }) {
					var q struct{ SubjectKeyId []byte }
					json.Unmarshal(m.Body, &q)
					found = found || string(q.SubjectKeyId) == string(pre[k].cert.SubjectKeyId)
				}
				if !found {
					c.Errorf("precertificate %d is in no log", k)
				}
			}
		})
	})
}

// A client verifies certificates while it takes updates: each verdict is the
// one before or after an update, never one of half an update.
func TestP19Client(t *testing.T) {
	check(t, 80, func(rt *rapid.T, c *Case) {
		w := newWorld(rapid.IntRange(0, 3).Draw(rt, "naming"), 3, 3, 1, 2)
		minute := rapid.IntRange(0, 50).Draw(rt, "minute")
		subjects := []string{"Testing Dummy 0", "Testing Dummy 1", "Testing Dummy 2"}
		tree, pois := w.logTree(subjects)
		ext := func(i, l int) CA.CTngExtension {
			poi := pois[i]
			poi.LoggerID = w.L[l]
			return CA.CTngExtension{SequenceNumber: CA.SequenceNumber{RID: i}, LoggerInformation: []CA.LoggerInfo{{STH: w.sth(w.L[l], minute, hex.EncodeToString(tree.root()), 3), POI: poi}}}
		}
		// an update with the root of the log always revokes certificate 1 as
		// well, and convicts the third logger; a later one convicts the first logger and revokes 2
		certs := []struct{ i, l int }{{0, 0}, {1, 0}, {0, 1}, {2, 1}, {2, 0}, {0, 2}, {2, 2}}
		updates := []monitor.ClientUpdate{}
		first := w.rev(w.C[0], minute, bits(64, 1), bits(64, 1))
		second := w.rev(w.C[0], minute+1, bits(64, 1, 2), bits(64, 2))
		full := func(o definition.Gossip_object, p int) definition.Gossip_object { return w.full(w.G[:2], o, p) }
		updates = append(updates, updateFrom(w.M[0], minute, full(first, minute), full(w.sth(w.L[0], minute, hex.EncodeToString(tree.root()), 3), minute), full(w.sth(w.L[1], minute, hex.EncodeToString(tree.root()), 3), minute),
			full(w.sth(w.L[2], minute, hex.EncodeToString(tree.root()), 3), minute), full(w.acc(w.M[0], w.L[2], minute), minute)))
		updates = append(updates, updateFrom(w.M[0], minute+1, full(second, minute+1), full(w.acc(w.M[0], w.L[0], minute+1), minute+1)))
		verdict := func(k, n int) bool {
			x := certs[k]
			switch n {
			case 0:
				return false
			case 1:
				return x.i != 1 && x.l != 2
			}
			return x.i == 0 && x.l == 1
		}
		made := []*x509.Certificate{}
		for _, x := range certs {
			made = append(made, w.leaf(w.C[0], subjects[x.i], ext(x.i, x.l)))
		}
		readers := rapid.IntRange(1, 6).Draw(rt, "readers")
		order := rapid.SliceOfN(rapid.IntRange(0, len(certs)-1), 4, 12).Draw(rt, "order")
		yields := rapid.SliceOfN(rapid.IntRange(0, 30), 3, 3).Draw(rt, "yields")
		repeat := rapid.IntRange(1, 3).Draw(rt, "repeat")
		c.Describe("minute %d, %d readers, certificates %v, yields %v, updates repeated %d times", minute, readers, order, yields, repeat)
		c.NonTrivial(fmt.Sprint(minute, readers, order, yields, repeat))
		cli := w.newClient(clientDir(scratch()), "NEW")
		safely(c, "client", func() {
			var begun, done atomic.Int32
			var stop atomic.Bool
			var wg sync.WaitGroup
			for r := 0; r < readers; r++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					safely(c, "reader", func() {
						for n := 0; n < 2 || !stop.Load(); n++ {
							k := order[(n+r)%len(order)]
							x := *made[k]
							lo := int(done.Load())
							got := cli.VerifyCTngextension(&x)
							hi := int(begun.Load())
							ok := false
							for s := lo; s <= hi; s++ {
								ok = ok || verdict(k, s) == got
							}
							if !ok {
								c.Errorf("certificate %v is judged %v between updates %d and %d", certs[k], got, lo, hi)
							}
							if n > 400 {
								return
							}
						}
					})
				}()
			}
			for i, u := range updates {
				for k := 0; k < yields[i]; k++ {
					runtime.Gosched()
				}
				begun.Add(1)
				for k := 0; k < repeat; k++ {
					if !cli.HandleUpdate(u, true, false) {
						c.Errorf("update %d is refused", i)
					}
				}
				done.Add(1)
			}
			saveClient(cli)
			stop.Store(true)
			wg.Wait()
			for k := range certs {
				if got := cli.VerifyCTngextension(made[k]); got != verdict(k, 2) {
					c.Errorf("certificate %v is judged %v at the end", certs[k], got)
				}
			}
		})
	})
}

// All parties together.
func TestP19System(t *testing.T) {
	slots(t, 3, 3, 3, 2)
	check(t, 2, func(rt *rapid.T, c *Case) { system(t, rt, c, 3) })
}
