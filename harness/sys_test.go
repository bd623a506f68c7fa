package ctngverif

// The whole system: loggers, CAs, gossipers, monitors and clients run together,
// some of them misbehave or are down.

import (
	"crypto/x509"
	"encoding/json"
	"fmt"
	"net/http"
	"net/http/httptest"
	"os"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/bits-and-blooms/bitset"
	"github.com/jik18001/CTngV2/CA"
	"github.com/jik18001/CTngV2/Logger"
	"github.com/jik18001/CTngV2/client"
	"github.com/jik18001/CTngV2/definition"
	"github.com/jik18001/CTngV2/gossiper"
	"github.com/jik18001/CTngV2/monitor"
	"pgregory.net/rapid"
)

// system is one case with all parties.
func system(t *testing.T, rt *rapid.T, c *Case, maxG int) {
	nL, nC := rapid.IntRange(1, 3).Draw(rt, "loggers"), rapid.IntRange(1, 2).Draw(rt, "CAs")
	w := drawWorld(rt, 2, maxG, nL, nC)
	n := len(w.G)
	minute := rapid.OneOf(rapid.IntRange(0, 59), rapid.SampledFrom([]int{56, 57, 58, 59})).Draw(rt, "minute")
	periods := rapid.SampledFrom([]int{1, 2, 2, 3, 3, 4}).Draw(rt, "periods") // in which there are monitors
	wait := rapid.IntRange(6, 12).Draw(rt, "wait")
	per := rapid.SampledFrom([]int{0, 1, 1, 2}).Draw(rt, "certificates")
	ents := w.entities()
	kinds, interval := []int{}, []int{}
	for e := range ents {
		k := 0
		if percent(rt, "misbehaves", 35) {
			k = rapid.SampledFrom([]int{1, 1, 4, 2, 3, 5, 6}).Draw(rt, "kind")
		}
		kinds = append(kinds, k)
		v := rapid.IntRange(1, 3).Draw(rt, "interval")
		if e >= nL && (k == 1 || k == 4) {
			v = max(v, 2) // if all got the second revocation, the next one would not continue it
		}
		interval = append(interval, v)
	}
	dead := map[int]bool{}
	for i := 0; i < n-w.T; i++ {
		if percent(rt, "gossiper and monitor down", 25) {
			dead[rapid.IntRange(0, n-1).Draw(rt, "which")] = true
		}
	}
	shape := "mesh"
	if len(dead) == 0 {
		shape = rapid.SampledFrom([]string{"mesh", "mesh", "ring", "line"}).Draw(rt, "shape")
	}
	delays := rapid.SliceOfN(rapid.SampledFrom([]int{0, 0, 1, 20, 150, 300}), 1, 8).Draw(rt, "delays")
	dup := rapid.SampledFrom([]int{0, 0, 7, 3}).Draw(rt, "duplicates")
	// the queries of monitors that fail: entity, period, number
	lost := map[[3]int]bool{}
	for i, k := 0, rapid.SampledFrom([]int{0, 0, 2, 8}).Draw(rt, "lost"); i < k; i++ {
		lost[[3]int{rapid.IntRange(0, len(ents)-1).Draw(rt, "entity"), rapid.IntRange(1, periods).Draw(rt, "period"), rapid.IntRange(1, n).Draw(rt, "number")}] = true
	}
	latency := rapid.SampledFrom([]int{0, 0, 290}).Draw(rt, "latency")
	revs := []revocation{}
	for i, k := 0, rapid.IntRange(0, 5).Draw(rt, "revocations"); i < k; i++ {
		a := rapid.IntRange(0, periods*60-1).Draw(rt, "at")*1000 + 500
		if a%60000 == 40500 {
			a += 1000 // after the publication
		}
		revs = append(revs, revocation{a, rapid.IntRange(0, nC-1).Draw(rt, "CA"), rapid.IntRange(0, 2*periods).Draw(rt, "id")})
	}
	if underRace {
		revs = nil // a revocation vector is not made for concurrent use
	}
	sort.SliceStable(revs, func(i, j int) bool { return revs[i].at < revs[j].at })
	c.Describe("%d gossipers, threshold %d, %s, down %v, minute %d, %d periods, wait %d s, kinds %v every %v, %d certificates per period, delays %v ms, duplicates %d, latency %d, lost queries {entity period number} %v, revocations {ms CA id} %v",
		n, w.T, shape, dead, minute, periods, wait, kinds, interval, per, delays, dup, latency, lost, revs)
	c.NonTrivial(fmt.Sprint(n, w.T, shape, dead, minute, periods, wait, kinds, interval, per, delays, dup, latency, lost, revs))
	dir := scratch()
	cwd, _ := os.Getwd()
	os.Chdir(dir)
	defer os.Chdir(cwd)
	clients := make([]*client.ClientContext, n)
	for i := range clients {
		if !dead[i] {
			clients[i] = w.newClient(clientDir(dir), "NEW")
		}
	}
	bubble(t, c, minute, 0, func() {
		begin := time.Now()
		period := func(at time.Time) int { return int(at.Sub(begin) / time.Minute) }
		nw := newNet(c)
		defer nw.install()()
		// what was really answered, by entity and period
		var mu sync.Mutex
		count := map[[2]int]int{}
		answers := map[[2]int]map[string]definition.Gossip_object{}
		for e, id := range ents {
			if e < nL {
				lg := nw.logger(w, e, dir)
				lg.Logger_Type, lg.MisbehaviorInterval = kinds[e], interval[e]
				lg.Max_latency = latency
			} else {
				ca := nw.ca(w, e-nL, per, dir)
				ca.RevocationRatio = 0
				ca.CA_Type, ca.MisbehaviorInterval = kinds[e], interval[e]
				ca.Max_latency = latency
			}
			h := nw.hosts[id]
			nw.hosts[id] = http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
				rec := httptest.NewRecorder()
				h.ServeHTTP(rec, r)
				for k, v := range rec.Header() {
					rw.Header()[k] = v
				}
				rw.WriteHeader(rec.Code)
				rw.Write(rec.Body.Bytes())
				if r.Method == "GET" && rec.Code == 200 {
					var o definition.Gossip_object
					p := period(time.Now())
					if json.Unmarshal(rec.Body.Bytes(), &o) == nil && o.Payload[0] == id {
						if ok, why := w.authentic(o); !ok || o.Period != p2(minute+p) {
							c.Errorf("%s answers in minute %d with an object that %s: %s", id, minute+p, why, short(o))
						}
						mu.Lock()
						if answers[[2]int{e, p}] == nil {
							answers[[2]int{e, p}] = map[string]definition.Gossip_object{}
						}
						answers[[2]int{e, p}][msgOf(o)] = o
						mu.Unlock()
					}
				}
			})
		}
		index := map[string]int{}
		for e, id := range ents {
			index[id] = e
		}
		nw.fate = func(m *Msg, i int) Fate {
			f := Fate{Delay: time.Duration(delays[i%len(delays)]) * time.Millisecond}
			if strings.HasPrefix(m.Path, "/CA/") || strings.HasPrefix(m.Path, "/Logger/") {
				f.Delay = 0 // what comes after the CA has closed its period would be lost
			}
			if e, ok := index[m.Dst]; ok && m.Src == "http.Get" && !strings.HasPrefix(m.Path, "/CA/") {
				mu.Lock()
				defer mu.Unlock()
				k := [2]int{e, period(m.At)}
				count[k]++
				f.Drop = lost[[3]int{e, k[1], count[k]}]
			} else if dup > 0 && i%dup == 0 && strings.HasPrefix(m.Path, "/gossip") {
				f.Dup = time.Duration(1+i%2000) * time.Millisecond
			}
			return f
		}
		// loggers and CAs start, a period later gossipers and monitors
		for l := range w.L {
			startTask(func() { Logger.PeriodicTask(slotsL[l].ctx) })
		}
		time.Sleep(time.Second)
		for i := range w.C {
			go CA.PeriodicTask(slotsC[i].ctx)
		}
		go func() {
			for _, r := range revs {
				time.Sleep(time.Until(begin.Add(time.Duration(r.at) * time.Millisecond)))
				slotsC[r.ca].ctx.CRV.Revoke(r.id)
			}
		}()
		type issued struct {
			cert *x509.Certificate
			ca   int
			p    int
		}
		certs := []issued{}
		gather := func(p int) {
			time.Sleep(time.Until(begin.Add(time.Duration(p*60)*time.Second + 40*time.Second + 700*time.Millisecond)))
			for i := range w.C {
				for _, x := range CA.SignAllCerts(slotsC[i].ctx) {
					certs = append(certs, issued{x, i, p})
				}
			}
		}
		gather(0)
		time.Sleep(time.Until(begin.Add(time.Minute)))
		gs, ms := make([]*gossiper.GossiperContext, n), make([]*monitor.MonitorContext, n)
		live := []int{}
		for i := 0; i < n; i++ {
			if dead[i] {
				continue
			}
			live = append(live, i)
			gs[i], ms[i] = nw.gossiper(w, i, wait, dir), nw.monitor(w, i, wait, dir)
			peers := []string{}
			switch shape {
			case "ring", "line":
				for j := range w.G {
					d := i - j
					if d == 1 || d == -1 || shape == "ring" && n > 2 && (d == n-1 || d == 1-n) {
						peers = append(peers, w.G[j])
					}
				}
				gs[i].Gossiper_private_config.Connected_Gossipers = peers
			}
		}
		for _, i := range live {
			startTask(func() { gossiper.PeriodicTasks(gs[i]) })
		}
		for _, i := range live {
			startTask(func() { monitor.PeriodicTasks(ms[i]) })
		}
		convicted := map[string]string{}
		known := make([]map[string]map[string]bool, n) // monitor -> logger@period -> root, from its updates
		poms := make([]map[string]bool, n)
		crv := make([]map[string]*bitset.BitSet, n)
		for _, i := range live {
			known[i], poms[i], crv[i] = map[string]map[string]bool{}, map[string]bool{}, map[string]*bitset.BitSet{}
		}
		for p := 1; p <= periods && !c.Failed(); p++ {
			gather(p)
			time.Sleep(time.Until(begin.Add(time.Duration(p*60+42) * time.Second)))
			updates := make([]*monitor.ClientUpdate, n)
			for _, i := range live {
				u, _, err := updateOf(ms[i], (minute+p)%60)
				if err != nil {
					c.Errorf("minute %d: monitor %d has no update: %v", minute+p, i, err)
					return
				}
				updates[i] = u
			}
			for e, id := range ents {
				mu.Lock()
				ans := answers[[2]int{e, p}]
				asked := count[[2]int{e, p}] > 0
				mu.Unlock()
				what := []string{"silent", "one statement", "split world"}[min(len(ans), 2)]
				if !asked && convicted[id] == "" {
					c.Errorf("minute %d: nobody asked %s", minute+p, id)
				}
				drops := false
				for k := range lost {
					drops = drops || k[0] == e && k[1] == p
				}
				if kinds[e] == 0 && convicted[id] == "" && !drops && len(ans) != 1 {
					c.Errorf("minute %d: the honest %s gave %d statements", minute+p, id, len(ans))
				}
				before := convicted[id]
				if before == "" {
					class(what)
				} else {
					class("convicted before: " + before)
				}
				for _, i := range live {
					u := updates[i]
					fulls, cons, accs := []definition.Gossip_object{}, 0, 0
					for _, o := range append(append([]definition.Gossip_object{}, u.STHs...), u.REVs...) {
						if o.Payload[0] == id {
							fulls = append(fulls, o)
						}
					}
					for _, o := range u.POM_CONs {
						if o.Payload[0] == id {
							cons++
						}
					}
					for _, o := range u.POM_ACCs {
						if o.Payload[0] == id {
							accs++
						}
					}
					tell := func(s string, args ...any) {
						c.Errorf("minute %d, %s (kind %d every %d, %s, convicted before: %q), update of monitor %d: %s", minute+p, id, kinds[e], interval[e], what, before, i, fmt.Sprintf(s, args...))
					}
					switch {
					case before != "":
						if len(fulls) > 0 {
							tell("%d certified statements of a convicted entity", len(fulls))
						}
					case len(ans) == 0:
						convicted[id] = "silent"
						if accs != 1 || cons > 0 || len(fulls) > 0 {
							tell("%d proofs of silence, %d of conflicts, %d certified statements", accs, cons, len(fulls))
						}
					case len(ans) == 1:
						if accs > 0 || cons > 0 || len(fulls) != 1 {
							tell("%d proofs of silence, %d of conflicts, %d certified statements", accs, cons, len(fulls))
						} else if ans[msgOf(fulls[0])].Payload[0] == "" || fulls[0].Period != p2(minute+p) {
							tell("another statement is certified: %s", short(fulls[0]))
						}
					default:
						convicted[id] = "split world"
						if cons != 1 || len(fulls) > 0 {
							tell("%d proofs of conflicts, %d certified statements", cons, len(fulls))
						}
					}
				}
			}
			// the clients
			for _, i := range live {
				u := updates[i]
				for _, l := range [][]definition.Gossip_object{u.STHs, u.REVs, u.POM_CONs, u.POM_ACCs} {
					for _, o := range l {
						if ok, why := w.authentic(o); !ok {
							c.Errorf("minute %d: the update of monitor %d holds an object that %s: %s", minute+p, i, why, short(o))
						}
					}
				}
				for _, o := range u.STHs {
					k := o.Payload[0] + "@" + o.Period
					if known[i][k] == nil {
						known[i][k] = map[string]bool{}
					}
					s, _ := sthOf(o)
					known[i][k][s.RootHash] = true
				}
				for _, o := range u.REVs {
					if crv[i][o.Payload[0]] == nil {
						crv[i][o.Payload[0]] = bitset.New(0)
					}
					crv[i][o.Payload[0]].InPlaceUnion(deltaOf(o))
				}
				for _, o := range append(append([]definition.Gossip_object{}, u.POM_CONs...), u.POM_ACCs...) {
					poms[i][o.Payload[0]] = true
				}
				if !clients[i].HandleUpdate(*u, true, false) {
					c.Errorf("minute %d: the client of monitor %d refuses its update", minute+p, i)
				}
			}
			for _, x := range certs {
				rid := CA.GetRIDfromCert(x.cert)
				ext := CA.ParseCTngextension(x.cert)
				if len(ext.LoggerInformation) != nL {
					c.Errorf("a certificate of minute %d has %d log entries of %d", minute+x.p, len(ext.LoggerInformation), nL)
				}
				decisions := map[bool]bool{}
				for _, i := range live {
					proven := false
					for _, in := range ext.LoggerInformation {
						s, _ := sthOf(in.STH)
						k := in.STH.Payload[0] + "@" + in.STH.Period
						proven = proven || known[i][k][s.RootHash] && !poms[i][in.STH.Payload[0]]
					}
					vec := crv[i][w.C[x.ca]]
					want := proven && vec != nil && !vec.Test(uint(rid))
					got := clients[i].VerifyCTngextension(x.cert)
					if got != want {
						c.Errorf("minute %d: the client of monitor %d says %v to a certificate of minute %d, number %d (proven %v, revoked %v)", minute+p, i, got, minute+x.p, rid, proven, some(vec))
					}
					decisions[got] = true
					// in a world without faults the decision follows from what was done
					ca := nL + x.ca
					honest := kinds[ca] == 0 && convicted[ents[ca]] == ""
					for l := 0; l < nL; l++ {
						honest = honest && kinds[l] == 0 && convicted[ents[l]] == ""
					}
					if honest {
						revoked := false
						for _, r := range revs {
							revoked = revoked || r.ca == x.ca && r.id == rid && r.at < (p-1)*60000+41000
						}
						if got != (x.p < p && !revoked) {
							c.Errorf("minute %d: the client of monitor %d says %v to a certificate of minute %d, number %d, revoked %v, of honest parties", minute+p, i, got, minute+x.p, rid, revoked)
						}
						class(fmt.Sprintf("certificate logged=%v revoked=%v", x.p < p, revoked))
					}
				}
				if len(decisions) > 1 {
					c.Errorf("minute %d: the clients disagree on a certificate of minute %d", minute+p, minute+x.p)
				}
			}
		}
	})
}
