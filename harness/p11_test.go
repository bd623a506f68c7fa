package ctngverif

// P11: revocation. What a CA revokes is what monitors and clients know after
// the next update, and nothing else is; tampered or missing updates are noticed.

import (
	"encoding/json"
	"fmt"
	"io"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/bits-and-blooms/bitset"
	"github.com/jik18001/CTngV2/CA"
	"github.com/jik18001/CTngV2/definition"
	"github.com/jik18001/CTngV2/monitor"
	"pgregory.net/rapid"
)

// A real CA, a real monitor and a real client over several periods.
func TestP11EndToEnd(t *testing.T) {
	slots(t, 0, 1, 0, 2)
	check(t, 45, func(rt *rapid.T, c *Case) {
		w := newWorld(rapid.IntRange(0, 3).Draw(rt, "naming"), 3, 1, 2, 2)
		periods := rapid.IntRange(2, 5).Draw(rt, "periods")
		minute := rapid.OneOf(rapid.IntRange(0, 59), rapid.SampledFrom([]int{56, 58, 59, 9})).Draw(rt, "minute")
		ratio := rapid.SampledFrom([]float64{0, 0, 0.0002, 0.001}).Draw(rt, "ratio")
		revs := []revocation{}
		for i, n := 1, rapid.IntRange(0, 14).Draw(rt, "revocations"); i <= n; i++ {
			id := rapid.OneOf(rapid.IntRange(0, 12), rapid.IntRange(0, 999999), rapid.SampledFrom([]int{0, 1, 63, 64, 999999, 1000000, 1000063, 1000064, 1200000})).Draw(rt, "id")
			revs = append(revs, revocation{rapid.IntRange(0, periods*600-1).Draw(rt, "at")*100 + i, rapid.IntRange(0, 1).Draw(rt, "ca"), id})
		}
		sort.Slice(revs, func(i, j int) bool { return revs[i].at < revs[j].at })
		c.Describe("minute %d, %d periods, mass revocation of %g, revocations {ms CA id} %v", minute, periods, ratio, revs)
		if len(revs) > 0 {
			c.NonTrivial(fmt.Sprint(minute, periods, ratio, revs))
		}
		class(fmt.Sprintf("mass revocation %g", ratio))
		dir := scratch()
		bubble(t, c, minute, 0, func() {
			begin := time.Now()
			nw := newNet(c)
			defer nw.install()()
			nw.hosts[w.L[0]] = sink
			nw.hosts[w.G[0]] = sink
			cas := []*CA.CAContext{}
			for i := range w.C {
				ca := nw.ca(w, i, 0, dir)
				ca.RevocationRatio = ratio
				cas = append(cas, ca)
			}
			mon := nw.monitor(w, 0, 5, dir)
			mon.Monitor_private_config.Logger_URLs = nil
			cli := w.newClient(clientDir(dir), "NEW")
			go func() {
				for _, r := range revs {
					time.Sleep(time.Until(begin.Add(time.Duration(r.at) * time.Millisecond)))
					cas[r.ca].CRV.Revoke(r.id)
				}
			}()
			time.Sleep(time.Second)
			for _, ca := range cas {
				startTask(func() { CA.PeriodicTask(ca) })
			}
			published := make([]*bitset.BitSet, len(cas)) // after the last publication
			lastPublished := make([]*bitset.BitSet, len(cas))
			for p := 0; p <= periods; p++ {
				// shortly after the CAs made the revocation of the next period
				time.Sleep(time.Until(begin.Add(time.Duration(p*60+41)*time.Second + 50*time.Microsecond)))
				if p > 0 {
					// the update of this period, with what the CAs published before
					u, _, err := updateOf(mon, (minute+p)%60)
					if err != nil {
						c.Errorf("no update on disk for minute %d: %v", minute+p, err)
						return
					}
					if len(u.REVs) != len(cas) {
						c.Errorf("the update of minute %d holds %d revocations of %d CAs", minute+p, len(u.REVs), len(cas))
					}
					if !cli.HandleUpdate(*u, true, false) {
						c.Errorf("the client rejects the update of minute %d", minute+p)
						return
					}
					for i, id := range w.C {
						have := cli.CRV_database[id]
						if have == nil || !have.SymmetricDifference(published[i]).None() {
							c.Errorf("after the update of minute %d the client has %v as revoked by %s, which revoked %v", minute+p, some(have), id, some(published[i]))
						}
						for _, r := range revs {
							if r.ca == i && r.at < (p-1)*60000+41000 && (have == nil || !have.Test(uint(r.id))) {
								c.Errorf("certificate %d of %s was revoked %d ms after the start, the client does not know after minute %d", r.id, id, r.at, minute+p)
							}
						}
					}
					crv, err := crvOf(mon)
					for i, id := range w.C {
						if err != nil || crv[id] == nil || !crv[id].SymmetricDifference(published[i]).None() {
							c.Errorf("minute %d: the monitor keeps %v as revoked by %s, which revoked %v (%v)", minute+p, some(crv[id]), id, some(published[i]), err)
						}
					}
				}
				if p == periods {
					break
				}
				if p == 0 {
					// the monitor starts with the next period
					go func() {
						time.Sleep(time.Until(begin.Add(60 * time.Second)))
						startTask(func() { monitor.PeriodicTasks(mon) })
					}()
				}
				for i := range cas {
					now := cas[i].CRV.CRV_current.Clone()
					if ratio == 0 {
						// exactly what was revoked
						want := bitset.New(0)
						for _, r := range revs {
							if r.ca == i && r.at < p*60000+41000 {
								want.Set(uint(r.id))
							}
						}
						if fmt.Sprint(members(now)) != fmt.Sprint(members(want)) {
							c.Errorf("%s holds %v as revoked, revoked were %v", w.C[i], some(now), some(want))
						}
					}
					published[i] = now
				}
				// half a minute into the next period the revocations are certified
				time.Sleep(time.Until(begin.Add(time.Duration(p*60+66) * time.Second)))
				for i, id := range w.C {
					resp, err := nw.get(id, "/ctng/v2/get-revocation/", nil)
					if err != nil || resp.StatusCode != 200 {
						c.Errorf("%s does not answer: %v", id, err)
						return
					}
					var o definition.Gossip_object
					b, _ := io.ReadAll(resp.Body)
					json.Unmarshal(b, &o)
					if ok, why := w.authentic(o); !ok || o.Type != definition.REV_INIT || o.Period != p2(minute+p+1) {
						c.Errorf("%s publishes in minute %d an object that %s: %s", id, minute+p+1, why, clip(string(b), 300))
						return
					}
					want := published[i]
					if p > 0 {
						want = want.Difference(lastPublished[i])
					}
					if got := deltaOf(o); got == nil || !got.SymmetricDifference(want).None() {
						c.Errorf("the delta %s publishes for minute %d is %v, new are %v", id, minute+p+1, some(got), some(want))
					}
					lastPublished[i] = published[i].Clone()
					forwarded := nw.sent(func(m *Msg) bool {
						return m.Src == w.M[0] && m.Path == "/gossip/rev_init" && objOf(m).Payload[0] == id
					})
					if len(forwarded) != p+1 {
						c.Errorf("the monitor passed on %d of %d revocations of %s", len(forwarded), p+1, id)
					}
					nw.post(w.M[0], "/monitor/receive-gossip-from-gossiper", js(w.full(w.G[:2], o, minute+p+1)))
				}
			}
			if acc := nw.sent(func(m *Msg) bool { return m.Path == "/gossip/acc_init" }); len(acc) > 0 {
				c.Errorf("the monitor accuses a correct CA: %s", acc[0].Body)
			}
		})
	})
}

// A client that is offered a chain of revocation updates in which some are
// missing, repeated or tampered with.
func TestP11Chain(t *testing.T) {
	check(t, 650, func(rt *rapid.T, c *Case) {
		w := newWorld(rapid.IntRange(0, 3).Draw(rt, "naming"), 3, 1, 2, 2)
		minute := rapid.IntRange(0, 59).Draw(rt, "minute")
		n := rapid.IntRange(1, 6).Draw(rt, "periods")
		size := uint(rapid.SampledFrom([]int{64, 100, 130, 1000}).Draw(rt, "size"))
		type step struct {
			delta, after *bitset.BitSet
			obj          definition.Gossip_object
		}
		chain := []step{}
		after := bitset.New(size)
		for p := 0; p < n; p++ {
			delta := bitset.New(size)
			for _, i := range rapid.SliceOfN(rapid.IntRange(0, int(size)-1), 0, 4).Draw(rt, "revoked") {
				if !after.Test(uint(i)) {
					delta.Set(uint(i))
				}
			}
			after = after.Union(delta)
			chain = append(chain, step{delta, after, w.full(w.G[:2], w.rev(w.C[0], minute+p, after, delta), minute+p)})
		}
		cli := w.newClient(clientDir(workDir), "NEW")
		var have *bitset.BitSet
		desc := []string{}
		rejected := 0
		for i, ops := 0, rapid.IntRange(1, 10).Draw(rt, "ops"); i < ops; i++ {
			p := rapid.IntRange(0, n-1).Draw(rt, "which")
			if rapid.IntRange(0, 2).Draw(rt, "order") > 0 {
				p = min(i, n-1)
			}
			s := chain[p]
			o := s.obj
			verify := rapid.Bool().Draw(rt, "verify")
			tamper := rapid.SampledFrom([]string{"", "", "", "extra bit", "missing bit", "other delta and hash of it", "srh of another period", "srh of another CA", "srh of another CA in this name", "relabelled", "no srh", "garbage srh", "other CA's", "short hash"}).Draw(rt, "tamper")
			ok := true
			switch tamper {
			case "extra bit":
				d := s.delta.Clone()
				free := uint(0)
				for d.Test(free) {
					free++
				}
				d.Set(free)
				o = w.full(w.G[:2], w.revWithSRH(w.C[0], minute+p, d, w.srh(w.C[0], minute+p, s.after, s.delta)), minute+p)
				ok = false
			case "missing bit":
				i, some := s.delta.NextSet(0)
				if !some {
					tamper = ""
					break
				}
				d := s.delta.Clone()
				d.Clear(i)
				o = w.full(w.G[:2], w.revWithSRH(w.C[0], minute+p, d, w.srh(w.C[0], minute+p, s.after, s.delta)), minute+p)
				ok = false
			case "other delta and hash of it": // signed by the CA, but not what follows from the chain
				d := s.delta.Clone()
				free := uint(0)
				for s.after.Test(free) && free < size-1 {
					free++
				}
				if s.after.Test(free) {
					tamper = ""
					break
				}
				d.Set(free)
				o = w.full(w.G[:2], w.rev(w.C[0], minute+p, s.after, d), minute+p)
				ok = false
			case "srh of another period":
				o = w.full(w.G[:2], w.revWithSRH(w.C[0], minute+p, s.delta, w.srh(w.C[0], minute+p+1, s.after, s.delta)), minute+p)
				ok = false
			case "srh of another CA":
				o = w.full(w.G[:2], w.revWithSRH(w.C[0], minute+p, s.delta, w.srh(w.C[1], minute+p, s.after, s.delta)), minute+p)
				ok = false
			case "srh of another CA in this name":
				srh := rsaSigString(rsaRaw(w.rsa[w.C[1]], string(sha([]byte(p2(minute+p)+string(sha(mb(s.after)))+string(sha(mb(s.delta))))))), w.C[0])
				o = w.full(w.G[:2], w.revWithSRH(w.C[0], minute+p, s.delta, srh), minute+p)
				ok = false
			case "relabelled":
				o.Period = p2(minute + p + 1)
				ok = false
			case "no srh":
				o = w.full(w.G[:2], w.revWithSRH(w.C[0], minute+p, s.delta, ""), minute+p)
				ok = false
			case "garbage srh":
				o = w.full(w.G[:2], w.revWithSRH(w.C[0], minute+p, s.delta, `{"sig":"00","id":"`+w.C[0]+`"}`), minute+p)
				ok = false
			case "other CA's":
				o.Payload[0] = w.C[1]
				o = w.full(w.G[:2], definition.Gossip_object{Type: definition.REV_INIT, Payload: o.Payload}, minute+p)
				ok = false
			case "short hash":
				srh := w.rsaSig(w.C[0], string(sha([]byte(p2(minute+p)+string(sha(mb(s.after)))))))
				o = w.full(w.G[:2], w.revWithSRH(w.C[0], minute+p, s.delta, srh), minute+p)
				ok = false
			}
			next := s.delta
			if have != nil {
				next = have.Union(s.delta)
			}
			if ok && !next.Equal(s.after) {
				ok = false // something before it is missing
				tamper = "gap"
			}
			// sometimes the revocations of the next periods came late and are in the same update
			objs, extra := []definition.Gossip_object{o}, 0
			if ok && percent(rt, "several", 20) {
				for p+extra+1 < n && extra < 2 {
					extra++
					objs = append(objs, chain[p+extra].obj)
				}
				if extra > 0 {
					next = chain[p+extra].after
					class("several periods in one update")
				}
			}
			desc = append(desc, fmt.Sprintf("offer period %d and %d more %s (verify %v)", p, extra, tamper, verify))
			before := fmt.Sprint(members(have))
			got := cli.HandleUpdate(updateFrom(w.M[0], minute+p, objs...), verify, false)
			if ok {
				have = next.Clone()
				class("accepted")
			} else {
				rejected++
				class("rejected: " + tamper)
			}
			c.Describe("%d periods, deltas %v: %s", n, func() (l []string) {
				for _, s := range chain {
					l = append(l, some(s.delta))
				}
				return
			}(), strings.Join(desc, "; "))
			if got != ok {
				c.Errorf("step %d: the client accepts: %v, has to: %v", i, got, ok)
				return
			}
			if cli.CRV_database[w.C[1]] != nil {
				c.Errorf("the client has a vector of a CA that published nothing")
			}
			if fmt.Sprint(members(cli.CRV_database[w.C[0]])) != fmt.Sprint(members(have)) {
				c.Errorf("step %d (accepted: %v): the client has %v, before %s, has to have %v", i, got, some(cli.CRV_database[w.C[0]]), before, some(have))
				return
			}
		}
		if rejected > 0 || have != nil {
			c.NonTrivial(fmt.Sprint(n, size, desc, some(after)))
		}
	})
}
