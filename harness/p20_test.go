package ctngverif

// P20: in every period an honest CA or logger has one statement for that
// period, correctly labelled, and gives it to everybody who asks.

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/bits-and-blooms/bitset"
	"github.com/jik18001/CTngV2/CA"
	"github.com/jik18001/CTngV2/Logger"
	"github.com/jik18001/CTngV2/definition"
	"pgregory.net/rapid"
)

func TestP20Serving(t *testing.T) {
	slots(t, 0, 0, 1, 1)
	check(t, 110, func(rt *rapid.T, c *Case) {
		w := newWorld(rapid.IntRange(0, 3).Draw(rt, "naming"), 2, 1, 1, 2)
		minute := rapid.OneOf(rapid.IntRange(0, 59), rapid.SampledFrom([]int{57, 58, 59, 8, 9})).Draw(rt, "minute")
		periods := rapid.IntRange(2, 5).Draw(rt, "periods")
		if pick(rt, "long", 25, 1) == 1 {
			periods = rapid.IntRange(61, 64).Draw(rt, "many periods")
		}
		lat := rapid.SampledFrom([][2]int{{0, 0}, {0, 0}, {0, 290}, {100, 900}, {0, 2500}}).Draw(rt, "latency")
		at := rapid.Custom(func(rt *rapid.T) int {
			p := rapid.IntRange(0, periods-1).Draw(rt, "period")
			if periods > 20 {
				p = rapid.OneOf(rapid.IntRange(0, periods-1), rapid.IntRange(0, 3), rapid.IntRange(59, periods-1), rapid.IntRange(60, periods-1)).Draw(rt, "period")
			}
			return p*60000 + rapid.OneOf(rapid.IntRange(0, 59999), rapid.SampledFrom([]int{0, 1, 39999, 40001, 40999, 41001, 59999, 50000})).Draw(rt, "ms")
		})
		qs := []query{}
		for i, n := 0, rapid.IntRange(1, 20).Draw(rt, "queries"); i < n; i++ {
			qs = append(qs, query{at.Draw(rt, "at"), rapid.IntRange(0, 1).Draw(rt, "whom")})
		}
		if periods > 20 { // the labels of the first hour again
			for p := 60; p < periods; p++ {
				qs = append(qs, query{p*60000 + 30000, 0}, query{p*60000 + 30500, 1})
			}
		}
		revs := []revocation{}
		for i, n := 1, rapid.IntRange(0, 8).Draw(rt, "revocations"); i <= n; i++ {
			a := at.Draw(rt, "at")
			if a%1000 == 0 {
				a++ // not at the moment of publication
			}
			revs = append(revs, revocation{a, 0, rapid.OneOf(rapid.IntRange(0, 9), rapid.IntRange(0, 999999)).Draw(rt, "id")})
		}
		sort.Slice(revs, func(i, j int) bool { return revs[i].at < revs[j].at })
		certs := []int{}
		for i, n := 0, rapid.IntRange(0, 5).Draw(rt, "precertificates"); i < n; i++ {
			a := at.Draw(rt, "at")
			if a%1000 == 0 {
				a++
			}
			certs = append(certs, a)
		}
		sort.Ints(certs)
		c.Describe("minute %d, %d periods, latency %v, revocations {ms CA id} %v, precertificates at %v, queries %v", minute, periods, lat, revs, certs, qs)
		for _, q := range qs {
			if q.at >= 60000 {
				c.NonTrivial(fmt.Sprint(minute, periods, lat, revs, certs, qs))
			}
		}
		if periods > 20 {
			class("more than an hour")
		}
		pre := []*precert{}
		for i := range certs {
			pre = append(pre, w.precert(w.C[0], fmt.Sprintf("Testing Dummy %d", i), i))
		}
		dir := scratch()
		replies := make([]*reply, len(qs))
		bubble(t, c, minute, 0, func() {
			begin := time.Now()
			nw := newNet(c)
			lg := nw.logger(w, 0, dir)
			ca := nw.ca(w, 0, 0, dir)
			ca.RevocationRatio = 0
			nw.hosts[w.G[0]] = sink
			lg.Max_latency, lg.Min_latency = lat[1], lat[0]
			ca.Max_latency, ca.Min_latency = lat[1], lat[0]
			var wg sync.WaitGroup
			ask(nw, w, begin, qs, &wg, replies)
			wg.Add(2)
			go func() {
				defer wg.Done()
				for _, r := range revs {
					time.Sleep(time.Until(begin.Add(time.Duration(r.at) * time.Millisecond)))
					ca.CRV.Revoke(r.id)
				}
			}()
			go func() {
				defer wg.Done()
				for i, a := range certs {
					time.Sleep(time.Until(begin.Add(time.Duration(a) * time.Millisecond)))
					nw.post(w.L[0], "/Logger/receive-precerts", pre[i].raw)
				}
			}()
			startTask(func() { Logger.PeriodicTask(lg) })
			time.Sleep(time.Second)
			startTask(func() { CA.PeriodicTask(ca) })
			wg.Wait()
			time.Sleep(time.Until(begin.Add(time.Duration(periods)*time.Minute + 5*time.Second)))
			// the revocation of each minute
			after := make([]*bitset.BitSet, periods+1)
			for p := range after {
				after[p] = bitset.New(0)
				for _, r := range revs {
					if r.at < p*60000-60000+41000 {
						after[p].Set(uint(r.id))
					}
				}
			}
			seen := map[string][]byte{}
			for _, r := range replies {
				if d := r.got - r.sent; lat[1] > 0 && (d < time.Duration(lat[0])*time.Millisecond || d >= time.Duration(lat[1])*time.Millisecond) {
					c.Errorf("query %v is answered after %v, the latency is between %d and %d ms", r.query, d, lat[0], lat[1])
				} else if lat[1] == 0 && d > 0 {
					c.Errorf("query %v is answered after %v", r.query, d)
				}
				p := int(r.got / time.Minute)
				if p == 0 || p > periods {
					// nothing is published for the first minute
					var o definition.Gossip_object
					if r.err != nil {
						c.Errorf("query %v: no answer: %v", r.query, r.err)
					}
					json.Unmarshal(r.body, &o)
					if ok, _ := w.authentic(o); ok && p == 0 {
						c.Errorf("query %v in the first minute is answered by %s", r.query, clip(string(r.body), 300))
					}
					continue
				}
				o, ok := w.statement(c, r, minute+p)
				if !ok {
					continue
				}
				k := fmt.Sprint(p, " ", r.whom)
				if seen[k] != nil && string(seen[k]) != string(r.body) {
					c.Errorf("query %v is answered by %s, before in this minute by %s", r.query, clip(string(r.body), 400), clip(string(seen[k]), 400))
				}
				seen[k] = r.body
				if r.whom == 1 {
					want := after[p].SymmetricDifference(after[p-1])
					if d := deltaOf(o); d == nil || !d.SymmetricDifference(want).None() {
						c.Errorf("query %v: the CA publishes %v as revoked, since the last time %v was", r.query, some(d), some(want))
					}
				} else {
					s, err := sthOf(o)
					if err != nil {
						c.Errorf("query %v: no tree head: %v", r.query, err)
						continue
					}
					subjects := []string{}
					for i, a := range certs {
						if a > p*60000-120000+40000 && a < p*60000-60000+40000 {
							subjects = append(subjects, pre[i].subject)
						}
					}
					if want := merkle(subjects); s.TreeSize != len(subjects) && (len(subjects) > 0 || s.TreeSize > 1) || len(subjects) > 0 && s.RootHash != fmt.Sprintf("%x", want.root()) {
						c.Errorf("query %v: the tree head %+v is not that of the %d precertificates %v", r.query, s, len(subjects), subjects)
					}
					// the same as the CA got
					for _, m := range nw.sent(func(m *Msg) bool { return m.Src == w.L[0] && strings.HasPrefix(m.Path, "/CA/receive-sth") }) {
						if int(m.At.Sub(begin)/time.Minute) == p-1 && string(js(objOf(m))) != string(js(o)) {
							c.Errorf("query %v: the logger gives %s, the CA got %s", r.query, short(o), short(objOf(m)))
						}
					}
				}
			}
		})
	})
}
