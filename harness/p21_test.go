package ctngverif

// P21: loggers and CAs that are set up to misbehave do so exactly as their
// kind says, and what they tell in a split world is a provable conflict.

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/bits-and-blooms/bitset"
	"github.com/jik18001/CTngV2/CA"
	"github.com/jik18001/CTngV2/Logger"
	"github.com/jik18001/CTngV2/definition"
	"github.com/jik18001/CTngV2/util"
	"pgregory.net/rapid"
)

// kinds: what the k-th query of a period gets in the period in which the entity has been online for so many periods before.
func misbehaviour(kind, k, interval, online int) string {
	nth := k%interval == 0
	switch kind {
	case 0:
		return "real"
	case 1, 4:
		if nth && online == 1 {
			return "other"
		}
	case 2:
		return "nothing"
	case 3:
		if nth || online == 1 {
			return "nothing"
		}
	case 5:
		if online == 1 {
			return "nothing"
		}
	case 6:
		if nth && online == 1 {
			return "nothing"
		}
	}
	return "real"
}

func TestP21Modes(t *testing.T) {
	slots(t, 0, 0, 1, 1)
	check(t, 110, func(rt *rapid.T, c *Case) {
		w := newWorld(rapid.IntRange(0, 3).Draw(rt, "naming"), 2, 1, 1, 2)
		minute := rapid.OneOf(rapid.IntRange(0, 59), rapid.SampledFrom([]int{57, 58, 59, 9})).Draw(rt, "minute")
		periods := rapid.SampledFrom([]int{2, 3, 3, 4, 5, 7, 11}).Draw(rt, "periods")
		kinds := [2]int{rapid.IntRange(0, 6).Draw(rt, "logger kind"), rapid.IntRange(0, 6).Draw(rt, "CA kind")}
		interval := [2]int{rapid.IntRange(1, 4).Draw(rt, "logger interval"), rapid.IntRange(1, 4).Draw(rt, "CA interval")}
		lat := rapid.SampledFrom([][2]int{{0, 0}, {0, 290}, {50, 60}}).Draw(rt, "latency")
		ratio := rapid.SampledFrom([]float64{0, 0, 0.001}).Draw(rt, "ratio")
		qs := []query{}
		for p := 1; p < periods; p++ {
			for whom := 0; whom < 2; whom++ {
				if percent(rt, "quiet", 15) {
					continue
				}
				for i, n := 0, rapid.IntRange(1, 7).Draw(rt, "queries"); i < n; i++ {
					// not around the publication and the end of the period, where the latency would matter
					ms := rapid.OneOf(rapid.IntRange(500, 39000), rapid.IntRange(500, 39000), rapid.IntRange(42000, 59000)).Draw(rt, "ms")
					qs = append(qs, query{p*60000 + ms, whom})
				}
			}
		}
		sort.SliceStable(qs, func(i, j int) bool { return qs[i].at < qs[j].at })
		revs := []int{}
		for i, n := 0, rapid.IntRange(0, 8).Draw(rt, "revocations"); i < n; i++ {
			revs = append(revs, rapid.OneOf(rapid.IntRange(0, 9), rapid.IntRange(1, 3), rapid.IntRange(0, 999999)).Draw(rt, "id"))
		}
		revAt := rapid.SliceOfN(rapid.IntRange(0, (periods-1)*600-1), len(revs), len(revs)).Draw(rt, "at")
		pre := []*precert{}
		for i, n := 0, rapid.IntRange(0, 3).Draw(rt, "precertificates"); i < n; i++ {
			pre = append(pre, w.precert(w.C[0], fmt.Sprintf("Testing Dummy %d", i), i))
		}
		c.Describe("minute %d, %d periods, logger of kind %d every %d, CA of kind %d every %d, latency %v, mass revocation %g, revoked %v at %v, %d precertificates, queries %v", minute, periods, kinds[0], interval[0], kinds[1], interval[1], lat, ratio, revs, revAt, len(pre), qs)
		if kinds[0]+kinds[1] > 0 && len(qs) > 0 {
			c.NonTrivial(fmt.Sprint(minute, periods, kinds, interval, lat, ratio, revs, revAt, len(pre), qs))
		}
		class(fmt.Sprintf("logger kind %d", kinds[0]))
		class(fmt.Sprintf("CA kind %d", kinds[1]))
		dir := scratch()
		replies := make([]*reply, len(qs))
		bubble(t, c, minute, 0, func() {
			begin := time.Now()
			nw := newNet(c)
			lg := nw.logger(w, 0, dir)
			ca := nw.ca(w, 0, 0, dir)
			ca.RevocationRatio = ratio
			lg.Max_latency, lg.Min_latency = lat[1], lat[0]
			ca.Max_latency, ca.Min_latency = lat[1], lat[0]
			lg.Logger_Type, ca.CA_Type = kinds[0], kinds[1]
			lg.MisbehaviorInterval, ca.MisbehaviorInterval = interval[0], interval[1]
			var wg sync.WaitGroup
			ask(nw, w, begin, qs, &wg, replies)
			for i, id := range revs {
				i, id := i, id
				wg.Add(1)
				go func() {
					defer wg.Done()
					time.Sleep(time.Until(begin.Add(time.Duration(revAt[i]*100+10+i) * time.Millisecond)))
					ca.CRV.Revoke(id)
				}()
			}
			for _, x := range pre {
				nw.post(w.L[0], "/Logger/receive-precerts", x.raw)
			}
			startTask(func() { Logger.PeriodicTask(lg) })
			time.Sleep(time.Second)
			startTask(func() { CA.PeriodicTask(ca) })
			wg.Wait()
			time.Sleep(time.Until(begin.Add(time.Duration(periods) * time.Minute)))
			for whom := 0; whom < 2; whom++ {
				// the queries between two publications are counted together
				online := 0
				for window := 0; window <= periods; window++ {
					in := func(r *reply) bool {
						return r.whom == whom && r.got >= time.Duration(window*60-20)*time.Second && r.got < time.Duration(window*60+40)*time.Second
					}
					want, got, n := map[string]int{}, map[string]int{}, 0
					for _, r := range replies {
						if !in(r) {
							continue
						}
						n++
						want[misbehaviour(kinds[whom], n, interval[whom], online)]++
					}
					for p := window - 1; p <= window; p++ {
						var real, other string
						versions := map[string]int{}
						for _, r := range replies {
							if in(r) && int(r.got/time.Minute) == p {
								if r.err != nil {
									c.Errorf("query %v: no answer: %v", r.query, r.err)
									continue
								}
								if len(strings.TrimSpace(string(r.body))) == 0 {
									got["nothing"]++
									continue
								}
								if _, ok := w.statement(c, r, minute+p); ok {
									versions[string(r.body)]++
								}
							}
						}
						if len(versions) > 2 {
							c.Errorf("%s tells %d different things in minute %d", []string{"the logger", "the CA"}[whom], len(versions), minute+p)
						}
						// the real one: what is stored as such, or for the logger what it sent the CA
						for v := range versions {
							var o, stored definition.Gossip_object
							json.Unmarshal([]byte(v), &o)
							if whom == 0 {
								for _, m := range nw.sent(func(m *Msg) bool { return m.Src == w.L[0] && strings.HasPrefix(m.Path, "/CA/receive-sth") }) {
									if int(m.At.Sub(begin)/time.Minute) == p-1 {
										stored = objOf(m)
									}
								}
							} else {
								stored = ca.REV_storage[p2(minute+p)]
							}
							if string(js(stored)) == string(js(o)) {
								real = v
								got["real"] += versions[v]
							} else {
								other = v
								got["other"] += versions[v]
							}
						}
						if other != "" && real != "" {
							var a, b definition.Gossip_object
							json.Unmarshal([]byte(real), &a)
							json.Unmarshal([]byte(other), &b)
							if ok, why := w.authentic(w.con(a, b, minute+p)); !ok {
								c.Errorf("minute %d: the two statements are no conflict: %s\n%s\n%s", minute+p, why, clip(real, 500), clip(other, 500))
							}
							class("split world")
						}
					}
					if fmt.Sprint(want) != fmt.Sprint(got) {
						c.Errorf("%s of kind %d every %d, online for %d periods: %d queries from %d s on are answered by %v, have to be by %v", []string{"a logger", "a CA"}[whom], kinds[whom], interval[whom], online, n, window*60-20, got, want)
					}
					if n > 0 {
						online++
					}
				}
			}
		})
	})
}

// What a split-world entity has ready as the other statement is always a
// genuine statement for the same period that conflicts with the first.
func TestP21Conflict(t *testing.T) {
	slots(t, 0, 0, 1, 1)
	check(t, 110, func(rt *rapid.T, c *Case) {
		w := newWorld(rapid.IntRange(0, 3).Draw(rt, "naming"), 2, 1, 1, 2)
		minute := rapid.IntRange(0, 59).Draw(rt, "minute")
		periods := rapid.IntRange(1, 3).Draw(rt, "periods")
		queried := rapid.SliceOfN(rapid.Bool(), periods, periods).Draw(rt, "queried")
		ids := rapid.SliceOfN(rapid.OneOf(rapid.IntRange(0, 6), rapid.IntRange(0, 6), rapid.IntRange(0, 999999)), 0, 8)
		revs := [][]int{}
		n := []int{}
		for p := 0; p < periods; p++ {
			revs = append(revs, ids.Draw(rt, "revoked"))
			n = append(n, rapid.IntRange(0, 5).Draw(rt, "precertificates"))
		}
		c.Describe("minute %d, revoked %v, %v precertificates, queried in %v", minute, revs, n, queried)
		c.NonTrivial(fmt.Sprint(minute, revs, n, queried))
		pre := []*precert{}
		for i := 0; i < 5; i++ {
			pre = append(pre, w.precert(w.C[0], fmt.Sprintf("Testing Dummy %d", i), i))
		}
		dir := scratch()
		bubble(t, c, minute, 0, func() {
			begin := time.Now()
			nw := newNet(c)
			lg := nw.logger(w, 0, dir)
			ca := nw.ca(w, 0, 0, dir)
			ca.RevocationRatio = 0
			lg.Logger_Type, ca.CA_Type = 1, 1
			startTask(func() { Logger.PeriodicTask(lg) })
			time.Sleep(time.Second)
			startTask(func() { CA.PeriodicTask(ca) })
			known := bits(1000000)
			for p := 0; p < periods; p++ {
				time.Sleep(time.Until(begin.Add(time.Duration(p*60+5) * time.Second)))
				if queried[p] {
					nw.get(w.L[0], "/ctng/v2/get-sth/", nil)
					nw.get(w.C[0], "/ctng/v2/get-revocation/", nil)
				}
				for _, id := range revs[p] {
					ca.CRV.Revoke(id)
				}
				for _, x := range pre[:n[p]] {
					nw.post(w.L[0], "/Logger/receive-precerts", x.raw)
				}
				time.Sleep(time.Until(begin.Add(time.Duration(p*60+45) * time.Second)))
				label := p2(minute + p + 1)
				for _, pair := range [][2]definition.Gossip_object{{lg.STH_storage[label], lg.STH_storage_fake[label]}, {ca.REV_storage[label], ca.REV_storage_fake[label]}} {
					for _, o := range pair {
						if ok, why := w.authentic(o); !ok || o.Period != label {
							c.Errorf("period %d: not genuine: %s %s", p, why, short(o))
						}
					}
					if ok, why := w.authentic(w.con(pair[0], pair[1], minute+p+1)); !ok {
						c.Errorf("period %d: the two statements of %s are no conflict: %s\n%s\n%s", p, pair[0].Signer, why, short(pair[0]), short(pair[1]))
					}
				}
				// both revocations hold for whoever knows the earlier ones
				for i, o := range []definition.Gossip_object{ca.REV_storage[label], ca.REV_storage_fake[label]} {
					var r definition.Revocation
					var delta bitset.BitSet
					if json.Unmarshal([]byte(o.Payload[2]), &r) != nil || delta.UnmarshalBinary(gunz(r.Delta_CRV)) != nil {
						c.Errorf("period %d: a revocation can not be read: %s", p, short(o))
						continue
					}
					if srh := w.srh(w.C[0], minute+p+1, known.Union(&delta), &delta); r.SRH != srh {
						c.Errorf("period %d: revocation %d does not follow from the earlier ones, its signed hash is %s, has to be %s", p, i, clip(r.SRH, 100), clip(srh, 100))
					}
				}
				for _, id := range revs[p] {
					known.Set(uint(id))
				}
			}
		})
	})
}

// The simulated latency lies in its range, and covers it.
func TestP21Latency(t *testing.T) {
	check(t, 300, func(rt *rapid.T, c *Case) {
		lo := rapid.IntRange(0, 1000).Draw(rt, "min")
		hi := lo + rapid.OneOf(rapid.IntRange(1, 5), rapid.IntRange(1, 2000)).Draw(rt, "range")
		c.Describe("latency in [%d,%d)", lo, hi)
		c.NonTrivial(fmt.Sprint(lo, hi))
		seen := map[int]bool{}
		for i := 0; i < 400; i++ {
			v := util.GetRandomLatency(lo, hi)
			if v < lo || v >= hi {
				c.Errorf("latency %d is not in [%d,%d)", v, lo, hi)
				return
			}
			seen[v] = true
		}
		if hi-lo <= 5 && len(seen) != hi-lo || len(seen) < 2 && hi-lo > 1 {
			c.Errorf("400 latencies in [%d,%d) take %d values", lo, hi, len(seen))
		}
	})
}
