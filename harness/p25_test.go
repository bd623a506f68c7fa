package ctngverif

// P25: in step. Every party, whenever it is started, begins with the next full
// minute and does the work of a period once a minute from then on, so that all
// of them mean the same minute by a period.

import (
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"os"
	"strings"
	"testing"
	"time"

	"github.com/jik18001/CTngV2/CA"
	"github.com/jik18001/CTngV2/Logger"
	"github.com/jik18001/CTngV2/definition"
	"github.com/jik18001/CTngV2/gossiper"
	"github.com/jik18001/CTngV2/monitor"
	"pgregory.net/rapid"
)

// startServer runs one of the Start functions. The mux has a router already,
// so it panics where it would go on to listen on a port; then is called.
func startServer(c *Case, what string, start func(), then func()) {
	defer func() {
		r := recover()
		if s := fmt.Sprint(r); r == nil || !strings.Contains(s, "pattern") && !strings.Contains(s, "registration") {
			c.Errorf("the start of %s ends with %v", what, r)
			return
		}
		then()
	}()
	start()
}

func blockMux() func() {
	old := http.DefaultServeMux
	http.DefaultServeMux = http.NewServeMux()
	http.DefaultServeMux.Handle("/", sink)
	return func() { http.DefaultServeMux = old }
}

func TestP25Schedule(t *testing.T) {
	slots(t, 1, 1, 1, 1)
	check(t, 160, func(rt *rapid.T, c *Case) {
		party := rapid.SampledFrom([]string{"monitor", "gossiper", "logger", "CA"}).Draw(rt, "party")
		nL, nC := rapid.IntRange(1, 2).Draw(rt, "loggers"), rapid.IntRange(1, 2).Draw(rt, "CAs")
		w := drawWorld(rt, 2, 3, nL, nC)
		minute := rapid.OneOf(rapid.IntRange(0, 59), rapid.SampledFrom([]int{57, 58, 59})).Draw(rt, "minute")
		second := rapid.OneOf(rapid.IntRange(0, 59), rapid.SampledFrom([]int{0, 1, 9, 10, 58, 59})).Draw(rt, "second")
		ms := rapid.SampledFrom([]int{0, 1, 350, 500, 999}).Draw(rt, "millisecond")
		periods := rapid.SampledFrom([]int{1, 2, 3, 5, 12}).Draw(rt, "periods")
		delays := rapid.SliceOfN(rapid.SampledFrom([]int{0, 0, 40, 700, 1500}), 1, 4).Draw(rt, "delays")
		clock, drift := 0, 0
		if party == "monitor" {
			clock, drift = rapid.SampledFrom([]int{0, 0, 200, 900}).Draw(rt, "clock drift"), rapid.SampledFrom([]int{0, 0, 1000, 3000}).Draw(rt, "largest drift")
		}
		per := rapid.IntRange(1, 2).Draw(rt, "certificates")
		c.Describe("a %s is started at %d:%02d.%03d, drift %d of %d ms, %d loggers, %d CAs, %d certificates per period, messages take %v ms; %d periods", party, minute, second, ms, clock, drift, nL, nC, per, delays, periods)
		if second != 0 {
			c.NonTrivial(fmt.Sprint(party, minute, second, ms, periods, delays, clock, drift, nL, nC, per))
		}
		class(party)
		objs := []definition.Gossip_object{}
		for k := 0; k <= periods; k++ {
			objs = append(objs, w.sth(w.L[0], (minute+1+k)%60, strings.Repeat(fmt.Sprintf("%02x", k), 32), 3))
		}
		dir := scratch()
		cwd, _ := os.Getwd()
		os.Chdir(dir)
		defer os.Chdir(cwd)
		defer blockMux()()
		bubble(t, c, minute, second, func() {
			time.Sleep(time.Duration(ms) * time.Millisecond)
			M := time.Now().Truncate(time.Minute).Add(time.Minute) // the first full minute
			nw := newNet(c)
			defer nw.install()()
			for _, l := range [][]string{w.L, w.C, w.M, w.G} {
				for _, id := range l {
					nw.hosts[id] = sink
				}
			}
			nw.fate = func(m *Msg, i int) Fate {
				if m.Src == "" {
					return Fate{}
				}
				return Fate{Delay: time.Duration(delays[i%len(delays)]) * time.Millisecond}
			}
			at := func(k int, s float64) { // in the k-th period
				time.Sleep(time.Until(M.Add(time.Duration(k)*time.Minute + time.Duration(s*1000)*time.Millisecond)))
			}
			// the work of a period: messages from the party that match, to each of the
			// given parties as often as told, the first of them at the same point of
			// every minute, at least lo and less than hi seconds into it
			work := func(what string, to []string, times int, lo, hi float64, match func(m *Msg) bool) {
				var first time.Duration
				for k := 0; k < periods; k++ {
					b, e := M.Add(time.Duration(k)*time.Minute), M.Add(time.Duration(k+1)*time.Minute)
					got := nw.sent(func(m *Msg) bool { return !m.At.Before(b) && m.At.Before(e) && match(m) })
					n := map[string]int{}
					for _, m := range got {
						n[m.Dst]++
					}
					for _, id := range to {
						if n[id] != times {
							c.Errorf("period %d: %d %s for %s, not %d", k, n[id], what, id, times)
						}
					}
					if len(got) == 0 {
						return
					}
					d := got[0].At.Sub(b)
					if k == 0 {
						first = d
					}
					if d.Seconds() < lo || d.Seconds() >= hi || d-first > 500*time.Millisecond || first-d > 500*time.Millisecond {
						c.Errorf("period %d: the %s begin %v into the minute, in the first period %v, the bounds are %v and %v s", k, what, d, first, lo, hi)
					}
				}
			}
			asked := func(host, path string, k int, kind string) {
				resp, err := nw.get(host, path, nil)
				var o definition.Gossip_object
				if err == nil {
					b, _ := io.ReadAll(resp.Body)
					if resp.StatusCode != 200 {
						err = fmt.Errorf("status %d", resp.StatusCode)
					} else {
						err = json.Unmarshal(b, &o)
					}
				}
				if err != nil || o.Type != kind || o.Period != p2((minute+1+k)%60) {
					c.Errorf("asked in minute %d, the %s answers %s (%v)", (minute+1+k)%60, party, short(o), err)
				}
			}
			switch party {
			case "monitor":
				ctx := nw.monitor(w, 0, 5, dir)
				ctx.Clockdrift_miliseconds, ctx.Maxdrift_miliseconds = clock, drift
				go startServer(c, party, func() { monitor.StartMonitorServer(ctx) }, func() { ctx.Client = nw.client(w.M[0]) })
				for k := 0; k < periods; k++ {
					at(k, 44)
					if u, _, err := updateOf(ctx, (minute+1+k)%60); err != nil || u.Period != p2((minute+1+k)%60) {
						c.Errorf("period %d: there is no update for it (%v)", k, err)
					}
				}
				at(periods-1, 59.5)
				d := float64(clock+drift) / 1000
				work("queries", append(cp(w.L), w.C...), 1, d, d+2, func(m *Msg) bool { return m.Src == "http.Get" })
			case "gossiper":
				ctx := nw.gossiper(w, 0, 5, dir)
				go startServer(c, party, func() { gossiper.StartGossiperServer(ctx) }, func() { ctx.Client = nw.client(w.G[0]) })
				for k := 0; k < periods; k++ {
					o := objs[k]
					send := func(s float64, forwarded bool) {
						at(k, s)
						now := time.Now()
						nw.post(w.G[0], pathOf[o.Type], js(o))
						time.Sleep(time.Millisecond)
						n := len(nw.sent(func(m *Msg) bool { return m.Src == w.G[0] && !m.At.Before(now) && m.Path == pathOf[o.Type] }))
						if (n > 0) != forwarded {
							c.Errorf("period %d: an object received %v s into the minute is passed on %d times", k, s, n)
						}
					}
					send(2.5+float64(k%3)*15, true)
					send(39.9, false)
					send(43, true) // the period is over: it is new again
					send(59, false)
				}
				at(periods-1, 59.5)
			case "logger":
				ctx := nw.logger(w, 0, dir)
				go startServer(c, party, func() { Logger.StartLogger(ctx) }, func() { ctx.Client = nw.client(w.L[0]) })
				for k := 0; k < periods; k++ {
					at(k, 30)
					if k > 0 {
						asked(w.L[0], "/ctng/v2/get-sth/", k, definition.STH_INIT)
					}
				}
				at(periods-1, 59.5)
				work("tree heads", w.C, 1, 40, 42, func(m *Msg) bool { return m.Src == w.L[0] && strings.Contains(m.Path, "sth") })
			case "CA":
				ctx := nw.ca(w, 0, per, dir)
				ctx.RevocationRatio = 0
				go startServer(c, party, func() { CA.StartCA(ctx) }, func() { ctx.Client = nw.client(w.C[0]) })
				for k := 0; k < periods; k++ {
					at(k, 30)
					if k > 0 {
						asked(w.C[0], "/ctng/v2/get-revocation/", k, definition.REV_INIT)
					}
				}
				at(periods-1, 59.5)
				work("precertificates", w.L, per, 0, 3, func(m *Msg) bool { return m.Src == w.C[0] && strings.Contains(m.Path, "precert") })
			}
		})
	})
}

func TestP25Together(t *testing.T) {
	slots(t, 4, 4, 2, 2)
	check(t, 36, func(rt *rapid.T, c *Case) {
		nL, nC := rapid.IntRange(1, 2).Draw(rt, "loggers"), rapid.IntRange(1, 2).Draw(rt, "CAs")
		w := drawWorld(rt, 2, 4, nL, nC)
		n := len(w.G)
		minute := rapid.OneOf(rapid.IntRange(0, 59), rapid.SampledFrom([]int{56, 57, 58, 59})).Draw(rt, "minute")
		periods := rapid.IntRange(1, 3).Draw(rt, "periods")
		wait := rapid.IntRange(6, 11).Draw(rt, "wait")
		drift := rapid.SampledFrom([]int{0, 1000}).Draw(rt, "drift")
		type begin struct{ party, i, ms int }
		starts := []begin{}
		seconds := func(party, count int) {
			for i := 0; i < count; i++ {
				s := rapid.OneOf(rapid.IntRange(0, 59), rapid.SampledFrom([]int{0, 1, 39, 40, 58, 59})).Draw(rt, "second")
				// no two of them at the same millisecond of a second
				starts = append(starts, begin{party, i, s*1000 + rapid.IntRange(0, 61).Draw(rt, "millisecond")*16 + len(starts)})
			}
		}
		seconds(0, nL)
		seconds(1, nC)
		seconds(2, n)
		seconds(3, n)
		clock := rapid.SliceOfN(rapid.SampledFrom([]int{0, 100, 500}), n, n).Draw(rt, "clock drift")
		c.Describe("%d gossipers and monitors, threshold %d, %d loggers, %d CAs, minute %d, %d periods, wait %d s, drift %v of %d ms, started {0 logger, 1 CA, 2 gossiper, 3 monitor; number; ms of the minute} %v", n, w.T, nL, nC, minute, periods, wait, clock, drift, starts)
		c.NonTrivial(fmt.Sprint(n, w.T, nL, nC, minute, periods, wait, clock, drift, starts))
		dir := scratch()
		cwd, _ := os.Getwd()
		os.Chdir(dir)
		defer os.Chdir(cwd)
		defer blockMux()()
		bubble(t, c, minute, 0, func() {
			b := time.Now()
			nw := newNet(c)
			defer nw.install()()
			ms := make([]*monitor.MonitorContext, n)
			for _, s := range starts {
				var run func()
				var what string
				var client **http.Client
				at := time.Duration(s.ms) * time.Millisecond
				switch s.party {
				case 0:
					ctx := nw.logger(w, s.i, dir)
					what, client, run = w.L[s.i], &ctx.Client, func() { Logger.StartLogger(ctx) }
				case 1:
					ctx := nw.ca(w, s.i, 0, dir)
					ctx.RevocationRatio = 0
					what, client, run = w.C[s.i], &ctx.Client, func() { CA.StartCA(ctx) }
				case 2:
					ctx := nw.gossiper(w, s.i, wait, dir)
					what, client, run = w.G[s.i], &ctx.Client, func() { gossiper.StartGossiperServer(ctx) }
				case 3:
					ctx := nw.monitor(w, s.i, wait, dir)
					ms[s.i] = ctx
					ctx.Clockdrift_miliseconds, ctx.Maxdrift_miliseconds = clock[s.i], drift
					what, client, run = w.M[s.i], &ctx.Client, func() { monitor.StartMonitorServer(ctx) }
				}
				if s.party > 1 { // there is something to monitor a minute after the first full one
					at += time.Minute
				}
				go func() {
					time.Sleep(at)
					startServer(c, what, run, func() { *client = nw.client(what) })
				}()
			}
			for k := 2; k < 2+periods && !c.Failed(); k++ {
				time.Sleep(time.Until(b.Add(time.Duration(k)*time.Minute + 44*time.Second)))
				label := (minute + k) % 60
				for i := range ms {
					u, _, err := updateOf(ms[i], label)
					if err != nil {
						c.Errorf("minute %d: monitor %d has no update: %v", label, i, err)
						continue
					}
					if u.Period != p2(label) || len(u.POM_ACCs) > 0 || len(u.POM_CONs) > 0 {
						c.Errorf("minute %d: the update of monitor %d is for %s, with %d proofs of silence and %d of conflicts", label, i, u.Period, len(u.POM_ACCs), len(u.POM_CONs))
					}
					count := map[string]int{}
					for _, o := range append(append([]definition.Gossip_object{}, u.STHs...), u.REVs...) {
						if ok, why := w.authentic(o); !ok || o.Period != p2(label) {
							c.Errorf("minute %d: in the update of monitor %d is an object that %s: %s", label, i, why, short(o))
						}
						count[o.Payload[0]]++
					}
					for _, id := range w.entities() {
						if count[id] != 1 {
							c.Errorf("minute %d: in the update of monitor %d there are %d certified statements of %s", label, i, count[id], id)
						}
					}
				}
			}
		})
	})
}
