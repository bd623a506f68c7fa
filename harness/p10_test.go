package ctngverif

// P10: what a monitor publishes. The update of a period holds exactly the
// certified statements of that period and the proofs that are new, is kept on
// disk, and is what the monitor serves.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"reflect"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/bits-and-blooms/bitset"
	"github.com/jik18001/CTngV2/definition"
	"github.com/jik18001/CTngV2/monitor"
	"pgregory.net/rapid"
)

type uev struct {
	at   int // ms
	what string
	e    int
	bad  bool
	obj  definition.Gossip_object
}

func (v uev) key() string {
	return fmt.Sprint(definition.TypeString(v.obj.Type), " ", v.obj.Payload[0], " ", v.obj.Period)
}

func drawUpdateEvent(rt *rapid.T, w *World, minute, at int) uev {
	ents := w.entities()
	p := at / 60000
	e := rapid.IntRange(0, len(ents)-1).Draw(rt, "entity")
	what := rapid.SampledFrom([]string{"full", "full", "full", "full", "con", "acc", "acc", "init", "frag"}).Draw(rt, "what")
	q := p
	if at%60000 > 40000 && rapid.Bool().Draw(rt, "next") {
		q++
	} else {
		q += rapid.SampledFrom([]int{0, 0, 0, 0, 0, 0, -1, 1}).Draw(rt, "label")
	}
	v := uev{at: at, what: what, e: e}
	version := rapid.SampledFrom([]int{0, 0, 0, 1}).Draw(rt, "version")
	first := rapid.IntRange(0, 1).Draw(rt, "signers")
	signers := w.G[first : first+2]
	switch what {
	case "full":
		v.obj = w.full(signers, w.stmt(e, minute+q, version), minute+q)
	case "con":
		v.obj = w.con(w.stmt(e, minute+q, 5+version), w.stmt(e, minute+q, 7), minute+q)
	case "acc":
		v.obj = w.full(signers, w.acc(w.M[0], ents[e], minute+q), minute+q)
	case "init":
		v.obj = w.stmt(e, minute+q, version)
	case "frag":
		v.obj = w.frag(w.G[0], w.stmt(e, minute+q, version))
	}
	if percent(rt, "forged", 10) {
		v.bad = true
		switch rapid.IntRange(0, 2).Draw(rt, "forgery") {
		case 0: // too few signers
			if what == "full" || what == "acc" {
				v.obj.Signers = w.G[:1]
				v.obj.Signature[0] = thresholdSigString(w.aggregate(w.G[:1], msgOf(v.obj)), w.G[:1])
			} else {
				v.obj.Signature[0] = rsaSigString(rsaRaw(w.rsa[w.M[1]], v.obj.Payload[1]), ents[e])
			}
		case 1: // about another entity
			v.obj.Payload[0] = ents[(e+1)%len(ents)]
		default:
			v.obj.Signature[0] = strings.Replace(v.obj.Signature[0], ":\"", ":\"0", 1)
		}
	}
	return v
}

func TestP10Updates(t *testing.T) {
	slots(t, 0, 1, 0, 0)
	check(t, 450, func(rt *rapid.T, c *Case) {
		w := newWorld(rapid.IntRange(0, 3).Draw(rt, "naming"), 3, 2, 2, 2)
		periods := rapid.IntRange(1, 4).Draw(rt, "periods")
		minute := rapid.OneOf(rapid.IntRange(0, 59), rapid.SampledFrom([]int{56, 57, 58, 59, 0})).Draw(rt, "minute")
		offset := 0
		if minute+periods <= 60 {
			offset = rapid.SampledFrom([]int{0, minute, minute}).Draw(rt, "offset")
		}
		evs := []uev{}
		n := rapid.IntRange(1, 22).Draw(rt, "events")
		for i := 1; i <= n; i++ {
			at := rapid.IntRange(0, periods*600-1).Draw(rt, "at")*100 + i
			if i > 1 && percent(rt, "again", 20) {
				v := rapid.SampledFrom(evs).Draw(rt, "which")
				v.at = at
				evs = append(evs, v)
				continue
			}
			evs = append(evs, drawUpdateEvent(rt, w, minute, at))
		}
		sort.SliceStable(evs, func(i, j int) bool { return evs[i].at < evs[j].at })
		desc := []string{}
		for _, v := range evs {
			desc = append(desc, fmt.Sprintf("%.3fs %s%s", float64(v.at)/1000, map[bool]string{true: "forged "}[v.bad], short(v.obj)))
		}
		// what a run an hour ago left behind, which is of no concern
		left := map[int]int{}
		if percent(rt, "leftovers", 30) {
			for p := 0; p < periods; p++ {
				left[(minute+p)%60-offset] = rapid.IntRange(0, 3).Draw(rt, "leftover")
			}
		}
		early := rapid.SliceOfN(rapid.IntRange(0, periods*600-1), 0, 3).Draw(rt, "early requests")
		c.Describe("minute %d offset %d periods %d left %v early %v: %s", minute, offset, periods, left, early, strings.Join(desc, "; "))
		dir := scratch()
		bubble(t, c, minute, 0, func() {
			begin := time.Now()
			nw := newNet(c)
			defer nw.install()()
			ctx := nw.monitor(w, 0, 5, dir)
			ctx.Period_Offset = fmt.Sprint(offset)
			for n, k := range left {
				if k == 0 {
					continue
				}
				os.MkdirAll(fmt.Sprintf("%s/Period_%d", ctx.StorageDirectory, n), 0755)
				if k > 1 {
					old := updateFrom(w.M[0], minute+n, w.full(w.G[:2], w.stmt(0, minute+n, 9), minute+n), w.full(w.G[:2], w.acc(w.M[1], w.entities()[1], minute+n), minute+n))
					b := js(old)
					if k == 3 { // longer than any new one
						b = append(b, bytes.Repeat([]byte(" "), 60000)...)
					}
					os.WriteFile(fmt.Sprintf("%s/Period_%d/ClientUpdate.json", ctx.StorageDirectory, n), b, 0644)
				}
			}
			nw.hosts[w.G[0]] = sink
			for e, id := range w.entities() {
				if e%2 == 0 {
					nw.hosts[id] = sink
				}
			}
			go func() {
				for _, v := range evs {
					time.Sleep(time.Until(begin.Add(time.Duration(v.at) * time.Millisecond)))
					resp, err := nw.post(w.M[0], "/monitor/receive-gossip-from-gossiper", js(v.obj))
					if err == nil && (resp.StatusCode == 200) == v.bad {
						c.Errorf("the monitor answers %d to %s, forged: %v", resp.StatusCode, short(v.obj), v.bad)
					}
				}
			}()
			for _, at := range early { // whatever they get, it has no effect
				at := at
				go func() {
					time.Sleep(time.Until(begin.Add(time.Duration(at)*100*time.Millisecond + 70*time.Microsecond)))
					for p := 0; p < periods; p++ {
						nw.get(w.M[0], "/monitor/get-update", js(fmt.Sprint((minute+p)%60-offset)))
					}
				}()
			}
			startTask(func() { monitor.PeriodicTasks(ctx) })
			published := map[string]bool{}
			files := map[int][]byte{}
			sizes := 0
			for p := 0; p < periods; p++ {
				// shortly after the update
				cut := p*60000 + 40000
				time.Sleep(time.Until(begin.Add(time.Duration(cut)*time.Millisecond + 50*time.Microsecond)))
				name := (minute+p)%60 - offset
				u, raw, err := updateOf(ctx, name)
				if err != nil {
					c.Errorf("no update on disk for period %d (minute %d): %v", name, minute+p, err)
					return
				}
				files[name] = raw
				if u.MonitorID != w.M[0] || u.Period != p2(minute+p) {
					c.Errorf("the update of minute %d says it is of %s for period %s", minute+p, u.MonitorID, u.Period)
				}
				convicted := map[string]bool{}
				type set = map[string][]definition.Gossip_object
				fulls, poms := set{}, set{}   // what may be in the update, by key
				fresh := map[string]bool{}    // new since the last update
				seen := map[string][]string{} // the distinct proofs of a key
				crv := map[string]*bitset.BitSet{}
				for _, v := range evs {
					if v.at > cut || v.bad {
						continue
					}
					switch v.what {
					case "con", "acc":
						if v.what == "con" {
							convicted[v.obj.Payload[0]] = true
						}
						k := v.key()
						poms[k] = append(poms[k], v.obj)
						text := string(js(v.obj))
						known := false
						for _, s := range seen[k] {
							known = known || s == text
						}
						if !known {
							seen[k] = append(seen[k], text)
						}
						if !known && v.at > cut-60000 || len(seen[k]) > 1 && v.at > cut-60000 {
							fresh[k] = true
						}
					case "full":
						if v.at > cut-60000 && v.obj.Period == p2(minute+p) {
							fulls[v.key()] = append(fulls[v.key()], v.obj)
						}
						if v.obj.Type == definition.REV_FULL && v.at+20000 < cut {
							if crv[v.obj.Payload[0]] == nil {
								crv[v.obj.Payload[0]] = bitset.New(64)
							}
							crv[v.obj.Payload[0]].InPlaceUnion(deltaOf(v.obj))
						}
					}
				}
				got := map[string]int{}
				for where, list := range map[string][]definition.Gossip_object{"STHs": u.STHs, "REVs": u.REVs, "proofs of conflict": u.POM_CONs, "accusation certificates": u.POM_ACCs} {
					for _, o := range list {
						k := uev{obj: o}.key()
						got[k]++
						sizes++
						wantType := map[string]string{"STHs": definition.STH_FULL, "REVs": definition.REV_FULL, "proofs of conflict": definition.CON_INIT, "accusation certificates": definition.ACC_FULL}[where]
						if o.Type != wantType {
							c.Errorf("period %d: among the %s is a %s", p, where, short(o))
						}
						may := false
						for _, x := range append(fulls[k], poms[k]...) {
							may = may || reflect.DeepEqual(x, o)
						}
						switch {
						case !may:
							c.Errorf("period %d: the update holds %s, which was not delivered for it", p, short(o))
						case got[k] > 1:
							c.Errorf("period %d: the update holds %s twice", p, short(o))
						case poms[k] != nil && !fresh[k]:
							c.Errorf("period %d: the update repeats the old proof %s", p, short(o))
						case fulls[k] != nil && convicted[o.Payload[0]]:
							c.Errorf("period %d: the update holds a statement of %s, which has signed conflicting statements", p, o.Payload[0])
						}
					}
				}
				for k, v := range fulls {
					if got[k] == 0 && !convicted[v[0].Payload[0]] {
						c.Errorf("period %d: the update misses %s", p, short(v[0]))
					}
				}
				for k, v := range poms {
					if got[k] == 0 && !published[k] {
						c.Errorf("period %d: the update misses the proof %s", p, short(v[0]))
					}
					published[k] = true
				}
				have, err := crvOf(ctx)
				if err != nil {
					c.Errorf("the revocation vectors on disk can not be read: %v", err)
				} else {
					for _, id := range w.C {
						if fmt.Sprint(members(have[id])) != fmt.Sprint(members(crv[id])) {
							c.Errorf("period %d: the vector on disk of %s is %v, certified is %v", p, id, members(have[id]), members(crv[id]))
						}
					}
				}
				if len(fulls)+len(poms) > 0 {
					class(fmt.Sprintf("update with statements=%v proofs=%v", len(fulls) > 0, len(fresh) > 0))
				}
				if len(convicted) > 0 {
					class("someone is convicted")
				}
			}
			if sizes > 0 {
				c.NonTrivial(fmt.Sprint(minute, offset, desc))
			}
			time.Sleep(time.Until(begin.Add(time.Duration(periods)*60*time.Second - 20*time.Millisecond)))
			// all updates are served, also the old ones
			for name, raw := range files {
				resp, err := nw.get(w.M[0], "/monitor/get-update", js(fmt.Sprint(name)))
				if err != nil || resp.StatusCode != 200 {
					c.Errorf("the monitor does not serve its update of period %d", name)
					continue
				}
				b, _ := io.ReadAll(resp.Body)
				var want, got monitor.ClientUpdate
				if json.Unmarshal(b, &got) != nil || json.Unmarshal(raw, &want) != nil || !sameUpdate(want, got) {
					c.Errorf("the monitor serves for period %d %s, published was %s", name, clip(string(b), 200), clip(string(raw), 200))
				}
			}
			for _, other := range []int{77, 61, -1} {
				if resp, err := nw.get(w.M[0], "/monitor/get-update", js(fmt.Sprint(other))); err == nil && resp.StatusCode == 200 && files[other] == nil {
					c.Errorf("the monitor serves an update of period %d, which it never made", other)
				}
			}
		})
	})
}

// Proofs that arrive while the update is made are in that update or in the
// next one, and none is lost.
func TestP10Boundary(t *testing.T) {
	slots(t, 0, 1, 0, 0)
	check(t, 220, func(rt *rapid.T, c *Case) {
		w := newWorld(rapid.IntRange(0, 3).Draw(rt, "naming"), 3, 3, 3, 2)
		minute := rapid.IntRange(0, 59).Draw(rt, "minute")
		ents := w.entities()
		objs := []definition.Gossip_object{}
		desc := ""
		least := rapid.SampledFrom([]int{1, 4 * len(ents)}).Draw(rt, "least")
		for _, e := range rapid.SliceOfNDistinct(rapid.IntRange(0, 4*len(ents)-1), least, 4*len(ents), rapid.ID[int]).Draw(rt, "proofs") {
			p := minute + e/(2*len(ents)) // also proofs of the same entity for another period
			if e %= 2 * len(ents); e < len(ents) {
				objs = append(objs, w.con(w.stmt(e, p, 0), w.stmt(e, p, 1), p))
			} else {
				objs = append(objs, w.full(w.G[:2], w.acc(w.M[0], ents[e-len(ents)], p), p))
			}
			desc += short(objs[len(objs)-1]) + " "
		}
		before := rapid.IntRange(0, len(objs)).Draw(rt, "before")
		c.Describe("minute %d: %s, of which %d arrive early and the others together with the update", minute, desc, before)
		c.NonTrivial(fmt.Sprint(minute, desc, before))
		dir := scratch()
		bubble(t, c, minute, 0, func() {
			begin := time.Now()
			nw := newNet(c)
			defer nw.install()()
			ctx := nw.monitor(w, 0, 5, dir)
			nw.hosts[w.G[0]] = sink
			ctx.Monitor_private_config.CA_URLs, ctx.Monitor_private_config.Logger_URLs = nil, nil
			startTask(func() { monitor.PeriodicTasks(ctx) })
			for i, o := range objs {
				o := o
				at := 40 * time.Second
				if i < before {
					at = 20 * time.Second
				}
				go func() {
					time.Sleep(time.Until(begin.Add(at)))
					nw.post(w.M[0], "/monitor/receive-gossip-from-gossiper", js(o))
				}()
			}
			time.Sleep(time.Until(begin.Add(110 * time.Second)))
			count := map[string]int{}
			for p := 0; p < 2; p++ {
				u, _, err := updateOf(ctx, (minute+p)%60)
				if err != nil {
					c.Errorf("no update on disk for minute %d: %v", minute+p, err)
					return
				}
				for _, o := range append(u.POM_CONs, u.POM_ACCs...) {
					count[string(js(o))]++
				}
				if p == 1 && len(u.POM_CONs)+len(u.POM_ACCs) > 0 {
					class("some proofs in the second update")
				}
			}
			for _, o := range objs {
				if count[string(js(o))] != 1 {
					c.Errorf("%s is in %d updates", short(o), count[string(js(o))])
				}
			}
		})
	})
}
