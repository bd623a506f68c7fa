package ctngverif

// P13: what a client takes over from updates, and what it still knows after a
// restart.

import (
	"fmt"
	"io"
	"net/http"
	"os"
	"strings"
	"testing"

	"github.com/bits-and-blooms/bitset"
	"github.com/jik18001/CTngV2/client"
	"github.com/jik18001/CTngV2/definition"
	"github.com/jik18001/CTngV2/monitor"
	"pgregory.net/rapid"
)

type cmodel struct {
	sth map[string]string
	crv map[string]*bitset.BitSet
	pom map[string]definition.Gossip_object
}

func (m *cmodel) diff(ctx *client.ClientContext) string {
	out := []string{}
	for k, v := range m.sth {
		if ctx.STH_database[k] != v {
			out = append(out, fmt.Sprintf("root of %s is %q, has to be %q", k, ctx.STH_database[k], v))
		}
	}
	for k, v := range ctx.STH_database {
		if m.sth[k] == "" {
			out = append(out, fmt.Sprintf("a root of %s that nobody certified: %q", k, v))
		}
	}
	for k, v := range m.crv {
		if ctx.CRV_database[k] == nil || !ctx.CRV_database[k].Equal(v) {
			out = append(out, fmt.Sprintf("vector of %s is %v, has to be %v", k, some(ctx.CRV_database[k]), some(v)))
		}
	}
	for k, v := range ctx.CRV_database {
		if m.crv[k] == nil {
			out = append(out, fmt.Sprintf("a vector of %s that nobody certified: %v", k, some(v)))
		}
	}
	for k := range m.pom {
		if o, ok := ctx.POM_database[k]; !ok {
			out = append(out, "no proof against "+k)
		} else if o.Payload[0] != k || o.Type != definition.CON_INIT && o.Type != definition.ACC_FULL {
			out = append(out, "the proof against "+k+" is "+short(o))
		}
	}
	for k := range ctx.POM_database {
		if _, ok := m.pom[k]; !ok {
			out = append(out, "a proof against "+k+" that was not delivered")
		}
	}
	return strings.Join(out, "; ")
}

// spoil turns a genuine object of an update into one that is not.
func (w *World) spoil(rt *rapid.T, o definition.Gossip_object) (definition.Gossip_object, string) {
	how := rapid.SampledFrom([]string{"too few signers", "foreign signature", "other entity", "other content", "unknown signer", "repeated signer", "not certified", "one statement twice", "first stage", "second stage"}).Draw(rt, "spoiled")
	if o.Type == definition.CON_INIT {
		switch how {
		case "other entity":
			o.Payload[0] = w.other(o.Payload[0])
		case "one statement twice":
			o.Payload[2], o.Signature[1] = o.Payload[1], o.Signature[0]
		case "other content":
			o.Payload[2] += " "
		case "foreign signature":
			o.Signature[1] = rsaSigString(rsaRaw(w.rsa[w.M[0]], o.Payload[2]), o.Payload[0])
		default:
			how = "foreign signature"
			o.Signature[0] = rsaSigString(rsaRaw(w.rsa[w.M[0]], o.Payload[1]), w.M[0])
		}
		return o, how
	}
	switch how {
	case "too few signers":
		o.Signature[0] = thresholdSigString(w.aggregate(w.G[:1], msgOf(o)), w.G[:1])
	case "foreign signature":
		o.Signature[0] = thresholdSigString(w.aggregate(w.G[:2], "x"+msgOf(o)), w.G[:2])
	case "other entity":
		o.Payload[0] = w.other(o.Payload[0])
	case "unknown signer":
		o.Signature[0] = thresholdSigString(w.aggregate(w.G[:2], msgOf(o)), []string{w.G[0], "nobody:1"})
	case "repeated signer":
		o.Signature[0] = thresholdSigString(w.aggregate([]string{w.G[0], w.G[0]}, msgOf(o)), []string{w.G[0], w.G[0]})
	case "first stage": // genuine, but not certified: the statement, or accusation, itself
		o.Signer, o.Signers = o.Payload[0], nil
		switch o.Type {
		case definition.STH_FULL:
			o.Type = definition.STH_INIT
		case definition.REV_FULL:
			o.Type = definition.REV_INIT
		default:
			o.Type, o.Signer = definition.ACC_INIT, w.M[1]
		}
		if _, p, ok := kindOf(o.Payload[0], msgOf(o)); ok && o.Type == definition.STH_INIT {
			o.Period = p2(p + 1)
		}
		o.Signature[0] = w.rsaSig(o.Signer, msgOf(o))
	case "second stage": // genuine, but by a single gossiper
		o.Type = map[string]string{definition.STH_FULL: definition.STH_FRAG, definition.REV_FULL: definition.REV_FRAG, definition.ACC_FULL: definition.ACC_FRAG}[o.Type]
		o = w.signAnew(o, 1)
	case "not certified":
		o.Signature[0] = w.rsaSig(w.M[0], msgOf(o))
	default:
		how = "other content"
		if o.Type == definition.STH_FULL {
			o.Payload[1] = sthPayload(o.Payload[0], 3, "00", 1)
		} else {
			o.Payload[2] += " "
		}
	}
	return o, how
}

func (w *World) other(id string) string {
	for _, e := range w.entities() {
		if e != id {
			return e
		}
	}
	return id
}

func TestP13Client(t *testing.T) {
	check(t, 700, func(rt *rapid.T, c *Case) {
		w := newWorld(rapid.IntRange(0, 3).Draw(rt, "naming"), 3, 2, 2, 2)
		minute := rapid.IntRange(0, 59).Draw(rt, "minute")
		ents := w.entities()
		dir := clientDir(workDir)
		cli := w.newClient(dir, rapid.SampledFrom([]string{"NEW", "OLD"}).Draw(rt, "status"))
		m := &cmodel{map[string]string{}, map[string]*bitset.BitSet{}, map[string]definition.Gossip_object{}}
		desc := []string{}
		spoiled, restarts, applied := 0, 0, 0
		var last *monitor.ClientUpdate
		for p, n := 0, rapid.IntRange(1, 6).Draw(rt, "steps"); p < n; p++ {
			if percent(rt, "restart", 35) {
				saveClient(cli)
				cli = w.newClient(dir, "OLD")
				desc = append(desc, "restart")
				restarts++
				if d := m.diff(cli); d != "" {
					c.Describe("%s", strings.Join(desc, "; "))
					c.Errorf("after a restart: %s", d)
					return
				}
			}
			if last != nil && percent(rt, "again", 15) {
				desc = append(desc, "the same update again")
				if !cli.HandleUpdate(*last, true, false) {
					c.Errorf("the client rejects an update it has processed before")
				}
			} else {
				objs := []definition.Gossip_object{}
				text := []string{}
				next := map[string]*bitset.BitSet{}
				for e, id := range ents {
					if percent(rt, "statement", 70) {
						if e < len(w.L) {
							root := drawRoot(rt, "root")
							objs = append(objs, w.full(w.G[:2], w.sth(id, minute+p, root, 5), minute+p))
						} else {
							d := bitset.New(200)
							for _, i := range rapid.SliceOfN(rapid.UintRange(0, 199), 0, 3).Draw(rt, "revoked") {
								d.Set(i)
							}
							next[id] = d
							if m.crv[id] != nil {
								next[id] = m.crv[id].Union(d)
							}
							objs = append(objs, w.full(w.G[1:], w.rev(id, minute+p, next[id], d), minute+p))
						}
					}
					switch pick(rt, "proof", 6, 1, 1) {
					case 1:
						objs = append(objs, w.con(w.make2(e, minute+p, 7), w.make2(e, minute+p, 8), minute+p))
					case 2:
						objs = append(objs, w.full(w.G[:2], w.acc(w.M[0], id, minute+p), minute+p))
					}
				}
				bad := -1
				how := ""
				if len(objs) > 0 && percent(rt, "spoil", 35) {
					bad = rapid.IntRange(0, len(objs)-1).Draw(rt, "which")
					objs[bad], how = w.spoil(rt, objs[bad])
					spoiled++
				}
				for i, o := range objs {
					x := short(o)
					if i == bad {
						x = how + ": " + x
					}
					text = append(text, x)
				}
				desc = append(desc, fmt.Sprintf("update for %d %v", minute+p, text))
				u := updateFrom(w.M[0], minute+p, objs...)
				if bad < 0 && len(objs) > 0 && percent(rt, "misplace", 12) {
					// a genuine object in the wrong place
					bad = rapid.IntRange(0, len(objs)-1).Draw(rt, "which")
					o := objs[bad]
					how = "misplaced"
					u = updateFrom(w.M[0], minute+p, append(append([]definition.Gossip_object{}, objs[:bad]...), objs[bad+1:]...)...)
					lists := []*[]definition.Gossip_object{&u.STHs, &u.REVs, &u.POM_ACCs, &u.POM_CONs}
					own := map[string]int{definition.STH_FULL: 0, definition.REV_FULL: 1, definition.ACC_FULL: 2, definition.CON_INIT: 3}[o.Type]
					to := (own + rapid.IntRange(1, 3).Draw(rt, "to")) % 4
					*lists[to] = append(*lists[to], o)
					desc = append(desc, fmt.Sprintf("misplaced %s in list %d", short(o), to))
					spoiled++
				}
				got := cli.HandleUpdate(u, true, percent(rt, "newmonitor", 30))
				if got != (bad < 0) {
					c.Describe("%s", strings.Join(desc, "; "))
					c.Errorf("the client accepts the update: %v, has to: %v (%s)", got, bad < 0, how)
					return
				}
				if bad < 0 {
					last = &u
				} else {
					last = nil
					class("spoiled: " + how)
				}
				for i, o := range objs {
					if i == bad {
						continue
					}
					switch o.Type {
					case definition.STH_FULL:
						k := o.Payload[0] + "@" + o.Period
						root := rootOf(o)
						// of a rejected update the genuine part may or may not have been taken over
						if bad < 0 || cli.STH_database[k] == root {
							m.sth[k] = root
						}
					case definition.REV_FULL:
						if bad < 0 || cli.CRV_database[o.Payload[0]] != nil && cli.CRV_database[o.Payload[0]].Equal(next[o.Payload[0]]) {
							m.crv[o.Payload[0]] = next[o.Payload[0]]
						}
					default:
						if _, ok := cli.POM_database[o.Payload[0]]; bad < 0 || ok {
							m.pom[o.Payload[0]] = o
						}
					}
					applied++
				}
			}
			c.Describe("%s", strings.Join(desc, "; "))
			if d := m.diff(cli); d != "" {
				c.Errorf("step %d: %s", p, d)
				return
			}
		}
		if applied > 0 && spoiled+restarts > 0 {
			c.NonTrivial(fmt.Sprint(minute, desc))
		}
		class(fmt.Sprintf("restarts: %v, spoiled: %v", restarts > 0, spoiled > 0))
		os.RemoveAll(dir)
	})
}

func rootOf(o definition.Gossip_object) string {
	r, err := definition.ExtractRootHash(o)
	if err != nil {
		return ""
	}
	return fmt.Sprintf("%x", r)
}

// Updates reach the client unchanged, by file and by HTTP, and failures are reported.
func TestP13Fetch(t *testing.T) {
	check(t, 400, func(rt *rapid.T, c *Case) {
		w := newWorld(rapid.IntRange(0, 3).Draw(rt, "naming"), 3, 2, 2, 2)
		minute := rapid.IntRange(0, 59).Draw(rt, "minute")
		objs := []definition.Gossip_object{}
		for e := range w.entities() {
			if rapid.Bool().Draw(rt, "statement") {
				objs = append(objs, w.full(w.G[:2], w.stmt(e, minute, e), minute))
			}
			if percent(rt, "proof", 25) {
				objs = append(objs, w.con(w.make2(e, minute, 7), w.make2(e, minute, 8), minute))
			}
		}
		u := updateFrom(w.M[0], minute, objs...)
		how := rapid.SampledFrom([]string{"ok", "ok", "ok", "refused", "error", "garbage", "cut"}).Draw(rt, "answer")
		status := rapid.SampledFrom([]int{400, 403, 404, 406, 410, 429, 500, 502, 503}).Draw(rt, "status")
		c.Describe("update %s, answer %s %d", clip(string(js(u)), 300), how, status)
		c.NonTrivial(fmt.Sprint(how, minute, len(objs), string(js(u))))
		class("answer " + how)
		nw := newNet(c)
		defer nw.install()()
		if how != "refused" {
			nw.hosts[w.M[0]] = http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
				b := js(u)
				switch how {
				case "error":
					rw.WriteHeader(status)
				case "garbage":
					b = []byte("<html>")
				case "cut":
					b = b[:len(b)-2]
				}
				io.WriteString(rw, string(b))
			})
		}
		got, err := client.FetchClientUpdate("http://" + w.M[0] + "/update")
		if (err == nil) != (how == "ok") {
			c.Errorf("answer %s: error %v", how, err)
		}
		if how == "ok" && !sameUpdate(u, got) {
			c.Errorf("the client fetched %s", clip(string(js(got)), 300))
		}
		path := fmt.Sprintf("%s/update_%d.json", workDir, clientSeq.Add(1))
		os.WriteFile(path, js(u), 0644)
		ctx := &client.ClientContext{}
		if got = ctx.LoadUpdate(path); !sameUpdate(u, got) {
			c.Errorf("the client loaded %s", clip(string(js(got)), 300))
		}
		os.Remove(path)
	})
}
