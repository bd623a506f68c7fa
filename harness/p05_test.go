package ctngverif

// P05: what a gossiper signs: the first statement of an entity for a period,
// once, after the waiting time, unless the entity was convicted by then; and
// accusations of its own monitor only.

import (
	"encoding/json"
	"fmt"
	"testing"

	"github.com/jik18001/CTngV2/definition"
	"pgregory.net/rapid"
)

func TestP05Signing(t *testing.T) {
	slots(t, 1, 0, 0, 0)
	check(t, 500, func(rt *rapid.T, c *Case) {
		gw := gweights{events: 12, forge: 12, horizon: rapid.SampledFrom([]int{12, 38, 130}).Draw(rt, "horizon"), stmt: 8, frag: 3, acc: 3, con: 1, equiv: 15, stray: 15, dup: 15}
		g := drawGossiperCase(rt, gw)
		c.Describe("%v", g)
		m := g.model()
		for k := range m.stat {
			class("happened: " + k)
		}
		if m.stat["own fragment"] > 0 {
			c.NonTrivial(g.String())
		}
		r := g.run(t, c, scratch(), nil)
		g.compare(c, r.sends, m.sends, true, "OWNFRAG")
		// stated once more without the model: per entity, kind and label at most one statement is endorsed,
		// it was delivered at least the waiting time before, and was the first one delivered
		first := map[string]gev{}
		for _, e := range g.evs {
			if e.bad {
				continue
			}
			switch e.obj.Type {
			case definition.STH_INIT, definition.REV_INIT, definition.ACC_INIT:
				k := objKey(e.obj)
				if e.obj.Type == definition.ACC_INIT && e.obj.Signer != g.w.M[0] {
					continue
				}
				if f, ok := first[k]; !ok || f.at > e.at {
					first[k] = e
				}
			}
		}
		signed := map[string]string{}
		for _, x := range r.net.sent(func(m *Msg) bool { return m.Src == g.w.G[0] }) {
			var o definition.Gossip_object
			if json.Unmarshal(x.Body, &o) != nil || o.Signer != g.w.G[0] || fragKind[o.Type] == "" || g.delivered(o) {
				continue
			}
			k := objKey(definition.Gossip_object{Type: fragKind[o.Type], Period: o.Period, Payload: o.Payload})
			if prev, ok := signed[k]; ok && prev != o.Signature[0] && g.horizonIsOne() {
				c.Errorf("two different statements of %s are endorsed", k)
			}
			signed[k] = o.Signature[0]
			f, ok := first[k]
			if !ok {
				c.Errorf("%s was never delivered, but is endorsed", k)
				continue
			}
			if g.horizonIsOne() && o.Type != definition.ACC_FRAG && !g.w.fragValid(g.w.G[0], msgOf(f.obj), o.Signature[0]) {
				c.Errorf("the endorsement of %s is not for the statement delivered first", k)
			}
		}
	})
}

// horizonIsOne tells whether everything was delivered before the storage was reset.
func (g *gcase) horizonIsOne() bool {
	for _, e := range g.evs {
		if e.at > 39000 {
			return false
		}
	}
	return true
}

var fragKind = map[string]string{definition.STH_FRAG: definition.STH_INIT, definition.REV_FRAG: definition.REV_INIT, definition.ACC_FRAG: definition.ACC_INIT}

// A conviction at any moment of the waiting time stops the endorsement.
func TestP05Withheld(t *testing.T) {
	slots(t, 1, 0, 0, 0)
	check(t, 350, func(rt *rapid.T, c *Case) {
		w := drawWorld(rt, 2, 4, 1, 1)
		g := &gcase{w: w, wait: rapid.IntRange(1, 8).Draw(rt, "wait"), minute: rapid.IntRange(0, 59).Draw(rt, "minute")}
		e := rapid.IntRange(0, 1).Draw(rt, "entity")
		a, b := w.make2(e, g.minute, 0), w.make2(e, g.minute, 1)
		at := rapid.IntRange(0, 200).Draw(rt, "at")*100 + 1
		gap := rapid.IntRange(0, (g.wait+3)*10).Draw(rt, "gap")*100 + 1
		how := rapid.SampledFrom([]string{"conflict", "proof", "accusation"}).Draw(rt, "how")
		g.evs = append(g.evs, gev{at: at, obj: a, desc: short(a)})
		switch how {
		case "conflict":
			g.evs = append(g.evs, gev{at: at + gap, obj: b, desc: short(b)})
		case "proof":
			con := w.con(a, b, g.minute)
			g.evs = append(g.evs, gev{at: at + gap, obj: con, desc: short(con)})
		default:
			acc := w.acc(w.M[0], a.Payload[0], g.minute)
			for i := 0; i < w.T; i++ {
				f := w.frag(w.G[i], acc)
				g.evs = append(g.evs, gev{at: at + gap + i, obj: f, desc: short(f)})
			}
		}
		m := g.model()
		c.Describe("%v", g)
		c.NonTrivial(fmt.Sprintf("%s %d %d %d", how, g.wait, gap, e))
		class(fmt.Sprintf("%s endorsed=%v", how, m.stat["own fragment"] > 0))
		r := g.run(t, c, scratch(), nil)
		g.compare(c, r.sends, m.sends, true, "OWNFRAG", "CON")
	})
}
