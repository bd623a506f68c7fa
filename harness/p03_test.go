package ctngverif

// P03: a conflict PoM convicts an entity exactly when the entity really signed
// two different statements of the same kind for the same period.

import (
	"encoding/hex"
	"fmt"
	"strings"
	"testing"
	"time"

	"github.com/jik18001/CTngV2/definition"
	"pgregory.net/rapid"
)

type stmt struct {
	entity  int // index into entities
	period  int
	content int
}

func (w *World) make(s stmt) definition.Gossip_object {
	id := w.entities()[s.entity]
	if s.entity < len(w.L) {
		return w.sth(id, s.period, hex.EncodeToString(sha([]byte{byte(s.content)})), s.content)
	}
	return w.rev(id, s.period, bits(uint(20), uint(s.content)), bits(uint(20), uint(s.content)))
}

func drawStmt(rt *rapid.T, w *World, label string) stmt {
	return stmt{rapid.IntRange(0, len(w.L)+len(w.C)-1).Draw(rt, label+" entity"),
		rapid.OneOf(rapid.IntRange(0, 59), rapid.SampledFrom([]int{0, 1, 59, 58})).Draw(rt, label+" period"), rapid.IntRange(0, 3).Draw(rt, label+" content")}
}

// drawFree composes a proof of two sides that are drawn independently: which kind of statement by whom,
// who signs it, under which name, and how the signature is written.
func drawFree(rt *rapid.T, w *World) (definition.Gossip_object, string) {
	accused := rapid.SampledFrom(append(w.entities(), w.M[0], w.G[0])).Draw(rt, "accused")
	other := rapid.SampledFrom(append(w.entities(), w.M[0], w.G[0])).Draw(rt, "other")
	p := rapid.IntRange(0, 59).Draw(rt, "period")
	con := definition.Gossip_object{Application: "CTng", Type: definition.CON_INIT, Period: p2(p), Timestamp: "2023-01-01T00:00:00Z", Payload: [3]string{accused, "", ""}}
	same := rapid.IntRange(0, 3).Draw(rt, "same kind and period") < 3
	kinds := []string{"STH", "REV", "STH", "REV", "ACC"}
	k0 := rapid.SampledFrom(kinds).Draw(rt, "kind")
	content0 := rapid.IntRange(0, 3).Draw(rt, "content")
	how := "free"
	pick := func(label string) string { // mostly the accused
		if rapid.IntRange(0, 9).Draw(rt, label) == 9 {
			return other
		}
		return accused
	}
	for i := 1; i <= 2; i++ {
		l := fmt.Sprintf("side %d ", i)
		k, q, content := k0, p, content0
		if i == 2 {
			content = content0 + rapid.IntRange(0, 2).Draw(rt, l+"content")
			if !same {
				k = rapid.SampledFrom(kinds).Draw(rt, l+"kind")
				q = (p + rapid.IntRange(0, 1).Draw(rt, l+"later")) % 60
			}
		}
		about := pick(l + "about")
		var o definition.Gossip_object
		switch k {
		case "STH":
			o = w.sth(about, q, hex.EncodeToString(sha([]byte{byte(content)})), content)
		case "REV":
			o = w.rev(about, q, bits(uint(20), uint(content)), bits(uint(20), uint(content)))
		default:
			o = w.acc(w.M[0], about, q)
		}
		con.Payload[i] = msgOf(o)
		by, name := accused, accused
		switch rapid.IntRange(0, 9).Draw(rt, l+"signed") {
		case 7: // by another, in its own name
			by, name = other, other
		case 8: // by another, in the name of the accused
			by = other
		case 9: // in the name of another
			name = other
		}
		sig := rsaRaw(w.rsa[by], con.Payload[i])
		h := hex.EncodeToString(sig)
		switch rapid.IntRange(0, 9).Draw(rt, l+"written") {
		case 7:
			con.Signature[i-1] = fmt.Sprintf(`{"sig":"%s","id":"%s"}`, strings.ToUpper(h), name)
			how = "free, written otherwise"
		case 8:
			con.Signature[i-1] = fmt.Sprintf(`{ "id": "%s", "sig": "%s" }`, name, h)
			how = "free, written otherwise"
		case 9:
			con.Signature[i-1] = fmt.Sprintf(`{"sig":"%s","id":"%s","n":"%d"}`, h, name, i)
			how = "free, written otherwise"
		default:
			con.Signature[i-1] = rsaSigString(sig, name)
		}
	}
	return con, how
}

func drawCON(rt *rapid.T, w *World) (definition.Gossip_object, string) {
	if rapid.IntRange(0, 2).Draw(rt, "composed freely") == 0 {
		return drawFree(rt, w)
	}
	a := drawStmt(rt, w, "first")
	b := a
	how := rapid.SampledFrom([]string{"equivocation", "same", "next period", "other period", "other entity", "other kind", "forged second", "forged first", "third party", "other accused",
		"accusation", "unknown accused", "prefix", "resigned"}).Draw(rt, "pair")
	k := rapid.IntRange(1, 59).Draw(rt, "k")
	b.content = a.content + 1
	switch how {
	case "same":
		b = a
	case "next period":
		b.period = (a.period + 1) % 60
	case "other period":
		b.period = (a.period + k) % 60
	case "other entity":
		b.entity = (a.entity + 1 + k%(len(w.entities())-1)) % len(w.entities())
	case "other kind":
		b.entity = (a.entity + len(w.L)) % len(w.entities())
	}
	x, y := w.make(a), w.make(b)
	con := w.con(x, y, a.period)
	switch how {
	case "forged second":
		con.Payload[2] = con.Payload[2][:len(con.Payload[2])-1]
	case "forged first": // an attacker writes the first statement under the name of the accused
		con.Payload[1] = msgOf(w.make(stmt{a.entity, a.period, a.content + 2}))
	case "third party": // both statements signed by somebody else
		id := w.M[0]
		con.Signature = [2]string{w.rsaSig(id, con.Payload[1]), w.rsaSig(id, con.Payload[2])}
	case "resigned": // signed by somebody else under the name of the accused
		con.Signature[1] = rsaSigString(rsaRaw(w.rsa[w.M[0]], con.Payload[2]), con.Payload[0])
	case "other accused":
		con.Payload[0] = w.entities()[(a.entity+1)%len(w.entities())]
	case "accusation": // two accusations are no statements of the accused
		con.Payload[1], con.Payload[2] = con.Payload[0], con.Payload[0]
		con.Signature = [2]string{w.rsaSig(con.Payload[0], con.Payload[0]), w.rsaSig(con.Payload[0], con.Payload[0])}
	case "unknown accused":
		con.Payload[0] = "localhost:6666"
	case "prefix":
		con.Payload[0] = con.Payload[0][:len(con.Payload[0])-1]
	}
	if rapid.Bool().Draw(rt, "swap") {
		con.Payload[1], con.Payload[2] = con.Payload[2], con.Payload[1]
		con.Signature[0], con.Signature[1] = con.Signature[1], con.Signature[0]
	}
	return con, how
}

func TestP03Proof(t *testing.T) {
	check(t, 2500, func(rt *rapid.T, c *Case) {
		w := drawWorld(rt, 2, 3, 2, 2)
		con, how := drawCON(rt, w)
		want, why := w.authentic(con)
		c.Describe("%s pair: %s: convicts=%v %s", how, short(con), want, why)
		c.NonTrivial(fmt.Sprintf("%s %s %s", how, con.Payload[0], con.Payload[1]))
		class(fmt.Sprintf("%s convicts=%v", how, want))
		safely(c, "verifying", func() {
			if got := con.Verify(w.cfg(w.G[0])) == nil; got != want && (got || how != "free, written otherwise") {
				c.Errorf("the proof is accepted: %v, has to be: %v (it %s): %s", got, want, why, js(con))
			}
		})
	})
}

// The proof convicts at a gossiper (whose peers are told) and at a monitor, or has no effect.
func TestP03Effect(t *testing.T) {
	slots(t, 1, 1, 0, 0)
	check(t, 300, func(rt *rapid.T, c *Case) {
		w := drawWorld(rt, 2, 3, 2, 2)
		con, how := drawCON(rt, w)
		minute := rapid.IntRange(0, 59).Draw(rt, "minute")
		want, why := w.authentic(con)
		if want && how == "free, written otherwise" {
			rt.Skip("an unusual way to write a signature need not be accepted")
		}
		c.Describe("%s pair at minute %d: %s: convicts=%v %s", how, minute, short(con), want, why)
		c.NonTrivial(fmt.Sprintf("%s %s %s", how, con.Payload[0], con.Payload[1]))
		class(fmt.Sprintf("effect %s convicts=%v", how, want))
		dir := scratch()
		bubble(t, c, minute, 3, func() {
			n := newNet(c)
			defer n.install()()
			g := n.gossiper(w, 0, 5, dir)
			m := n.monitor(w, 0, 5, dir)
			for _, x := range w.G[1:] {
				n.hosts[x] = sink
			}
			n.post(w.G[0], "/gossip/con_init", js(con))
			time.Sleep(2 * time.Second)
			for _, e := range append(w.entities(), con.Payload[0]) {
				listed := e == con.Payload[0] && want
				if g.InBlacklistPerm(e) != listed {
					c.Errorf("the gossiper lists %s as malicious: %v, has to be: %v (the proof %s)", e, !listed, listed, why)
				}
				held := false
				for id := range *m.Storage_CONFLICT_POM {
					if id.Entity_URL == e {
						held = true
					}
				}
				if held != listed {
					c.Errorf("the monitor holds a proof against %s: %v, has to be: %v (the proof %s)", e, held, listed, why)
				}
			}
			told := map[string]bool{}
			for _, x := range n.sent(func(m *Msg) bool { return m.Src == w.G[0] }) {
				told[x.Dst] = true
			}
			for _, x := range append(cp(w.G[1:]), w.M[0]) {
				if told[x] != want {
					c.Errorf("the gossiper passes the proof on to %s: %v, has to be: %v", x, told[x], want)
				}
			}
		})
	})
}
