package ctngverif

// P02: no party accepts a gossip object that is not authentic, and genuine
// objects are accepted.

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"strings"
	"testing"
	"time"

	"github.com/jik18001/CTngV2/definition"
	"pgregory.net/rapid"
)

// drawGenuine draws a genuine object of any type.
func drawGenuine(rt *rapid.T, w *World, label string) definition.Gossip_object {
	p := rapid.IntRange(0, 59).Draw(rt, label+" period")
	who := rapid.IntRange(0, 1).Draw(rt, label+" who")
	r1 := rapid.IntRange(0, 5).Draw(rt, label+" content")
	kind := rapid.SampledFrom([]string{"STH", "REV", "ACC", "CON"}).Draw(rt, label+" kind")
	stage := rapid.SampledFrom([]string{"INIT", "FRAG", "FULL"}).Draw(rt, label+" stage")
	mk := func(k string, content int) definition.Gossip_object {
		switch k {
		case "STH":
			return w.sth(w.L[who], p, hex.EncodeToString(sha([]byte{byte(content)})), content)
		case "REV":
			d := bits(uint(8+content), uint(content))
			return w.rev(w.C[who], p, d, d)
		}
		return w.acc(w.M[content%len(w.M)], w.entities()[who*2], p)
	}
	if kind == "CON" {
		k := []string{"STH", "REV"}[r1%2]
		return w.con(mk(k, r1), mk(k, r1+1), p)
	}
	o := mk(kind, r1)
	switch stage {
	case "FRAG":
		return w.frag(w.G[r1%len(w.G)], o)
	case "FULL":
		return w.full(w.G[:w.T], o, p)
	}
	return o
}

var allTypes = []string{definition.STH_INIT, definition.REV_INIT, definition.ACC_INIT, definition.CON_INIT, definition.STH_FRAG, definition.REV_FRAG,
	definition.ACC_FRAG, definition.STH_FULL, definition.REV_FULL, definition.ACC_FULL}

// mutate applies one generated forgery to an object.
func mutate(rt *rapid.T, w *World, o, other definition.Gossip_object, label string) (definition.Gossip_object, string) {
	op := rapid.SampledFrom([]string{"type", "period", "period form", "signer", "entity", "payload swap", "payload of other", "signature of other", "signature id", "signature bytes",
		"resign by another", "frag by another", "shift", "reshape statement", "metadata", "second signature", "empty field", "signed period", "truncate", "unknown entity signed", "sign anew"}).Draw(rt, label)
	k := rapid.IntRange(0, 1000).Draw(rt, label+" k")
	ids := append(append(cp(w.G), w.M...), append(w.entities(), "localhost:6666", "")...)
	switch op {
	case "type":
		o.Type = allTypes[k%len(allTypes)]
	case "period":
		o.Period = p2(k)
	case "period form": // the same number, written otherwise
		o.Period = []string{"0" + o.Period, strings.TrimPrefix(o.Period, "0"), "+" + o.Period, " " + o.Period, o.Period + " ", "-" + o.Period}[k%6]
	case "signer":
		o.Signer = ids[k%len(ids)]
	case "entity":
		o.Payload[0] = ids[k%len(ids)]
	case "payload swap":
		i, j := k%3, (k/3)%3
		o.Payload[i], o.Payload[j] = o.Payload[j], o.Payload[i]
	case "payload of other":
		o.Payload[k%3] = other.Payload[k%3]
	case "signature of other":
		o.Signature[k%2] = other.Signature[(k/2)%2]
	case "signature id":
		m := map[string]any{}
		if json.Unmarshal([]byte(o.Signature[0]), &m) == nil {
			if _, ok := m["id"]; ok {
				m["id"] = ids[k%len(ids)]
			} else {
				m["ids"] = []string{w.G[k%len(w.G)], w.G[(k/7)%len(w.G)]}
			}
			o.Signature[0] = string(js(m))
		}
	case "signature bytes":
		b := []byte(o.Signature[0])
		if len(b) > 0 {
			b[k%len(b)] ^= byte(1 + k%3)
			o.Signature[0] = string(b)
		}
	case "resign by another": // another known party signs the statement
		id := ids[k%(len(ids)-2)]
		o.Signature[0] = w.rsaSig(id, msgOf(o))
		if k%2 == 0 {
			o.Signer = id
		}
		if k%3 == 0 { // under the name of the original signer
			o.Signature[0] = rsaSigString(rsaRaw(w.rsa[id], msgOf(o)), o.Signer)
		}
	case "frag by another":
		g := w.G[k%len(w.G)]
		name := g
		if k%2 == 0 {
			name = w.G[(k/2)%len(w.G)]
		}
		o.Signature[0] = fragSigString(w.bls[g].Sign(msgOf(o)), name)
		if k%3 == 0 {
			o.Signer = name
		}
	case "shift": // move bytes between the fields, the concatenation stays
		all := msgOf(o)
		i := k % (len(all) + 1)
		j := i + (k/7)%(len(all)-i+1)
		o.Payload = [3]string{all[:i], all[i:j], all[j:]}
	case "reshape statement": // a signed STH or revocation as an object of another type
		switch k % 4 {
		case 0:
			o.Payload = [3]string{o.Payload[0], o.Payload[1] + o.Payload[2], ""}
		case 1:
			o.Payload = [3]string{o.Payload[0] + o.Payload[1], o.Payload[2], ""}
		case 2:
			o.Payload = [3]string{o.Payload[0], "", o.Payload[1] + o.Payload[2]}
		case 3:
			o.Payload = [3]string{o.Payload[0] + o.Payload[1] + o.Payload[2], "", ""}
		}
	case "metadata":
		o.Timestamp, o.Application, o.Crypto_Scheme = "x", "y", "z"
		o.Signers = []string{"a"}
	case "second signature":
		o.Signature[1] = other.Signature[0]
	case "empty field":
		switch k % 5 {
		case 0, 1, 2:
			o.Payload[k%5] = ""
		default:
			o.Signature[0] = ""
		}
	case "signed period": // a genuine statement for another period, relabelled
		if _, ok := w.rsa[o.Payload[0]]; !ok {
			break
		}
		switch o.Type {
		case definition.STH_INIT:
			n := w.sth(o.Payload[0], k%60, "00", 1)
			n.Period = o.Period
			o = n
		case definition.REV_INIT:
			n := w.rev(o.Payload[0], k%60, bits(9), bits(9))
			n.Period = o.Period
			o = n
		}
	case "unknown entity signed": // everything else in order
		o.Payload[0] = "localhost:6666"
		o = w.signAnew(o, k)
	case "sign anew": // whatever it says by now, with proper signatures of those it names
		o = w.signAnew(o, k)
	case "truncate":
		i := k % 3
		if n := len(o.Payload[i]); n > 0 {
			o.Payload[i] = o.Payload[i][:n-1-(k/3)%min(n, 4)%n]
		}
	}
	return o, op
}

func drawForgery(rt *rapid.T, w *World) (definition.Gossip_object, []string) {
	o := drawGenuine(rt, w, "object")
	other := drawGenuine(rt, w, "other")
	n := rapid.IntRange(0, 3).Draw(rt, "changes")
	ops := []string{}
	for i := 0; i < n; i++ {
		var op string
		o, op = mutate(rt, w, o, other, fmt.Sprintf("change %d", i))
		ops = append(ops, op)
	}
	return o, ops
}

func TestP02Verify(t *testing.T) {
	check(t, 2200, func(rt *rapid.T, c *Case) {
		w := drawWorld(rt, 2, 4, 2, 2)
		o, ops := drawForgery(rt, w)
		want, why := w.authentic(o)
		c.Describe("%s after %v: authentic=%v %s", short(o), ops, want, why)
		c.NonTrivial(fmt.Sprintf("%s %v %s %s", o.Type, ops, o.Payload[0], o.Period))
		class(fmt.Sprintf("%s authentic=%v", definition.TypeString(o.Type), want))
		id := append(append(append(cp(w.G), w.M...), w.C...), w.L...)[rapid.IntRange(0, 2*len(w.G)+3).Draw(rt, "verifier")]
		safely(c, "verifying "+string(js(o)), func() {
			got := o.Verify(w.cfg(id)) == nil
			if got && !want {
				c.Errorf("%s accepts an object that %s: %s", id, why, js(o))
			}
			if want && !got && len(ops) == 0 {
				c.Errorf("%s rejects a genuine object: %v %s", id, o.Verify(w.cfg(id)), js(o))
			}
		})
	})
}

// What is not authentic has no effect on a gossiper and its peers, or on a monitor.
func TestP02Effects(t *testing.T) {
	slots(t, 1, 1, 0, 0)
	check(t, 500, func(rt *rapid.T, c *Case) {
		w := drawWorld(rt, 2, 4, 2, 2)
		o, ops := drawForgery(rt, w)
		path := pathOf[o.Type]
		if path == "" || rapid.IntRange(0, 4).Draw(rt, "path") == 0 {
			path = rapid.SampledFrom([]string{"/gossip/sth_init", "/gossip/rev_init", "/gossip/acc_init", "/gossip/con_init", "/gossip/sth_frag", "/gossip/rev_frag", "/gossip/acc_frag"}).Draw(rt, "endpoint")
		}
		second := rapid.IntRange(0, 30).Draw(rt, "second")
		want, why := w.authentic(o)
		dir := scratch()
		c.Describe("%s after %v to %s: authentic=%v %s", short(o), ops, path, want, why)
		c.NonTrivial(fmt.Sprintf("%s %v %s %s", o.Type, ops, path, o.Period))
		class(fmt.Sprintf("effects authentic=%v", want))
		bubble(t, c, 7, second, func() {
			n := newNet(c)
			defer n.install()()
			n.gossiper(w, 0, 5, dir)
			mon := n.monitor(w, 0, 5, dir)
			for _, g := range w.G[1:] {
				n.hosts[g] = sink
			}
			n.post(w.G[0], path, js(o))
			resp, err := n.post(w.M[0], "/monitor/receive-gossip-from-gossiper", js(o))
			time.Sleep(8 * time.Second)
			if want {
				return
			}
			// an honest peer sends the payload of a revocation separately, so a fragment without it may ask for it
			for _, m := range n.sent(func(m *Msg) bool { return m.Src == w.G[0] && !strings.Contains(m.Path, "request") }) {
				c.Errorf("a gossiper sends %s %s after an object that %s: %s", m.Dst+m.Path, clip(string(m.Body), 300), why, js(o))
			}
			for _, m := range n.sent(func(m *Msg) bool { return m.Src == w.M[0] }) {
				c.Errorf("a monitor sends %s after an object that %s: %s", m.Dst+m.Path, why, js(o))
			}
			if err == nil && resp.StatusCode == 200 && (o.Type != "" && definition.TypeString(o.Type) != "UNKNOWN") && monitorHolds(mon, o) {
				c.Errorf("a monitor stores an object that %s: %s", why, js(o))
			}
		})
	})
}
