package ctngverif

// P01: a threshold certificate is accepted exactly when at least the
// configured number of distinct known gossipers signed that very statement.

import (
	"fmt"
	"sort"
	"strings"
	"testing"

	"github.com/herumi/bls-go-binary/bls"
	"github.com/jik18001/CTngV2/crypto"
	"github.com/jik18001/CTngV2/definition"
	"pgregory.net/rapid"
)

func drawText(rt *rapid.T, label string) string {
	return rapid.OneOf(rapid.StringN(0, 12, 40), rapid.SampledFrom([]string{"", "localhost:9000", "localhost:9100CRV{}", strings.Repeat("x", 3000)})).Draw(rt, label)
}

func multiset(a []string) string {
	b := cp(a)
	sort.Strings(b)
	return strings.Join(b, "|")
}

func TestP01Certificate(t *testing.T) {
	check(t, 900, func(rt *rapid.T, c *Case) {
		w := drawWorld(rt, 1, 6, 1, 1)
		w.T = rapid.IntRange(1, len(w.G)+1).Draw(rt, "T")
		msg := drawText(rt, "statement")
		// who really signed, and who is claimed to have signed
		actual := rapid.SliceOfN(rapid.IntRange(0, len(w.G)-1), 1, len(w.G)+2).Draw(rt, "actual")
		if rapid.Bool().Draw(rt, "distinct") {
			seen := map[int]bool{}
			d := []int{}
			for _, x := range actual {
				if !seen[x] {
					d = append(d, x)
				}
				seen[x] = true
			}
			actual = d
		}
		as := []string{}
		for _, x := range actual {
			as = append(as, w.G[x])
		}
		signed := msg
		claimed := cp(as)
		tamper := rapid.SampledFrom([]string{"none", "none", "other statement", "add claimed", "drop claimed", "replace claimed", "unknown claimed", "duplicate claimed", "empty claimed", "identity", "no signature", "shuffled"}).Draw(rt, "tamper")
		k := rapid.IntRange(0, 30).Draw(rt, "k")
		sig := w.aggregate(as, signed)
		switch tamper {
		case "other statement":
			sig = w.aggregate(as, signed+"!")
		case "add claimed":
			claimed = append(claimed, w.G[k%len(w.G)])
		case "drop claimed":
			claimed = append(cp(claimed[:k%len(claimed)]), claimed[k%len(claimed)+1:]...)
		case "replace claimed":
			claimed[k%len(claimed)] = w.G[(k/3)%len(w.G)]
		case "unknown claimed":
			claimed = append(claimed, "localhost:6666")
		case "duplicate claimed":
			claimed = append(claimed, claimed[k%len(claimed)])
		case "empty claimed":
			claimed = []string{}
		case "identity": // the neutral element of the group
			sig = new(bls.Sign)
		case "no signature":
			sig = nil
		case "shuffled":
			for i := range claimed {
				j := (i + k) % len(claimed)
				claimed[i], claimed[j] = claimed[j], claimed[i]
			}
		}
		distinct := map[string]bool{}
		known := true
		for _, x := range claimed {
			distinct[x] = true
			if _, ok := w.bls[x]; !ok {
				known = false
			}
		}
		want := known && len(distinct) == len(claimed) && len(claimed) >= w.T && multiset(claimed) == multiset(as) && tamper != "other statement" && tamper != "identity" && tamper != "no signature"
		c.Describe("T=%d of %v, signed by %v, claimed %v, tamper %s, accept=%v", w.T, w.G, as, claimed, tamper, want)
		if want || tamper != "none" {
			c.NonTrivial(fmt.Sprintf("%d/%d %v %v %s", w.T, len(w.G), as, claimed, tamper))
		}
		class(fmt.Sprintf("certificate accept=%v tamper=%s", want, tamper))
		ids := []crypto.CTngID{}
		for _, x := range claimed {
			ids = append(ids, crypto.CTngID(x))
		}
		cfg := w.cfg(w.G[k%len(w.G)])
		ts := crypto.ThresholdSig{IDs: ids, Sign: sig}
		if got := cfg.ThresholdVerify(msg, ts) == nil; got != want {
			c.Errorf("the certificate is accepted: %v, has to be: %v", got, want)
		}
		if sig == nil {
			return
		}
		// the same over the serialized form
		str := thresholdSigString(sig, claimed)
		back, err := crypto.ThresholdSigFromString(str)
		if err != nil {
			if tamper != "identity" {
				c.Errorf("the serialized certificate can not be read: %v", err)
			}
		} else if got := cfg.ThresholdVerify(msg, back) == nil; got != want {
			c.Errorf("the certificate read back is accepted: %v, has to be: %v", got, want)
		}
	})
}

func TestP01Object(t *testing.T) {
	check(t, 500, func(rt *rapid.T, c *Case) {
		w := drawWorld(rt, 2, 6, 2, 2)
		p := rapid.IntRange(0, 59).Draw(rt, "period")
		kind := rapid.SampledFrom([]string{"STH", "REV", "ACC"}).Draw(rt, "kind")
		var o definition.Gossip_object
		switch kind {
		case "STH":
			o = w.sth(w.L[rapid.IntRange(0, 1).Draw(rt, "who")], p, drawRoot(rt, "root"), 3)
		case "REV":
			d := bits(40, uint(rapid.IntRange(0, 39).Draw(rt, "bit")))
			o = w.rev(w.C[rapid.IntRange(0, 1).Draw(rt, "who")], p, d, d)
		default:
			o = w.acc(w.M[0], w.entities()[rapid.IntRange(0, 3).Draw(rt, "who")], p)
		}
		perm := rapid.Permutation(w.G).Draw(rt, "order")
		n := rapid.IntRange(1, len(w.G)).Draw(rt, "signers")
		signers := perm[:n]
		dup := rapid.IntRange(0, 3).Draw(rt, "padding") == 0
		claimed := cp(signers)
		if dup { // padded to the threshold with repeated signers, in the signature as well
			for i := 0; len(claimed) < w.T+1; i++ {
				claimed = append(claimed, signers[i%n])
			}
		}
		full := w.full(claimed, o, p)
		want := n >= w.T && len(claimed) == n
		c.Describe("%s, T=%d, signers %v, accept=%v", short(full), w.T, claimed, want)
		c.NonTrivial(fmt.Sprintf("%s %d %v", kind, w.T, claimed))
		class(fmt.Sprintf("object %s accept=%v padded=%v", kind, want, len(claimed) != n))
		for _, id := range []string{w.M[0], w.G[1], w.C[0]} { // every party judges alike
			if got := full.Verify(w.cfg(id)) == nil; got != want {
				c.Errorf("%s accepts the certified object: %v, has to be: %v", id, got, want)
			}
		}
		// the certificate does not carry over to another statement
		other := full
		other.Payload[0] = w.entities()[(rapid.IntRange(0, 3).Draw(rt, "other"))]
		if other.Payload[0] != full.Payload[0] && other.Verify(w.cfg(w.M[0])) == nil {
			c.Errorf("the certificate of %s is accepted for %s", full.Payload[0], other.Payload[0])
		}
	})
}

// The signatures of the code itself: any threshold of gossipers can certify, fewer can not.
func TestP01Produce(t *testing.T) {
	check(t, 350, func(rt *rapid.T, c *Case) {
		n := rapid.IntRange(2, 7).Draw(rt, "n")
		T := rapid.IntRange(2, n).Draw(rt, "T")
		ids := []crypto.CTngID{}
		names := rapid.Permutation([]string{"localhost:8080", "localhost:8081", "localhost:808", "172.30.0.12:3000", "g", "gossiper.ctng.example:80", "localhost:9000"}).Draw(rt, "names")
		for i := 0; i < n; i++ {
			ids = append(ids, crypto.CTngID(names[i]))
		}
		_, pubs, privs, err := crypto.GenerateThresholdKeypairs(ids, T)
		if err != nil || len(pubs) != n || len(privs) != n {
			c.Errorf("key generation: %v, %d public and %d secret keys for %d gossipers", err, len(pubs), len(privs), n)
			return
		}
		msg := drawText(rt, "statement")
		subset := rapid.SliceOfNDistinct(rapid.IntRange(0, n-1), 1, n, rapid.ID[int]).Draw(rt, "signers")
		frags := []crypto.SigFragment{}
		for _, i := range subset {
			cfg := &crypto.CryptoConfig{Threshold: T, N: n, ThresholdScheme: "bls", SelfID: ids[i], ThresholdPublicMap: pubs, ThresholdSecretKey: privs[ids[i]]}
			f, err := cfg.ThresholdSign(msg)
			if err != nil {
				c.Errorf("signing: %v", err)
				return
			}
			if f.ID != ids[i] {
				c.Errorf("the fragment of %s names %s", ids[i], f.ID)
			}
			// each fragment is verified by the key of its signer only
			for _, j := range ids {
				g := f
				g.ID = j
				if ok := cfg.FragmentVerify(msg, g) == nil; ok != (j == ids[i]) {
					c.Errorf("the fragment of %s passes as the fragment of %s: %v", ids[i], j, ok)
				}
			}
			if cfg.FragmentVerify(msg+"x", f) == nil {
				c.Errorf("a fragment verifies another statement")
			}
			g, err := crypto.SigFragmentFromString(f.String())
			if err != nil || g.ID != f.ID || cfg.FragmentVerify(msg, g) != nil {
				c.Errorf("a fragment does not survive serialization: %v", err)
			}
			frags = append(frags, f)
		}
		cfg := &crypto.CryptoConfig{Threshold: T, N: n, ThresholdScheme: "bls", ThresholdPublicMap: pubs}
		agg, err := cfg.ThresholdAggregate(frags)
		enough := len(subset) >= T
		c.Describe("n=%d T=%d signers=%v statement %q", n, T, subset, clip(msg, 60))
		if n > 1 {
			c.NonTrivial(fmt.Sprintf("%d %d %v", n, T, subset))
		}
		class(fmt.Sprintf("produce enough=%v", enough))
		if !enough {
			if err == nil && cfg.ThresholdVerify(msg, agg) == nil {
				c.Errorf("%d fragments make a certificate that needs %d", len(subset), T)
			}
			return
		}
		if err != nil {
			c.Errorf("a threshold of fragments can not be aggregated: %v", err)
			return
		}
		if err = cfg.ThresholdVerify(msg, agg); err != nil {
			c.Errorf("the certificate of a threshold of gossipers is rejected: %v", err)
		}
		if cfg.ThresholdVerify(msg+"x", agg) == nil {
			c.Errorf("a certificate verifies another statement")
		}
		str, err := agg.String()
		if err != nil {
			c.Errorf("serialization: %v", err)
			return
		}
		back, err := crypto.ThresholdSigFromString(str)
		if err != nil || cfg.ThresholdVerify(msg, back) != nil {
			c.Errorf("a certificate does not survive serialization: %v", err)
		}
	})
}
