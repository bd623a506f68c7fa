package ctngverif

// P14: the log. Every precertificate a logger took is in the tree it signs,
// with a proof of inclusion that goes to its issuer; nothing else has a proof.

import (
	"bytes"
	"crypto/x509"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"sort"
	"strings"
	"testing"
	"time"

	merkletree "github.com/txaty/go-merkletree"

	"github.com/jik18001/CTngV2/CA"
	"github.com/jik18001/CTngV2/Logger"
	"github.com/jik18001/CTngV2/crypto"
	"github.com/jik18001/CTngV2/definition"
	"pgregory.net/rapid"
)

func TestP14Tree(t *testing.T) {
	check(t, 2500, func(rt *rapid.T, c *Case) {
		w := newWorld(rapid.IntRange(0, 3).Draw(rt, "naming"), 2, 1, 2, 2)
		n := rapid.OneOf(rapid.IntRange(0, 9), rapid.IntRange(0, 70), rapid.SampledFrom([]int{0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 33, 64, 65, 127, 129, 300})).Draw(rt, "size")
		salt := rapid.IntRange(0, 1000).Draw(rt, "salt")
		period := rapid.IntRange(0, 59).Draw(rt, "period")
		subjects := []string{}
		certs := []x509.Certificate{}
		for i := 0; i < n; i++ {
			s := fmt.Sprintf("Subject %d of %d", i, salt)
			if i%3 == 1 {
				s = strings.Repeat("long ", i%7) + s
			}
			subjects = append(subjects, s)
			x := bare(w.C[i%2], s)
			if i < 12 {
				drawShape(rt)(&x)
			}
			certs = append(certs, x)
		}
		ctx := freshLogger(w, 0, workDir)
		o, root, pois := Logger.BuildMerkleTreeFromCerts(certs, *ctx, period)
		s, err := sthOf(o)
		c.Describe("log of %d certificates, salt %d", n, salt)
		c.NonTrivial(fmt.Sprint(n, salt, period))
		class(fmt.Sprintf("size %s", map[bool]string{true: fmt.Sprint(n), false: "more"}[n < 4]))
		if err != nil {
			c.Errorf("the STH can not be decoded: %v", err)
			return
		}
		if s.TreeSize != n || s.RootHash != hex.EncodeToString(root) || s.Signer != w.L[0] || o.Signer != w.L[0] || o.Period != p2(period) || o.Type != definition.STH_INIT {
			c.Errorf("the STH of a log of %d certificates says %+v, in an object of %s for period %s (asked for %d), root %x", n, s, o.Signer, o.Period, period, root)
		}
		if !w.rsaValid(w.L[0], msgOf(o), o.Signature[0]) {
			c.Errorf("the STH is not signed by the logger")
		}
		if len(pois) != n {
			c.Errorf("%d proofs for %d certificates", len(pois), n)
			return
		}
		for i, poi := range pois {
			// as it arrives at the CA
			var q crypto.POI_for_transmission
			if err := json.Unmarshal(js(poi), &q); err != nil || q.Poi == nil && n > 1 {
				c.Errorf("proof %d is lost in transmission: %v", i, err)
				return
			}
			if string(q.SubjectKeyId) != string(certs[i].SubjectKeyId) || q.Issuer != certs[i].Issuer.CommonName || q.LoggerID != w.L[0] {
				c.Errorf("proof %d is labelled %x %s %s", i, q.SubjectKeyId, q.Issuer, q.LoggerID)
			}
			if ok, err := crypto.VerifyPOI(root, q.Poi, certs[i]); !ok || err != nil {
				c.Errorf("the proof of certificate %d of %d does not verify (%v)", i, n, err)
				return
			}
		}
		if n == 0 {
			return
		}
		// soundness: for another certificate, another log, a changed proof
		i := rapid.IntRange(0, n-1).Draw(rt, "which")
		never := func(what string, root []byte, p *merkletree.Proof, x x509.Certificate) {
			if ok, _ := crypto.VerifyPOI(root, p, x); ok {
				c.Errorf("%s verifies (log of %d, certificate %d)", what, n, i)
			}
		}
		p := *pois[i].Poi
		never("a proof for a certificate that is not in the log", root, &p, bare(w.C[0], "somebody else"))
		if n > 1 {
			j := rapid.IntRange(0, n-2).Draw(rt, "other")
			if j >= i {
				j++
			}
			if !proofLeads(subjects[j], root, p.Siblings, p.Path) {
				never("the proof of another certificate", root, &p, certs[j])
			} else {
				c.Errorf("the proofs of two certificates are the same")
			}
		}
		if len(p.Siblings) > 0 {
			k := rapid.IntRange(0, len(p.Siblings)-1).Draw(rt, "sibling")
			q := p
			q.Siblings = append([][]byte{}, p.Siblings...)
			q.Siblings[k] = append([]byte{}, q.Siblings[k]...)
			q.Siblings[k][rapid.IntRange(0, len(q.Siblings[k])-1).Draw(rt, "byte")] ^= 1 << rapid.IntRange(0, 7).Draw(rt, "bit")
			never("a proof with a changed bit", root, &q, certs[i])
			q.Siblings = p.Siblings[:len(p.Siblings)-1]
			never("a shortened proof", root, &q, certs[i])
			q.Siblings = append(append([][]byte{}, p.Siblings...), sha([]byte("x")))
			never("a lengthened proof", root, &q, certs[i])
		}
		other := append([]byte{}, root...)
		other[rapid.IntRange(0, len(other)-1).Draw(rt, "byte")] ^= 0x40
		never("a proof for another root", other, &p, certs[i])
		// another log has another root
		changed := append([]x509.Certificate{}, certs...)
		what := rapid.SampledFrom([]string{"replaced", "removed", "added", "swapped"}).Draw(rt, "change")
		switch what {
		case "replaced":
			changed[i] = bare(w.C[0], "somebody else")
		case "removed":
			changed = append(changed[:i:i], changed[i+1:]...)
		case "added":
			changed = append(changed, bare(w.C[0], "somebody else"))
		case "swapped":
			if n == 1 {
				return
			}
			j := (i + 1) % n
			changed[i], changed[j] = changed[j], changed[i]
		}
		o2, root2, _ := Logger.BuildMerkleTreeFromCerts(changed, *ctx, period)
		if hex.EncodeToString(root2) == hex.EncodeToString(root) {
			c.Errorf("a log with one certificate %s has the same root (%d certificates, %d)", what, n, i)
		}
		if s2, _ := sthOf(o2); s2.TreeSize != len(changed) {
			c.Errorf("the STH says %d, the log has %d", s2.TreeSize, len(changed))
		}
		// the same log has the same root
		if _, again, _ := Logger.BuildMerkleTreeFromCerts(certs, *ctx, period); hex.EncodeToString(again) != hex.EncodeToString(root) {
			c.Errorf("the same log has two roots")
		}
	})
}

// A real logger takes precertificates over HTTP, also repeated and malformed
// ones, also at the moment it builds its tree.
func TestP14Server(t *testing.T) {
	slots(t, 0, 0, 1, 0)
	check(t, 700, func(rt *rapid.T, c *Case) {
		w := newWorld(rapid.IntRange(0, 3).Draw(rt, "naming"), 2, 1, 2, 2)
		minute := rapid.OneOf(rapid.IntRange(0, 59), rapid.SampledFrom([]int{58, 59, 8, 9})).Draw(rt, "minute")
		periods := rapid.IntRange(1, 3).Draw(rt, "periods")
		pool := []*precert{}
		for i, n := 0, rapid.IntRange(1, 9).Draw(rt, "pool"); i < n; i++ {
			subject := fmt.Sprintf("Testing Dummy %d", i/2)
			if i < 2 && percent(rt, "own name", 8) {
				subject = w.C[i%2] // of the CA itself
			}
			x := w.precert(w.C[i%2], subject, i)
			if percent(rt, "other shape", 30) {
				x.cert = leafBy(w.rsa[x.ca], x.ca, subject, keyID(x.ca, subject), CA.CTngExtension{SequenceNumber: CA.SequenceNumber{RID: i}}, drawShape(rt))
				x.raw = x.cert.Raw
			}
			if i > 0 && percent(rt, "same key", 15) {
				// for a key that has a precertificate already, under another name
				of := pool[rapid.IntRange(0, i-1).Draw(rt, "key")].cert.SubjectKeyId
				x.cert = leafBy(w.rsa[x.ca], x.ca, x.subject, of, CA.CTngExtension{SequenceNumber: CA.SequenceNumber{RID: i}})
				x.raw = x.cert.Raw
			}
			pool = append(pool, x)
		}
		// precertificates that no CA of the logger has signed
		foreign := [][]byte{[]byte("not a certificate")}
		for i, n := 0, rapid.IntRange(0, 4).Draw(rt, "foreign"); i < n; i++ {
			x := pool[rapid.IntRange(0, len(pool)-1).Draw(rt, "of")]
			ext := CA.CTngExtension{SequenceNumber: CA.SequenceNumber{RID: i}}
			switch rapid.IntRange(0, 5).Draw(rt, "foreign kind") {
			case 4: // by itself, in the name of the CA
				foreign = append(foreign, leafBy(rsaPool[0], x.ca, x.ca, keyID(x.ca, x.subject), ext, drawShape(rt)).Raw)
			case 5: // by itself
				foreign = append(foreign, leafBy(rsaPool[0], x.subject, x.subject, x.cert.SubjectKeyId, ext, drawShape(rt)).Raw)
			case 0: // in the name of the CA, by the other one
				other := w.C[0]
				if x.ca == other {
					other = w.C[1]
				}
				foreign = append(foreign, leafBy(w.rsa[other], x.ca, x.subject, x.cert.SubjectKeyId, ext).Raw)
			case 1: // by a known party that is no CA
				id := rapid.SampledFrom([]string{w.L[0], w.M[0]}).Draw(rt, "by")
				foreign = append(foreign, leafBy(w.rsa[id], id, x.subject, keyID(id, x.subject), ext).Raw)
			case 2: // by an unknown one
				foreign = append(foreign, leafBy(w.rsa[x.ca], "unknown:1", x.subject, x.cert.SubjectKeyId, ext).Raw)
			default: // altered
				b := append([]byte{}, x.raw...)
				b[rapid.IntRange(0, len(b)-1).Draw(rt, "position")] ^= 1 << rapid.IntRange(0, 7).Draw(rt, "bit")
				foreign = append(foreign, b)
			}
		}
		type ev struct {
			at int
			x  int // index, below 0: index of the foreign ones
		}
		evs := []ev{}
		for i, n := 0, rapid.IntRange(0, 24).Draw(rt, "events"); i < n; i++ {
			at := min(rapid.OneOf(rapid.IntRange(0, periods*600-1), rapid.SampledFrom([]int{400, 400, 1000})).Draw(rt, "at"), periods*600-1) * 100
			x := rapid.IntRange(0, len(pool)-1).Draw(rt, "precert")
			if percent(rt, "malformed", 25) {
				x = -1 - rapid.IntRange(0, len(foreign)-1).Draw(rt, "which")
			}
			evs = append(evs, ev{at, x})
		}
		sort.SliceStable(evs, func(i, j int) bool { return evs[i].at < evs[j].at })
		deadCA := rapid.SampledFrom([]int{-1, -1, -1, 0, 1}).Draw(rt, "dead CA")
		c.Describe("minute %d, %d periods, %d precertificates, dead CA %d, posted {ms which} %v", minute, periods, len(pool), deadCA, evs)
		if len(evs) > 0 {
			c.NonTrivial(fmt.Sprint(minute, periods, len(pool), deadCA, evs))
		}
		dir := scratch()
		bubble(t, c, minute, 0, func() {
			begin := time.Now()
			nw := newNet(c)
			for i, id := range w.C {
				if i != deadCA {
					nw.hosts[id] = sink
				}
			}
			lg := nw.logger(w, 0, dir)
			startTask(func() { Logger.PeriodicTask(lg) })
			for _, e := range evs {
				e := e
				go func() {
					time.Sleep(time.Until(begin.Add(time.Duration(e.at) * time.Millisecond)))
					if e.x < 0 {
						resp, err := nw.post(w.L[0], "/Logger/receive-precerts", foreign[-1-e.x])
						if err != nil || resp.StatusCode == 200 {
							c.Errorf("the logger takes a precertificate that no CA has signed: %x", foreign[-1-e.x])
						}
						return
					}
					if resp, err := nw.post(w.L[0], "/Logger/receive-precerts", pool[e.x].raw); err != nil || resp.StatusCode != 200 {
						c.Errorf("the logger does not take precertificate %d", e.x)
					}
				}()
			}
			seen := map[int]map[int]int{} // precert -> period -> proofs
			for p := 0; p < periods; p++ {
				time.Sleep(time.Until(begin.Add(time.Duration(p*60+70) * time.Second)))
				// the published STH
				resp, err := nw.get(w.L[0], "/ctng/v2/get-sth/", nil)
				if err != nil || resp.StatusCode != 200 {
					c.Errorf("the logger does not answer: %v", err)
					return
				}
				var o definition.Gossip_object
				b, _ := io.ReadAll(resp.Body)
				json.Unmarshal(b, &o)
				if ok, why := w.authentic(o); !ok || o.Type != definition.STH_INIT || o.Period != p2(minute+p+1) {
					c.Errorf("the logger publishes in minute %d an object that %s: %s", minute+p+1, why, clip(string(b), 300))
					return
				}
				s, _ := sthOf(o)
				root, _ := hex.DecodeString(s.RootHash)
				in := func(m *Msg) bool {
					d := m.At.Sub(begin)
					return d > time.Duration(p*60+10)*time.Second && d < time.Duration(p*60+70)*time.Second
				}
				firstSTH := map[string]int{}
				for i, m := range nw.sent(func(m *Msg) bool { return m.Src == w.L[0] && in(m) }) {
					switch {
					case strings.HasPrefix(m.Path, "/CA/receive-sth"):
						if string(js(objOf(m))) != string(js(o)) {
							c.Errorf("the logger sends a CA another STH than it publishes: %s", m.Body)
						}
						if _, ok := firstSTH[m.Dst]; ok {
							c.Errorf("the logger sends %s the STH twice", m.Dst)
						}
						firstSTH[m.Dst] = i
					case strings.HasPrefix(m.Path, "/CA/receive-poi"):
						if _, ok := firstSTH[m.Dst]; !ok {
							c.Errorf("the logger sends %s a proof before the STH", m.Dst)
						}
						var poi crypto.POI_for_transmission
						json.Unmarshal(m.Body, &poi)
						which := -1
						for k, x := range pool {
							if bytes.Equal(x.cert.SubjectKeyId, poi.SubjectKeyId) && x.ca == m.Dst && (which < 0 || poi.Poi != nil && proofLeads(x.subject, root, poi.Poi.Siblings, poi.Poi.Path)) {
								which = k
							}
						}
						if which < 0 || pool[which].ca != m.Dst || poi.Issuer != m.Dst || poi.LoggerID != w.L[0] {
							c.Errorf("a proof for precertificate %d, labelled %s %s, goes to %s", which, poi.Issuer, poi.LoggerID, m.Dst)
							continue
						}
						if poi.Poi == nil || !proofLeads(pool[which].subject, root, poi.Poi.Siblings, poi.Poi.Path) {
							c.Errorf("the proof for precertificate %d in period %d does not lead to the published root", which, p)
						}
						if seen[which] == nil {
							seen[which] = map[int]int{}
						}
						seen[which][p]++
					}
				}
				for _, id := range w.C {
					if _, ok := firstSTH[id]; !ok {
						c.Errorf("the logger does not send %s its STH of period %d", id, p)
					}
				}
				// what has to be in the log of this period
				size := 0
				for k := range pool {
					must, may := false, false
					for _, e := range evs {
						if e.x != k {
							continue
						}
						lo, hi := (p-1)*60000+40000, p*60000+40000
						must = must || e.at > lo && e.at < hi
						may = may || e.at >= lo && e.at <= hi
					}
					got := seen[k][p]
					if got > 1 || must && got == 0 || !may && got > 0 {
						c.Errorf("period %d: %d proofs for precertificate %d", p, got, k)
					}
					size += got
				}
				class(fmt.Sprintf("log size %d", min(size, 4)))
				if s.TreeSize != size {
					c.Errorf("the STH of period %d says %d certificates, %d have proofs", p, s.TreeSize, size)
				}
			}
			// what arrived while a tree was built is in that tree or in the next
			for k := range pool {
				for p := 0; p+1 < periods; p++ {
					edge := false
					for _, e := range evs {
						edge = edge || e.x == k && e.at == p*60000+40000
					}
					if edge && seen[k][p]+seen[k][p+1] == 0 {
						c.Errorf("precertificate %d, posted while the log of period %d was built, is in no log", k, p)
					}
				}
			}
			time.Sleep(time.Until(begin.Add(time.Duration(periods*60+15) * time.Second)))
		})
	})
}
