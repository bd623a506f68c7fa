package ctngverif

// P12: the client's decision on a certificate, against a model, while updates
// arrive.

import (
	"crypto/x509"
	"encoding/hex"
	"fmt"
	"strings"
	"testing"

	"github.com/bits-and-blooms/bitset"
	"github.com/jik18001/CTngV2/CA"
	"github.com/jik18001/CTngV2/crypto"
	"github.com/jik18001/CTngV2/definition"
	"pgregory.net/rapid"
)

func TestP12Decision(t *testing.T) {
	check(t, 750, func(rt *rapid.T, c *Case) {
		nL := rapid.IntRange(1, 3).Draw(rt, "loggers")
		w := newWorld(rapid.IntRange(0, 3).Draw(rt, "naming"), 3, nL, 2, 2)
		minute := rapid.IntRange(0, 59).Draw(rt, "minute")
		// what each logger logged in two periods
		nSub := rapid.IntRange(1, 6).Draw(rt, "subjects")
		subjects := []string{}
		for i := 0; i < nSub; i++ {
			subjects = append(subjects, fmt.Sprintf("Testing Dummy %d", i))
		}
		type logged struct {
			tree *mtree
			pois []crypto.POI_for_transmission
			subs []string
			init definition.Gossip_object
		}
		logs := make([][2]logged, nL)
		for l := range logs {
			for p := 0; p < 2; p++ {
				subs := rapid.SliceOfNDistinct(rapid.SampledFrom(subjects), 1, nSub, rapid.ID[string]).Draw(rt, "logged")
				if percent(rt, "all", 75) {
					subs = subjects
				}
				tree, pois := w.logTree(subs)
				logs[l][p] = logged{tree, pois, subs, w.sth(w.L[l], minute+p, hex.EncodeToString(tree.root()), len(subs))}
			}
		}
		type info struct {
			l, p   int
			defect string
			good   bool // the proof itself is right
		}
		type certcase struct {
			subject string
			rid     int
			ca      int
			infos   []info
			cert    *x509.Certificate
		}
		certs := []certcase{}
		for i, n := 0, rapid.IntRange(1, 3).Draw(rt, "certs"); i < n; i++ {
			cc := certcase{subject: rapid.SampledFrom(subjects).Draw(rt, "subject"), rid: rapid.SampledFrom([]int{0, 1, 5, 63, 64, 200, 100000, 300, 65541, 65536 + 200}).Draw(rt, "rid"), ca: pick(rt, "ca", 4, 1)}
			ext := CA.CTngExtension{SequenceNumber: CA.SequenceNumber{RID: cc.rid}, LoggerInformation: []CA.LoggerInfo{}}
			for j, k := 0, pick(rt, "entries", 1, 8, 4, 3); j < k; j++ {
				in := info{l: rapid.IntRange(0, nL-1).Draw(rt, "logger"), p: rapid.IntRange(0, 1).Draw(rt, "period")}
				lg := logs[in.l][in.p]
				in.defect = rapid.SampledFrom([]string{"", "", "", "", "forged STH", "foreign STH", "relabelled STH", "other kind", "other root", "bad sibling", "proof of another", "proof of another period", "no proof", "empty proof", "mirrored path", "renamed proof", "unnamed proof"}).Draw(rt, "defect")
				sth := lg.init
				var poi crypto.POI_for_transmission
				index := -1
				for i, s := range lg.subs {
					if s == cc.subject {
						index = i
						poi = lg.pois[i]
					}
				}
				if index < 0 {
					in.defect = "not logged"
					poi = lg.pois[0]
				}
				poi.LoggerID = w.L[in.l]
				proof := *poi.Poi
				proof.Siblings = append([][]byte{}, proof.Siblings...)
				switch in.defect {
				case "forged STH":
					sth.Signature[0] = rsaSigString(rsaRaw(w.rsa[w.M[0]], msgOf(sth)), w.L[in.l])
				case "foreign STH": // the logger signed it, somebody else is named
					sth.Signer = w.M[0]
				case "relabelled STH":
					sth.Period = p2(minute + in.p + 1)
				case "other kind":
					full := w.full(w.G[:2], sth, minute+in.p)
					full.Signer = sth.Signer
					sth = full
				case "other root": // a second, unpublished log
					tree2, pois2 := w.logTree([]string{cc.subject, "nobody"})
					sth = w.sth(w.L[in.l], minute+in.p, hex.EncodeToString(tree2.root()), 2)
					proof = *pois2[0].Poi
				case "bad sibling":
					if len(proof.Siblings) == 0 {
						in.defect = ""
						break
					}
					k := rapid.IntRange(0, len(proof.Siblings)-1).Draw(rt, "sibling")
					proof.Siblings[k] = sha(proof.Siblings[k])
				case "proof of another":
					other := (index + 1) % len(lg.pois)
					proof = *lg.pois[other].Poi
					if string(sha(rawSubject(lg.subs[other]))) == string(sha(rawSubject(cc.subject))) {
						in.defect = ""
					}
				case "proof of another period":
					o := logs[in.l][1-in.p]
					if string(o.tree.root()) == string(lg.tree.root()) {
						in.defect = ""
						break
					}
					proof = *o.pois[0].Poi
				case "no proof", "empty proof":
					if len(proof.Siblings) == 0 {
						in.defect = ""
						break
					}
					proof.Siblings = nil
				case "renamed proof": // whom the proof names is not signed and does not matter
					poi.LoggerID = rapid.SampledFrom(append(w.entities(), "localhost:6666")).Draw(rt, "named")
				case "unnamed proof":
					poi.LoggerID = ""
				case "mirrored path":
					if len(proof.Siblings) == 0 {
						in.defect = ""
						break
					}
					proof.Path ^= 1
				}
				poi.Poi = &proof
				if in.defect == "no proof" {
					poi.Poi = nil
				}
				// the proof is right exactly when it leads from the subject to the logged root
				in.good = in.defect == "" || strings.HasSuffix(in.defect, "named proof") || proofLeads(cc.subject, lg.tree.root(), proof.Siblings, proof.Path) && (in.defect == "mirrored path" || strings.HasPrefix(in.defect, "proof of"))
				cc.infos = append(cc.infos, in)
				ext.LoggerInformation = append(ext.LoggerInformation, CA.LoggerInfo{STH: sth, POI: poi})
			}
			cc.cert = w.leaf(w.C[cc.ca], cc.subject, ext)
			certs = append(certs, cc)
		}
		// the history
		cli := w.newClient(clientDir(workDir), "NEW")
		known := map[string]bool{} // logger/period
		pom := map[string]bool{}
		crv := map[int]*bitset.BitSet{}
		desc := []string{}
		trivial := true
		step := 0
		decided := 0
		if percent(rt, "informed", 80) {
			// a client that knows all logs and that nothing is revoked
			objs := []definition.Gossip_object{}
			for l := range logs {
				for p := range logs[l] {
					objs = append(objs, w.full(w.G[1:], logs[l][p].init, minute+p))
					known[fmt.Sprint(l, p)] = true
				}
			}
			for ca := range w.C {
				crv[ca] = bitset.New(1000)
				objs = append(objs, w.full(w.G[:2], w.rev(w.C[ca], minute, crv[ca], crv[ca]), minute))
			}
			if !cli.HandleUpdate(updateFrom(w.M[0], minute, objs...), true, false) {
				c.Errorf("the client rejects a genuine update")
			}
			desc = append(desc, "informed client")
		}
		for i, n := 0, rapid.IntRange(3, 16).Draw(rt, "ops"); i < n; i++ {
			switch k := pick(rt, "op", 3, 1, 1, 2, 9); k {
			case 0: // STHs, of one period
				p := rapid.IntRange(0, 1).Draw(rt, "period")
				objs := []definition.Gossip_object{}
				for _, l := range rapid.SliceOfNDistinct(rapid.IntRange(0, nL-1), 1, nL, rapid.ID[int]).Draw(rt, "of") {
					objs = append(objs, w.full(w.G[1:], logs[l][p].init, minute+p))
					known[fmt.Sprint(l, p)] = true
					desc = append(desc, fmt.Sprintf("STH of %s for %d", w.L[l], p))
				}
				if !cli.HandleUpdate(updateFrom(w.M[0], minute+p, objs...), true, false) {
					c.Errorf("the client rejects a genuine update")
				}
			case 1, 2: // a proof against somebody
				e := rapid.IntRange(0, nL+1).Draw(rt, "against")
				var o definition.Gossip_object
				if k == 1 {
					o = w.con(w.make2(e, minute, 7), w.make2(e, minute, 8), minute)
				} else {
					o = w.full(w.G[:2], w.acc(w.M[0], w.entities()[e], minute), minute)
				}
				if !cli.HandleUpdate(updateFrom(w.M[0], minute, o), true, false) {
					c.Errorf("the client rejects a genuine update")
				}
				pom[w.entities()[e]] = true
				desc = append(desc, "proof against "+w.entities()[e])
			case 3: // revocations
				ca := pick(rt, "ca", 4, 1)
				d := bitset.New(1000)
				ids := []uint{0, 1, 2, 4, 5, 6, 62, 63, 64, 65, 200, 999}
				for _, cc := range certs { // numbers of the certificates, and such as look like them when cut short
					r := uint(cc.rid)
					ids = append(ids, r, r%256, r%65536, r+256, r%100, r^64)
				}
				for _, r := range rapid.SliceOfN(rapid.SampledFrom(ids), 0, 2).Draw(rt, "revoked") {
					d.Set(r)
				}
				after := d
				if crv[ca] != nil {
					after = crv[ca].Union(d)
				}
				step++
				if !cli.HandleUpdate(updateFrom(w.M[0], minute+step, w.full(w.G[:2], w.rev(w.C[ca], minute+step, after, d), minute+step)), true, false) {
					c.Errorf("the client rejects a genuine revocation")
				}
				crv[ca] = after
				desc = append(desc, fmt.Sprintf("%s revokes %s", w.C[ca], some(d)))
			default:
				cc := certs[decided%len(certs)]
				decided++
				good := []string{}
				for _, in := range cc.infos {
					if in.good && known[fmt.Sprint(in.l, in.p)] && !pom[w.L[in.l]] {
						good = append(good, w.L[in.l])
					}
				}
				want := len(good) > 0 && crv[cc.ca] != nil && !crv[cc.ca].Test(uint(cc.rid))
				why := fmt.Sprintf("logged correctly by %v of %v, vector known: %v, revoked: %v", good, cc.infos, crv[cc.ca] != nil, crv[cc.ca] != nil && crv[cc.ca].Test(uint(cc.rid)))
				desc = append(desc, fmt.Sprintf("decide on RID %d of %s {logger period defect right}%v", cc.rid, w.C[cc.ca], cc.infos))
				c.Describe("%s", strings.Join(desc, "; "))
				if want && crv[cc.ca].Any() {
					class("accepted although others are revoked")
				}
				got := cli.VerifyCTngextension(cc.cert)
				if got != want {
					c.Errorf("the client accepts the certificate: %v, has to: %v (%s)", got, want, why)
					return
				}
				if len(cc.infos) > 0 && len(known) > 0 {
					trivial = false
				}
				for _, in := range cc.infos {
					if in.defect != "" && !want && len(cc.infos) == 1 && known[fmt.Sprint(in.l, in.p)] && !pom[w.L[in.l]] && crv[cc.ca] != nil && !crv[cc.ca].Test(uint(cc.rid)) {
						class("rejected, only entry has: " + in.defect)
					}
				}
				switch {
				case want:
					class("accepted")
				case len(good) == 0:
					class("rejected, no good logger")
				case crv[cc.ca] == nil:
					class("rejected, no revocation information")
				default:
					class("rejected, revoked")
				}
			}
		}
		c.Describe("%s", strings.Join(desc, "; "))
		if !trivial {
			c.NonTrivial(fmt.Sprint(minute, desc))
		}
	})
}
