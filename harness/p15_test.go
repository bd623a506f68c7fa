package ctngverif

// P15: issuance. The certificates a CA hands out carry a unique revocation
// number and exactly the genuine log entries that were proven to it.

import (
	"crypto/rsa"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/hex"
	"fmt"
	"os"
	"strings"
	"testing"
	"time"

	"github.com/bits-and-blooms/bitset"
	"github.com/jik18001/CTngV2/CA"
	"github.com/jik18001/CTngV2/Logger"
	"github.com/jik18001/CTngV2/crypto"
	"github.com/jik18001/CTngV2/definition"
	"github.com/jik18001/CTngV2/util"
	"pgregory.net/rapid"
)

func ctngExtensions(x *x509.Certificate) int {
	n := 0
	for _, e := range x.Extensions {
		if e.Id.Equal(CA.OIDCTngExtension) {
			n++
		}
	}
	return n
}

// signedBy tells whether x carries a valid signature of the CA.
func (w *World) signedBy(x *x509.Certificate, ca string) bool {
	return x.CheckSignatureFrom(&x509.Certificate{PublicKey: &w.rsa[ca].PublicKey, PublicKeyAlgorithm: x509.RSA, IsCA: true, BasicConstraintsValid: true, Version: 3}) == nil
}

// drawRound draws a number just below a round one, where a limit may be.
func drawRound(rt *rapid.T) int {
	base := rapid.SampledFrom([]int{10, 2}).Draw(rt, "base")
	n := 1
	for i, e := 0, rapid.IntRange(1, 60).Draw(rt, "exponent"); i < e && n < 1<<30; i++ {
		n *= base
	}
	return max(0, n-rapid.IntRange(0, 5).Draw(rt, "below"))
}

func TestP15Embed(t *testing.T) {
	slots(t, 0, 0, 0, 1)
	check(t, 250, func(rt *rapid.T, c *Case) {
		nL := rapid.IntRange(1, 3).Draw(rt, "loggers")
		w := newWorld(rapid.IntRange(0, 3).Draw(rt, "naming"), 3, nL, 1, 2)
		minute := rapid.IntRange(0, 59).Draw(rt, "minute")
		first := rapid.OneOf(rapid.SampledFrom([]int{0, 0, 1, 17, 99999}), rapid.Custom(func(rt *rapid.T) int { return drawRound(rt) })).Draw(rt, "first RID")
		nw := newNet(c)
		ca := nw.ca(w, 0, 0, scratch())
		ca.CertCounter = first
		n := rapid.IntRange(1, 5).Draw(rt, "certificates")
		pre := []*x509.Certificate{}
		keys := []*rsa.PublicKey{}
		issuer := CA.Generate_Issuer(w.C[0])
		rids := map[int]bool{}
		for i := 0; i < n; i++ {
			key := &rsaPool[(i+7)%len(rsaPool)].PublicKey
			host := rapid.SampledFrom([]string{"www.example.com", "a.example,b.example,10.0.0.1", "::1", "c.example,10.0.0.1,10.0.0.2", "d.example,::1,10.0.0.1,2001:db8::1"}).Draw(rt, "host")
			x := CA.Generate_Signed_PreCert(ca, host, time.Hour, false, issuer, pkix.Name{CommonName: fmt.Sprintf("Testing Dummy %d", i)}, ca.Rootcert, false, key, &ca.PrivateKey)
			keys = append(keys, key)
			pre = append(pre, x)
			rid := CA.GetRIDfromCert(x)
			if rids[rid] {
				c.Errorf("two certificates have the revocation number %d", rid)
			}
			rids[rid] = true
			names := []string{}
			for _, a := range x.IPAddresses {
				names = append(names, a.String())
			}
			if names = append(cp(x.DNSNames), names...); strings.Join(names, ",") != host {
				c.Errorf("the precertificate for %s is one for %v", host, names)
			}
			if rid < first { // those were used before, when the counter was there
				c.Errorf("after %d numbers, the revocation number %d is used again", first+i, rid)
			}
			if !w.signedBy(x, w.C[0]) || x.Issuer.CommonName != w.C[0] || len(x.SubjectKeyId) == 0 || ctngExtensions(x) != 1 {
				c.Errorf("precertificate %d: signed %v, issuer %s, key id %x, %d extensions", i, w.signedBy(x, w.C[0]), x.Issuer.CommonName, x.SubjectKeyId, ctngExtensions(x))
			}
			ca.CurrentCertificatePool.AddCert(CA.GetPrecertfromCert(x))
		}
		// the logs: which certificates each logger took, in two versions
		type lg struct {
			idx   map[int]int // certificate -> position
			sth   definition.Gossip_object
			root  []byte
			pois  []crypto.POI_for_transmission
			certs []x509.Certificate
			label int // the period it is for
		}
		logs := make([][2]lg, nL)
		for l := range logs {
			ctx := freshLogger(w, l, workDir)
			took := rapid.SliceOfN(rapid.Bool(), n, n).Draw(rt, "logged")
			for v := 0; v < 2; v++ {
				x := lg{idx: map[int]int{}, label: (minute + 1 + rapid.SampledFrom([]int{0, 0, -1, 1, 59}).Draw(rt, "label") + 60) % 60}
				for i := range pre {
					if v == 0 || took[i] {
						x.idx[i] = len(x.certs)
						x.certs = append(x.certs, *util.ParseTBSCertificate(pre[i]))
					}
				}
				if v == 1 {
					x.certs = append(x.certs, bare(w.C[0], "somebody else"))
				}
				bubble(t, c, (x.label+59)%60, 40, func() {
					x.sth, x.root, x.pois = Logger.BuildMerkleTreeFromCerts(x.certs, *ctx, x.label)
				})
				logs[l][v] = x
			}
		}
		// the model
		stored := map[int]int{}         // logger -> version of the STH the CA holds
		embedded := make([][][2]int, n) // certificate -> {logger, version}
		desc := []string{}
		has := func(i, l int) bool {
			for _, e := range embedded[i] {
				if e[0] == l {
					return true
				}
			}
			return false
		}
		bad := 0
		for k, ops := 0, rapid.IntRange(1, 24).Draw(rt, "ops"); k < ops; k++ {
			l := rapid.IntRange(0, nL-1).Draw(rt, "logger")
			v := pick(rt, "version", 4, 1)
			x := logs[l][v]
			if pick(rt, "what", 1, 2) == 0 {
				o := x.sth
				how := rapid.SampledFrom([]string{"", "", "", "", "forged", "certified", "foreign", "garbage"}).Draw(rt, "sth")
				switch how {
				case "":
					stored[l] = v
				case "forged":
					o.Signature[0] = rsaSigString(rsaRaw(w.rsa[w.M[0]], msgOf(o)), w.L[l])
				case "certified":
					o = w.full(w.G[:2], o, x.label)
					o.Signer = w.L[l]
				case "foreign":
					o.Signer = w.M[0]
				}
				body := js(o)
				if how == "garbage" {
					body = body[:len(body)/2]
				}
				if how != "" {
					bad++
				}
				desc = append(desc, fmt.Sprintf("%s STH %d (period %d) of logger %d", how, v, x.label, l))
				resp, err := nw.post(w.C[0], "/CA/receive-sth", body)
				if err != nil || (resp.StatusCode == 200) != (how == "") {
					c.Errorf("the CA answers %v to: %s", resp, desc[len(desc)-1])
				}
				continue
			}
			i := rapid.IntRange(0, n-1).Draw(rt, "certificate")
			pos, logged := x.idx[i]
			how := rapid.SampledFrom([]string{"", "", "", "", "", "of another", "changed", "unknown logger", "unknown certificate", "garbage"}).Draw(rt, "poi")
			if !logged {
				pos, how = 0, "of another"
			}
			poi := x.pois[pos]
			poi.SubjectKeyId = pre[i].SubjectKeyId
			proof := *poi.Poi
			proof.Siblings = append([][]byte{}, proof.Siblings...)
			poi.Poi = &proof
			switch how {
			case "of another":
				other := (pos + 1) % len(x.pois)
				if !logged {
					other = 0
				}
				if other == pos && logged {
					how = ""
					break
				}
				proof = *x.pois[other].Poi
			case "changed":
				if len(proof.Siblings) == 0 {
					proof.Siblings = [][]byte{sha(nil)}
				} else {
					proof.Siblings[0] = sha(proof.Siblings[0])
				}
			case "unknown logger":
				poi.LoggerID = "nobody:1"
			case "unknown certificate":
				poi.SubjectKeyId = sha([]byte("?"))
			}
			body := js(poi)
			if how == "garbage" {
				body = body[:len(body)/2]
			}
			sv, known := stored[l]
			good := (how == "" || how == "of another") && known && proofLeads(pre[i].Subject.CommonName, logs[l][sv].root, proof.Siblings, proof.Path)
			if good && !has(i, l) {
				embedded[i] = append(embedded[i], [2]int{l, sv})
			}
			if !good {
				bad++
			}
			desc = append(desc, fmt.Sprintf("%s proof from log %d of logger %d for certificate %d (good: %v)", how, v, l, i, good))
			resp, err := nw.post(w.C[0], "/CA/receive-poi", body)
			if err != nil || good && resp.StatusCode != 200 {
				c.Errorf("the CA does not take: %s", desc[len(desc)-1])
			}
		}
		c.Describe("%d certificates from RID %d, %d loggers: %s", n, first, nL, strings.Join(desc, "; "))
		entries := 0
		signed := CA.SignAllCerts(ca)
		if len(signed) != n {
			c.Errorf("%d final certificates for %d precertificates", len(signed), n)
			return
		}
		// a client that knows the published logs and no revocations
		cli := w.newClient(clientDir(workDir), "NEW")
		objs := []definition.Gossip_object{}
		for l := range logs {
			if v, ok := stored[l]; ok {
				objs = append(objs, w.full(w.G[:2], logs[l][v].sth, logs[l][v].label))
			}
		}
		none := bitset.New(100)
		objs = append(objs, w.full(w.G[:2], w.rev(w.C[0], minute+1, none, none), minute+1))
		if !cli.HandleUpdate(updateFrom(w.M[0], minute+1, objs...), true, false) {
			c.Errorf("the client rejects the update")
		}
		for i := range pre {
			var x *x509.Certificate
			for _, s := range signed {
				if string(s.SubjectKeyId) == string(pre[i].SubjectKeyId) {
					x = s
				}
			}
			if x == nil {
				c.Errorf("no final certificate for precertificate %d", i)
				continue
			}
			pub, _ := x.PublicKey.(*rsa.PublicKey)
			if !w.signedBy(x, w.C[0]) || x.Issuer.CommonName != w.C[0] || x.Subject.CommonName != pre[i].Subject.CommonName || pub == nil || pub.N.Cmp(keys[i].N) != 0 {
				c.Errorf("final certificate %d: signed by the CA %v, issuer %s, subject %s, key kept %v", i, w.signedBy(x, w.C[0]), x.Issuer.CommonName, x.Subject.CommonName, pub != nil && pub.N.Cmp(keys[i].N) == 0)
			}
			if !x.NotBefore.Equal(pre[i].NotBefore) || !x.NotAfter.Equal(pre[i].NotAfter) || x.SerialNumber.Cmp(pre[i].SerialNumber) != 0 || x.IsCA || fmt.Sprint(x.DNSNames, x.IPAddresses) != fmt.Sprint(pre[i].DNSNames, pre[i].IPAddresses) {
				c.Errorf("final certificate %d is valid %v-%v for %v %v (number %v, CA %v), the precertificate %v-%v for %v %v (number %v)", i, x.NotBefore, x.NotAfter, x.DNSNames, x.IPAddresses, x.SerialNumber, x.IsCA, pre[i].NotBefore, pre[i].NotAfter, pre[i].DNSNames, pre[i].IPAddresses, pre[i].SerialNumber)
			}
			if ctngExtensions(x) != 1 {
				c.Errorf("final certificate %d has %d CTng extensions", i, ctngExtensions(x))
			}
			ext := CA.ParseCTngextension(x)
			if ext.SequenceNumber.RID != CA.GetRIDfromCert(pre[i]) {
				c.Errorf("final certificate %d has the revocation number %d, the precertificate %d", i, ext.SequenceNumber.RID, CA.GetRIDfromCert(pre[i]))
			}
			got := map[string]int{}
			for _, in := range ext.LoggerInformation {
				s, _ := sthOf(in.STH)
				got[in.STH.Signer+" "+s.RootHash]++
				root, _ := hex.DecodeString(s.RootHash)
				if ok, why := w.authentic(in.STH); !ok || in.POI.Poi == nil || !proofLeads(x.Subject.CommonName, root, in.POI.Poi.Siblings, in.POI.Poi.Path) {
					c.Errorf("final certificate %d carries a log entry that proves nothing (%s)", i, why)
				}
			}
			want := map[string]int{}
			ok := false
			for _, e := range embedded[i] {
				want[w.L[e[0]]+" "+hex.EncodeToString(logs[e[0]][e[1]].root)]++
				ok = ok || stored[e[0]] == e[1]
				entries++
			}
			if fmt.Sprint(got) != fmt.Sprint(want) {
				c.Errorf("final certificate %d carries the log entries %v, proven were %v", i, got, want)
			}
			if cli.VerifyCTngextension(x) != ok {
				c.Errorf("the client accepts certificate %d: %v, it is in a published log: %v", i, !ok, ok)
			}
			if ok {
				class("accepted by the client")
			}
		}
		if entries > 0 {
			c.NonTrivial(fmt.Sprint(first, desc))
		}
		class(fmt.Sprintf("entries embedded: %v, bad messages: %v", entries > 0, bad > 0))
	})
}

// The periodic task of a CA: precertificates go to all loggers, numbers go on
// over the periods, and what was proven in time is in the certificates.
func TestP15Periods(t *testing.T) {
	slots(t, 0, 0, 2, 1)
	check(t, 9, func(rt *rapid.T, c *Case) {
		w := newWorld(rapid.IntRange(0, 3).Draw(rt, "naming"), 3, 2, 1, 2)
		minute := rapid.IntRange(0, 59).Draw(rt, "minute")
		per := rapid.IntRange(1, 2).Draw(rt, "per period")
		periods := rapid.IntRange(1, 2).Draw(rt, "periods")
		down := rapid.SampledFrom([]int{-1, -1, 0, 1}).Draw(rt, "logger down")
		c.Describe("minute %d, %d certificates in each of %d periods, logger down: %d", minute, per, periods, down)
		c.NonTrivial(fmt.Sprint(minute, per, periods, down))
		dir := scratch()
		cwd, _ := os.Getwd()
		os.Chdir(dir)
		defer os.Chdir(cwd)
		bubble(t, c, minute, 0, func() {
			begin := time.Now()
			nw := newNet(c)
			ca := nw.ca(w, 0, per, dir)
			for l := range w.L {
				lg := nw.logger(w, l, dir)
				if l == down {
					delete(nw.hosts, w.L[l])
				} else {
					startTask(func() { Logger.PeriodicTask(lg) })
				}
			}
			time.Sleep(time.Second)
			startTask(func() { CA.PeriodicTask(ca) })
			rids := map[int]bool{}
			for p := 0; p < periods; p++ {
				// when the loggers have answered, before the pool is reset
				time.Sleep(time.Until(begin.Add(time.Duration(p*60)*time.Second + 40*time.Second + 500*time.Millisecond)))
				sent := map[string]map[string]int{}
				for _, m := range nw.sent(func(m *Msg) bool {
					return m.Src == w.C[0] && strings.HasPrefix(m.Path, "/Logger/") && m.At.Sub(begin) >= time.Duration(p*60)*time.Second
				}) {
					x, err := x509.ParseCertificate(m.Body)
					if err != nil {
						c.Errorf("the CA sends a logger something that is no certificate: %v", err)
						continue
					}
					if !w.signedBy(x, w.C[0]) {
						c.Errorf("the CA sends a precertificate it did not sign")
					}
					if sent[string(x.SubjectKeyId)] == nil {
						sent[string(x.SubjectKeyId)] = map[string]int{}
						if rid := CA.GetRIDfromCert(x); rids[rid] {
							c.Errorf("period %d: the revocation number %d is used again", p, rid)
						} else {
							rids[rid] = true
						}
					}
					sent[string(x.SubjectKeyId)][m.Dst]++
				}
				if len(sent) != per {
					c.Errorf("period %d: %d precertificates were sent, %d are to be issued", p, len(sent), per)
				}
				for k, to := range sent {
					for _, l := range w.L {
						if to[l] != 1 {
							c.Errorf("period %d: precertificate %x was sent to %s %d times", p, k[:4], l, to[l])
						}
					}
				}
				signed := CA.SignAllCerts(ca)
				if len(signed) != per {
					c.Errorf("period %d: %d final certificates, %d are to be issued", p, len(signed), per)
				}
				for _, x := range signed {
					ext := CA.ParseCTngextension(x)
					want := len(w.L)
					if down >= 0 {
						want--
					}
					if len(ext.LoggerInformation) != want || !w.signedBy(x, w.C[0]) || !rids[ext.SequenceNumber.RID] || sent[string(x.SubjectKeyId)] == nil {
						c.Errorf("period %d: a final certificate has %d log entries of %d, number %d", p, len(ext.LoggerInformation), want, ext.SequenceNumber.RID)
					}
					key := ca.CurrentKeyPool[x.Subject.CommonName]
					if pub, ok := x.PublicKey.(*rsa.PublicKey); !ok || key == nil || key.PublicKey.N.Cmp(pub.N) != 0 {
						c.Errorf("period %d: the private key of %s is not the one of its certificate", p, x.Subject.CommonName)
					}
					for _, in := range ext.LoggerInformation {
						s, _ := sthOf(in.STH)
						root, _ := hex.DecodeString(s.RootHash)
						if in.STH.Period != p2(minute+p+1) || !proofLeads(x.Subject.CommonName, root, in.POI.Poi.Siblings, in.POI.Poi.Path) {
							c.Errorf("period %d: a log entry for period %s proves nothing", p, in.STH.Period)
						}
					}
				}
				class("period with certificates")
			}
			time.Sleep(5 * time.Second)
			if n := len(ca.CurrentCertificatePool.GetCerts()); n != 0 {
				c.Errorf("the pool of the next period holds %d certificates", n)
			}
		})
	})
}
