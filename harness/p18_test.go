package ctngverif

// P18: malformed input. Whatever arrives at an endpoint, nobody crashes or
// hangs, and what is malformed has no effect: everything else goes on as if it
// had not arrived.

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"math/big"
	"net/http"
	"slices"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/jik18001/CTngV2/CA"
	"github.com/jik18001/CTngV2/Logger"
	"github.com/jik18001/CTngV2/crypto"
	"github.com/jik18001/CTngV2/definition"
	"github.com/jik18001/CTngV2/monitor"
	"pgregory.net/rapid"
)

// anyObject is a genuine object of any type.
func (w *World) anyObject(rt *rapid.T, p int) definition.Gossip_object {
	e := rapid.IntRange(0, len(w.entities())-1).Draw(rt, "entity")
	o := w.make2(e, p, rapid.IntRange(0, 2).Draw(rt, "content"))
	switch rapid.IntRange(0, 5).Draw(rt, "object") {
	case 0, 1:
		return o
	case 2:
		return w.acc(w.M[0], w.entities()[e], p)
	case 3:
		return w.con(o, w.make2(e, p, 7), p)
	case 4:
		if rapid.Bool().Draw(rt, "accusation") {
			o = w.acc(w.M[0], w.entities()[e], p)
		}
		return w.frag(w.G[rapid.IntRange(0, len(w.G)-1).Draw(rt, "gossiper")], o)
	default:
		if rapid.Bool().Draw(rt, "accusation") {
			o = w.acc(w.M[0], w.entities()[e], p)
		}
		return w.full(w.G[:w.T], o, p)
	}
}

// malformed draws a body that is no genuine object.
func (w *World) malformed(rt *rapid.T, p int) ([]byte, string) {
	for i := 0; i < 20; i++ {
		var b []byte
		var what string
		if percent(rt, "signed", 25) {
			o, s := w.signedJunk(rt, p)
			b, what = js(o), "signed by "+o.Signer+", inside "+s
			switch rapid.IntRange(0, 3).Draw(rt, "as") {
			case 1:
				b = js(w.frag(w.G[rapid.IntRange(0, len(w.G)-1).Draw(rt, "gossiper")], o))
			case 2:
				b = js(w.full(w.G[:w.T], o, p))
			case 3:
				c := w.con(o, w.make2(0, p, 3), p)
				c.Payload[0] = o.Payload[0]
				b = js(c)
			}
		} else {
			o := w.anyObject(rt, p)
			b, what = damage(rt, js(o))
			what = definition.TypeString(o.Type) + " " + what
		}
		o, ok := decoded(b)
		if !ok {
			return b, what
		}
		if o.Type == definition.REV_FRAG {
			continue // gossipers complete it by what they have
		}
		if good, _ := w.authentic(o); !good {
			return b, what
		}
	}
	return []byte("{"), "{"
}

var gossiperPaths = []string{"/gossip/sth_init", "/gossip/rev_init", "/gossip/acc_init", "/gossip/con_init", "/gossip/sth_frag", "/gossip/rev_frag", "/gossip/acc_frag"}

// oddHeader is what a proxy or an unusual sender puts on a request.
func oddHeader(rt *rapid.T) map[string]string {
	h := map[string]string{}
	if !percent(rt, "headers", 60) {
		return h
	}
	if percent(rt, "forwarded", 70) {
		h["X-Forwarded-For"] = rapid.SampledFrom([]string{"10.1.2.3", "10.1.2.3, 10.0.0.1", "::1", "[::1]:80", "unknown", ",", "10.1.2.3:8080", " ", "a,b,c,d"}).Draw(rt, "for")
	}
	if percent(rt, "type", 40) {
		h["Content-Type"] = rapid.SampledFrom([]string{"text/plain", "application/json; charset=utf-8", "multipart/form-data", ";", "application/x-www-form-urlencoded"}).Draw(rt, "content type")
	}
	if percent(rt, "address", 40) {
		h[""] = rapid.SampledFrom([]string{"[::1]:443", "127.0.0.1:9000", "@", "localhost:8180"}).Draw(rt, "remote")
	}
	return h
}

func TestP18Gossiper(t *testing.T) {
	slots(t, 1, 0, 0, 0)
	check(t, 170, func(rt *rapid.T, c *Case) {
		c.head = oddHeader(rt)
		gw := gweights{events: 10, horizon: rapid.SampledFrom([]int{12, 38, 80}).Draw(rt, "horizon"), stmt: 8, frag: 6, acc: 2, con: 1, equiv: 15, stray: 10, dup: 10}
		g := drawGossiperCase(rt, gw)
		n := rapid.IntRange(1, 12).Draw(rt, "malformed")
		for i := 1; i <= n; i++ {
			at := rapid.IntRange(0, gw.horizon*10-1).Draw(rt, "at")*100 + 20 + i
			p := g.minute + at/60000
			var b []byte
			var what string
			path := gossiperPaths[rapid.IntRange(0, len(gossiperPaths)-1).Draw(rt, "path")]
			if percent(rt, "notification", 20) {
				path = rapid.SampledFrom([]string{"/gossip/new_payload_request", "/gossip/new_payload_notification"}).Draw(rt, "path")
				e := rapid.IntRange(0, len(g.w.entities())-1).Draw(rt, "entity")
				note := map[string]any{"Type": definition.REV_INIT, "Period": p2(p + 30), "Entity_URL": g.w.entities()[e], "Objhash": []byte{1}, "Sender": "nobody:1"}
				b, what = damage(rt, js(note))
				if strings.Contains(path, "notification") && percent(rt, "hash", 30) {
					b = js(note)
				}
				var d struct{ Sender string }
				if json.NewDecoder(bytes.NewReader(b)).Decode(&d); d.Sender != "" && d.Sender != "nobody:1" {
					b, what = js(note)[1:], "no object" // somebody known may really have it
				}
			} else {
				b, what = g.w.malformed(rt, p)
			}
			g.evs = append(g.evs, gev{at: at, bad: true, raw: append([]byte{}, b...), path: path, desc: fmt.Sprintf("%s <- %s: %s", path, what, clip(string(b), 400))})
			if b == nil {
				g.evs[len(g.evs)-1].raw = []byte{}
			}
		}
		sort.SliceStable(g.evs, func(i, j int) bool { return g.evs[i].at < g.evs[j].at })
		c.Describe("%v", g)
		c.NonTrivial(g.String())
		m := g.model()
		r := g.run(t, c, scratch(), nil)
		sends := []gsend{}
		for _, s := range r.sends {
			// strangers are asked for what they say to have
			if slices.Contains(g.w.G, s.dst) || slices.Contains(g.w.M, s.dst) {
				sends = append(sends, s)
			}
		}
		g.compare(c, sends, m.sends, true, "INIT", "CON", "FRAG", "OWNFRAG", "FULL")
		for _, e := range g.w.entities() {
			if _, bad := m.black[e]; bad != r.black[e] {
				c.Errorf("convicted %s: %v, has to be %v", e, r.black[e], bad)
			}
		}
	})
}

// A monitor gets malformed objects, malformed answers to its queries and malformed requests.
func TestP18Monitor(t *testing.T) {
	slots(t, 0, 1, 0, 0)
	check(t, 140, func(rt *rapid.T, c *Case) {
		c.head = oddHeader(rt)
		w := newWorld(rapid.IntRange(0, 3).Draw(rt, "naming"), 3, 2, 2, 2)
		minute := rapid.IntRange(0, 57).Draw(rt, "minute")
		periods := rapid.IntRange(1, 2).Draw(rt, "periods")
		type ev struct {
			at   int
			body []byte
			good bool
			desc string
			odd  bool
		}
		evs := []ev{}
		for i, n := 1, rapid.IntRange(1, 14).Draw(rt, "events"); i <= n; i++ {
			at := rapid.IntRange(0, periods*600-250).Draw(rt, "at")*100 + i
			p := minute + at/60000
			if percent(rt, "odd", 12) { // certified all the same
				e := rapid.IntRange(0, len(w.entities())-1).Draw(rt, "entity")
				o, what := w.oddStatement(rt, e, p)
				if rapid.Bool().Draw(rt, "full") {
					o = w.full(w.G[:2], o, p)
				}
				evs = append(evs, ev{at, js(o), false, what + ": " + short(o), true})
				continue
			}
			if percent(rt, "genuine", 35) {
				e := rapid.IntRange(0, len(w.entities())-1).Draw(rt, "entity")
				o := w.full(w.G[:2], w.make2(e, p, 0), p)
				switch rapid.IntRange(0, 3).Draw(rt, "proof") {
				case 0:
					o = w.full(w.G[1:], w.acc(w.M[1], w.entities()[e], p), p)
				case 1:
					o = w.con(w.make2(e, p, 1), w.make2(e, p, 2), p)
				}
				evs = append(evs, ev{at, js(o), true, short(o), false})
				continue
			}
			b, what := w.malformed(rt, p)
			evs = append(evs, ev{at, b, false, what + ": " + clip(string(b), 300), false})
		}
		sort.SliceStable(evs, func(i, j int) bool { return evs[i].at < evs[j].at })
		// the answers of loggers and CAs to queries, by entity and period
		type answer struct {
			status int
			body   []byte
			good   bool
			o      definition.Gossip_object
			what   string
			odd    bool
		}
		answers := map[string]answer{}
		for e, id := range w.entities() {
			for p := 0; p < periods; p++ {
				a := answer{status: 200, what: "genuine", good: true, o: w.make2(e, minute+p, 0)}
				a.body = js(a.o)
				if percent(rt, "bad answer", 60) {
					a.good = false
					switch rapid.IntRange(0, 5).Draw(rt, "answer") {
					case 5, 4:
						a.o, a.what = w.oddStatement(rt, e, minute+p)
						a.body, a.odd = js(a.o), true
					case 0:
						a.status, a.body, a.what = rapid.SampledFrom([]int{404, 500, 204, 503}).Draw(rt, "status"), []byte("error"), "error"
					default:
						a.body, a.what = w.malformed(rt, minute+p)
						if rapid.Bool().Draw(rt, "its own") {
							// damage to its own statement
							a.body, a.what = damage(rt, js(a.o))
							var o definition.Gossip_object
							if json.Unmarshal(a.body, &o) == nil {
								if ok, _ := w.authentic(o); ok {
									a.body, a.what = []byte("{}"), "{}"
								}
							}
						}
					}
				}
				answers[id+p2(minute+p)] = a
			}
		}
		asks := [][]byte{}
		for i, n := 0, rapid.IntRange(0, 5).Draw(rt, "requests"); i < n; i++ {
			b, _ := damage(rt, js(p2(minute)))
			if percent(rt, "odd", 50) {
				b = js(rapid.SampledFrom([]string{"../../etc", "-0", "+5", "99", "00000005", "1e1", "", "0x1", " 3", "３", "5\x00", "9999999999999999999999"}).Draw(rt, "period"))
			}
			asks = append(asks, b)
		}
		desc := []string{}
		for _, v := range evs {
			desc = append(desc, fmt.Sprintf("%.3fs %s", float64(v.at)/1000, v.desc))
		}
		for _, id := range w.entities() {
			for p := 0; p < periods; p++ {
				a := answers[id+p2(minute+p)]
				desc = append(desc, fmt.Sprintf("%s answers %d %s %s", id, a.status, a.what, clip(string(a.body), 200)))
			}
		}
		for _, b := range asks {
			desc = append(desc, "asked for "+clip(string(b), 100))
		}
		c.Describe("minute %d, %d periods: %s", minute, periods, strings.Join(desc, "; "))
		c.NonTrivial(fmt.Sprint(minute, desc))
		dir := scratch()
		bubble(t, c, minute, 0, func() {
			begin := time.Now()
			nw := newNet(c)
			defer nw.install()()
			mon := nw.monitor(w, 0, 5, dir)
			nw.hosts[w.G[0]] = sink
			for _, id := range w.entities() {
				id := id
				nw.hosts[id] = http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
					a := answers[id+p2(time.Now().UTC().Minute())]
					rw.WriteHeader(a.status)
					rw.Write(a.body)
				})
			}
			go func() {
				for _, v := range evs {
					time.Sleep(time.Until(begin.Add(time.Duration(v.at) * time.Millisecond)))
					resp, err := nw.post(w.M[0], "/monitor/receive-gossip-from-gossiper", v.body)
					if err != nil || (resp.StatusCode == 200) != v.good && !v.odd {
						c.Errorf("the monitor answers %v (%v) to %s", resp, err, v.desc)
					}
				}
			}()
			startTask(func() { monitor.PeriodicTasks(mon) })
			for p := 0; p < periods; p++ {
				time.Sleep(time.Until(begin.Add(time.Duration(p*60+41) * time.Second)))
				// the genuine answers are passed on to the gossiper, no others
				for e, id := range w.entities() {
					a := answers[id+p2(minute+p)]
					passed := 0
					for _, m := range nw.sent(func(m *Msg) bool {
						return m.Src == w.M[0] && m.Dst == w.G[0] && strings.Contains(m.Path, "_init") && !strings.Contains(m.Path, "acc") && int(m.At.Sub(begin)/time.Minute) == p
					}) {
						o := objOf(m)
						if o.Signer != id || a.odd {
							continue
						}
						if !bytes.Equal(js(o), js(w.make2(e, minute+p, 0))) || !a.good {
							c.Errorf("minute %d: the monitor passes on %s as statement of %s", minute+p, clip(string(m.Body), 200), id)
						}
						passed++
					}
					convicted := false
					for _, v := range evs {
						o, _ := decoded(v.body)
						if v.good && v.at < p*60000 && o.Type == definition.CON_INIT && o.Payload[0] == id {
							convicted = true
						}
					}
					if a.good && passed != 1 && !convicted && a.o.Type == definition.STH_INIT {
						c.Errorf("minute %d: the monitor passes on the statement of %s %d times", minute+p, id, passed)
					}
				}
				// the update holds what was genuine
				u, _, err := updateOf(mon, minute+p)
				if err != nil {
					c.Errorf("no update for minute %d: %v", minute+p, err)
					return
				}
				got := map[string]bool{}
				for _, l := range [][]definition.Gossip_object{u.STHs, u.REVs, u.POM_CONs, u.POM_ACCs} {
					for _, o := range l {
						got[string(js(o))] = true
						if ok, why := w.authentic(o); !ok {
							c.Errorf("minute %d: the update holds an object that %s: %s", minute+p, why, short(o))
						}
					}
				}
				bad := map[string]bool{}
				for _, v := range evs {
					o, _ := decoded(v.body)
					// nor need there be a second statement besides an odd one
					if v.good && v.at < p*60000+40000 && o.Type == definition.CON_INIT || v.odd {
						bad[o.Payload[0]] = true
					}
				}
				for _, v := range evs {
					o, _ := decoded(v.body)
					if !v.good || v.at > p*60000+40000 || v.at/60000 != p || o.Type == definition.CON_INIT {
						continue
					}
					if (o.Type == definition.ACC_FULL || !bad[o.Payload[0]]) && !got[string(js(o))] {
						c.Errorf("minute %d: the update misses %s", minute+p, short(o))
					}
				}
				for _, b := range asks {
					resp, err := nw.get(w.M[0], "/monitor/get-update", b)
					if err != nil || resp.StatusCode >= 500 {
						c.Errorf("the request for %q is answered by %v %v", b, resp, err)
						continue
					}
					if resp.StatusCode == 200 {
						var served monitor.ClientUpdate
						body, _ := io.ReadAll(resp.Body)
						if json.Unmarshal(body, &served) != nil || served.MonitorID != w.M[0] {
							c.Errorf("the request for %q gets %s", b, clip(string(body), 200))
						}
					}
				}
			}
		})
	})
}

// oddCert is a certificate that is none a CA of this system makes.
func oddCert(rt *rapid.T, w *World, i int) []byte {
	key, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	tmpl := &x509.Certificate{SerialNumber: big.NewInt(int64(i)), Subject: pkix.Name{CommonName: fmt.Sprintf("odd %d", i)}, NotBefore: notBefore, NotAfter: notBefore.AddDate(1, 0, 0)}
	switch rapid.IntRange(0, 3).Draw(rt, "odd certificate") {
	case 0:
		tmpl.Subject = pkix.Name{}
	case 1:
		tmpl.SubjectKeyId = []byte{1}
		tmpl.ExtraExtensions = []pkix.Extension{{Id: CA.OIDCTngExtension, Value: []byte{4, 1, '{'}}}
	case 2:
		tmpl.ExtraExtensions = []pkix.Extension{{Id: CA.OIDCTngExtension, Value: rapid.SliceOfN(rapid.Byte(), 0, 8).Draw(rt, "extension")}}
	}
	der, err := x509.CreateCertificate(rand.Reader, tmpl, tmpl, &key.PublicKey, key)
	if err != nil {
		panic(err)
	}
	return der
}

// A logger gets malformed precertificates, a CA malformed tree heads and proofs.
func TestP18LoggerCA(t *testing.T) {
	slots(t, 0, 0, 1, 1)
	check(t, 90, func(rt *rapid.T, c *Case) {
		c.head = oddHeader(rt)
		w := newWorld(rapid.IntRange(0, 3).Draw(rt, "naming"), 2, 2, 1, 2)
		minute := rapid.IntRange(0, 59).Draw(rt, "minute")
		pre := []*precert{}
		for i, n := 0, rapid.IntRange(1, 4).Draw(rt, "precertificates"); i < n; i++ {
			pre = append(pre, w.precert(w.C[0], fmt.Sprintf("Testing Dummy %d", i), i+1))
		}
		subjects := []string{}
		for _, x := range pre {
			subjects = append(subjects, x.subject)
		}
		type ev struct {
			at         int
			host, path string
			body       []byte
			desc       string
			odd        bool // properly signed and labelled
		}
		evs := []ev{}
		for i := range pre {
			evs = append(evs, ev{2000 + 10*i, w.L[0], "/Logger/receive-precerts", pre[i].raw, "", false})
		}
		tree := merkle(subjects)
		_, pois := w.logTree(subjects)
		for i, n := 1, rapid.IntRange(1, 10).Draw(rt, "malformed"); i <= n; i++ {
			e := ev{at: rapid.IntRange(0, 590).Draw(rt, "at")*100 + i}
			switch rapid.IntRange(0, 2).Draw(rt, "where") {
			case 0:
				e.host, e.path = w.L[0], "/Logger/receive-precerts"
				raw := pre[rapid.IntRange(0, len(pre)-1).Draw(rt, "which")].raw
				if percent(rt, "odd", 30) {
					e.body, e.desc = oddCert(rt, w, i), "odd certificate"
				} else {
					e.body, e.desc = damage(rt, raw)
					if percent(rt, "bytes", 60) {
						b := append([]byte{}, raw...)
						for k := 0; k < rapid.IntRange(1, 3).Draw(rt, "flips"); k++ {
							b[rapid.IntRange(0, len(b)-1).Draw(rt, "position")] ^= 1 << rapid.IntRange(0, 7).Draw(rt, "bit")
						}
						e.body, e.desc = b, "bits flipped"
					}
				}
				for _, x := range pre {
					if bytes.Equal(e.body, x.raw) {
						e.body, e.desc = x.raw[1:], "first byte removed"
					}
				}
			case 1:
				e.host, e.path = w.C[0], "/CA/receive-sth"
				if percent(rt, "odd", 40) {
					// an odd tree head of another logger, and a proof for it
					o, s := w.oddStatement(rt, 1, minute)
					e.body, e.desc, e.odd = js(o), "odd tree head, "+s, true
					k := rapid.IntRange(0, len(pre)-1).Draw(rt, "which")
					poi := pois[k]
					poi.LoggerID = w.L[1]
					poi.SubjectKeyId = pre[k].cert.SubjectKeyId
					evs = append(evs, ev{e.at + 10, w.C[0], "/CA/receive-poi", js(poi), "proof for the odd tree head", false})
					break
				}
				e.body, e.desc = w.malformed(rt, minute)
				if o, ok := decoded(e.body); ok {
					if ok, _ := w.authentic(o); ok {
						e.body = []byte("{}")
					}
				}
			default:
				e.host, e.path = w.C[0], "/CA/receive-poi"
				k := rapid.IntRange(0, len(pre)-1).Draw(rt, "which")
				poi := pois[k]
				poi.LoggerID = w.L[0]
				poi.SubjectKeyId = pre[k].cert.SubjectKeyId
				for j := 0; j < 9; j++ {
					e.body, e.desc = damage(rt, js(poi))
					var q crypto.POI_for_transmission
					if json.NewDecoder(bytes.NewReader(e.body)).Decode(&q) != nil || q.Poi == nil || string(q.SubjectKeyId) != string(poi.SubjectKeyId) || q.LoggerID != poi.LoggerID || !proofLeads(subjects[k], tree.root(), q.Poi.Siblings, q.Poi.Path) {
						break
					}
					e.body, e.desc = []byte("{}"), "{}"
				}
			}
			evs = append(evs, e)
		}
		sort.SliceStable(evs, func(i, j int) bool { return evs[i].at < evs[j].at })
		desc := []string{}
		for _, e := range evs {
			if e.desc != "" {
				desc = append(desc, fmt.Sprintf("%.1fs %s <- %s %q", float64(e.at)/1000, e.path, e.desc, clip(string(e.body), 200)))
			}
		}
		c.Describe("minute %d, %d precertificates; %s", minute, len(pre), strings.Join(desc, "; "))
		c.NonTrivial(fmt.Sprint(minute, len(pre), desc))
		dir := scratch()
		bubble(t, c, minute, 0, func() {
			begin := time.Now()
			nw := newNet(c)
			lg := nw.logger(w, 0, dir)
			ca := nw.ca(w, 0, 0, dir)
			for _, x := range pre {
				ca.CurrentCertificatePool.AddCert(CA.GetPrecertfromCert(x.cert))
			}
			before := fmt.Sprint(ctngExtensionsOf(ca))
			sthBefore := len(ca.STH_storage)
			startTask(func() { Logger.PeriodicTask(lg) })
			for _, e := range evs {
				time.Sleep(time.Until(begin.Add(time.Duration(e.at) * time.Millisecond)))
				resp, err := nw.post(e.host, e.path, e.body)
				if err != nil {
					c.Errorf("%s does not answer to %q: %v", e.path, clip(string(e.body), 300), err)
					continue
				}
				switch {
				case e.path == "/Logger/receive-precerts" && (resp.StatusCode == 200) != (e.desc == ""):
					c.Errorf("the logger answers %d to %q", resp.StatusCode, clip(string(e.body), 300))
				case e.odd:
					sthBefore = len(ca.STH_storage)
				case e.path == "/CA/receive-sth" && resp.StatusCode == 200:
					c.Errorf("the CA takes the tree head %q", clip(string(e.body), 300))
				}
				if e.at < 39000 && (fmt.Sprint(ctngExtensionsOf(ca)) != before || len(ca.STH_storage) != sthBefore) {
					c.Errorf("%s changes the CA: %q", e.path, clip(string(e.body), 300))
				}
			}
			time.Sleep(time.Until(begin.Add(65 * time.Second)))
			resp, err := nw.get(w.L[0], "/ctng/v2/get-sth/", nil)
			if err != nil || resp.StatusCode != 200 {
				c.Errorf("the logger does not answer any more: %v", err)
				return
			}
			b, _ := io.ReadAll(resp.Body)
			o, _ := decoded(b)
			if ok, why := w.authentic(o); !ok || o.Type != definition.STH_INIT || o.Period != p2(minute+1) {
				c.Errorf("the logger publishes an object that %s: %s", why, clip(string(b), 300))
				return
			}
			// every genuine precertificate has a proof for the published tree
			s, _ := sthOf(o)
			root, _ := hex.DecodeString(s.RootHash)
			for _, x := range pre {
				found := false
				for _, m := range nw.sent(func(m *Msg) bool { return m.Src == w.L[0] && strings.HasPrefix(m.Path, "/CA/receive-poi") }) {
					var q crypto.POI_for_transmission
					json.Unmarshal(m.Body, &q)
					if bytes.Equal(q.SubjectKeyId, x.cert.SubjectKeyId) && q.Poi != nil && proofLeads(x.subject, root, q.Poi.Siblings, q.Poi.Path) {
						found = true
					}
				}
				if !found {
					c.Errorf("%s gets no proof", x.subject)
				}
			}
			for _, x := range ca.CurrentCertificatePool.GetCerts() {
				l := CA.ParseCTngextension(&x).LoggerInformation
				if len(l) != 1 || l[0].STH.Signer != w.L[0] {
					c.Errorf("%s has the log entries %s", x.Subject.CommonName, clip(string(js(l)), 300))
				}
			}
		})
	})
}

// ctngExtensionsOf is what the certificates in the pool of a CA say about the logs.
func ctngExtensionsOf(ca *CA.CAContext) []string {
	out := []string{}
	for _, x := range ca.CurrentCertificatePool.GetCerts() {
		out = append(out, string(js(CA.ParseCTngextension(&x))))
	}
	return out
}

// A client gets malformed updates and certificates.
func TestP18Client(t *testing.T) {
	check(t, 250, func(rt *rapid.T, c *Case) {
		w := newWorld(rapid.IntRange(0, 3).Draw(rt, "naming"), 3, 2, 2, 2)
		minute := rapid.IntRange(0, 59).Draw(rt, "minute")
		subjects := []string{"Testing Dummy 0", "Testing Dummy 1", "Testing Dummy 2"}
		tree, pois := w.logTree(subjects)
		var init definition.Gossip_object
		init = w.sth(w.L[0], minute, hex.EncodeToString(tree.root()), 3)
		all := bits(64, 5)
		rev := w.rev(w.C[0], minute, all, all)
		good := updateFrom(w.M[0], minute, w.full(w.G[:2], init, minute), w.full(w.G[1:], rev, minute))
		poi := pois[1]
		poi.LoggerID = w.L[0]
		ext := CA.CTngExtension{SequenceNumber: CA.SequenceNumber{RID: 2}, LoggerInformation: []CA.LoggerInfo{{STH: init, POI: poi}}}
		cert := w.leaf(w.C[0], subjects[1], ext)
		// malformed certificates
		certs := []*x509.Certificate{}
		descs := []string{}
		for i, n := 0, rapid.IntRange(1, 4).Draw(rt, "certificates"); i < n; i++ {
			x := *cert
			x.Extensions = append([]pkix.Extension{}, cert.Extensions...)
			for k := range x.Extensions {
				if x.Extensions[k].Id.Equal(CA.OIDCTngExtension) {
					if percent(rt, "none", 10) {
						x.Extensions = append(x.Extensions[:k:k], x.Extensions[k+1:]...)
						descs = append(descs, "no extension")
						break
					}
					var b []byte
					if percent(rt, "inner", 80) {
						inner, what := damage(rt, js(ext))
						var e CA.CTngExtension
						json.Unmarshal(inner, &e)
						for _, l := range e.LoggerInformation {
							s, err := sthOf(l.STH)
							if err == nil && s.RootHash == hex.EncodeToString(tree.root()) && l.POI.Poi != nil && proofLeads(subjects[1], tree.root(), l.POI.Poi.Siblings, l.POI.Poi.Path) {
								if ok, _ := w.authentic(l.STH); ok {
									// still the proof of the log
									inner, what = []byte("{}"), "{}"
								}
							}
						}
						descs = append(descs, what+" "+clip(string(inner), 300))
						b = append([]byte{0x04, 0x83, byte(len(inner) >> 16), byte(len(inner) >> 8), byte(len(inner))}, inner...)
					} else {
						b = rapid.SliceOfN(rapid.Byte(), 0, 20).Draw(rt, "bytes")
						descs = append(descs, fmt.Sprintf("extension %x", b))
					}
					x.Extensions[k].Value = b
				}
			}
			certs = append(certs, &x)
		}
		// malformed updates
		updates := []monitor.ClientUpdate{}
		for i, n := 0, rapid.IntRange(1, 4).Draw(rt, "updates"); i < n; i++ {
			u := updateFrom(w.M[0], minute)
			b, what := w.malformed(rt, minute)
			o, _ := decoded(b)
			if percent(rt, "odd", 20) {
				o, what = w.oddStatement(rt, len(w.L)+rapid.IntRange(0, 1).Draw(rt, "CA"), minute)
				o = w.full(w.G[:2], o, minute)
				u.REVs = append(u.REVs, o)
				descs = append(descs, what)
				updates = append(updates, u)
				continue
			}
			if ok, _ := w.authentic(o); ok {
				o, what = definition.Gossip_object{}, "empty object"
			}
			list := rapid.SampledFrom([]*[]definition.Gossip_object{&u.STHs, &u.REVs, &u.POM_CONs, &u.POM_ACCs}).Draw(rt, "list")
			*list = append(*list, o)
			descs = append(descs, what+" "+clip(string(b), 300))
			updates = append(updates, u)
		}
		c.Describe("minute %d: %s", minute, strings.Join(descs, "; "))
		c.NonTrivial(fmt.Sprint(minute, descs))
		cli := w.newClient(clientDir(scratch()), "NEW")
		state := func() string {
			return fmt.Sprint(js(cli.STH_database), js(cli.POM_database), some(cli.CRV_database[w.C[0]]), len(cli.CRV_database))
		}
		safely(c, "malformed input", func() {
			if percentless := cli.HandleUpdate(good, true, true); !percentless {
				c.Errorf("the client does not take a genuine update")
				return
			}
			if !cli.VerifyCTngextension(cert) {
				c.Errorf("the client does not accept a genuine certificate")
			}
			was := state()
			for i, u := range updates {
				if cli.HandleUpdate(u, true, false) {
					c.Errorf("the client takes malformed update %d: %s", i, clip(string(js(u)), 300))
				}
				if state() != was {
					c.Errorf("malformed update %d changes the client", i)
				}
			}
			for i, x := range certs {
				if cli.VerifyCTngextension(x) {
					c.Errorf("the client accepts malformed certificate %d: %s", i, descs[i])
				}
			}
			if !cli.VerifyCTngextension(cert) {
				c.Errorf("the client does not accept a genuine certificate any more")
			}
			second := w.rev(w.C[0], minute+1, bits(64, 2, 5), bits(64, 2))
			if !cli.HandleUpdate(updateFrom(w.M[0], minute+1, w.full(w.G[:2], second, minute+1)), true, false) {
				c.Errorf("the client does not take the next genuine update")
			}
			if cli.VerifyCTngextension(cert) {
				c.Errorf("the client accepts a revoked certificate")
			}
		})
	})
}

// The parsers of text and bytes report what they cannot read.
func TestP18Parsers(t *testing.T) {
	w := newWorld(0, 3, 1, 1, 2)
	cfg := w.cfg(w.G[0])
	check(t, 1000, func(rt *rapid.T, c *Case) {
		o := w.anyObject(rt, 5)
		text := damageText(rt, o.Signature[0])
		c.Describe("%q", text)
		c.NonTrivial(text)
		safely(c, "reading "+text, func() {
			if s, err := crypto.RSASigFromString(text); err == nil {
				if crypto.RSAVerify([]byte("another"), s, &w.rsa[w.L[0]].PublicKey) == nil {
					c.Errorf("a damaged signature verifies")
				}
				cfg.Verify([]byte("another"), s)
			}
			if s, err := crypto.SigFragmentFromString(text); err == nil && cfg.FragmentVerify("another", s) == nil {
				c.Errorf("a damaged fragment verifies")
			}
			if s, err := crypto.ThresholdSigFromString(text); err == nil && cfg.ThresholdVerify("another", s) == nil {
				c.Errorf("a damaged threshold signature verifies")
			}
			o.Signature[0] = text
			good, _ := w.authentic(o)
			if err := o.Verify(cfg); (err == nil) != good {
				c.Errorf("verification says %v for %s", err, short(o))
			}
			CA.DecodeCTngExtension([]byte(text))
			CA.Unmarshall_Signed_PreCert([]byte(text))
			definition.ExtractRootHash(o)
			monitor.Get_SRH_and_DCRV(o)
		})
	})
}
