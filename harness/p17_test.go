package ctngverif

// P17: the generated configurations of all entities fit together, before and
// after they were mapped to addresses.

import (
	"bytes"
	"crypto/rsa"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"testing"

	"github.com/jik18001/CTngV2/CA"
	"github.com/jik18001/CTngV2/Gen"
	"github.com/jik18001/CTngV2/Logger"
	"github.com/jik18001/CTngV2/crypto"
	"github.com/jik18001/CTngV2/gossiper"
	"github.com/jik18001/CTngV2/monitor"
	"pgregory.net/rapid"
)

// entityCfg is what one entity is started with.
type entityCfg struct {
	kind string
	i    int
	cc   *crypto.CryptoConfig
	priv map[string]any
	pub  map[string]any
}

func strs(v any) []string {
	out := []string{}
	l, _ := v.([]any)
	for _, x := range l {
		s, _ := x.(string)
		out = append(out, s)
	}
	return out
}

// fits checks that the configurations below the current directory are those of entities at the given addresses.
func fits(c *Case, when string, dir string, addr map[string][]string, T, certs, MMD int) {
	os.Chdir(dir)
	all := []entityCfg{}
	for _, kind := range []string{"CA", "Logger", "Monitor", "Gossiper"} {
		for i := range addr[kind] {
			e := entityCfg{kind: kind, i: i}
			d := strings.ToLower(kind) + "_testconfig/" + fmt.Sprint(i+1) + "/" + kind
			b1, err1 := os.ReadFile(d + "_private_config.json")
			b2, err2 := os.ReadFile(d + "_public_config.json")
			if err1 != nil || err2 != nil || json.Unmarshal(b1, &e.priv) != nil || json.Unmarshal(b2, &e.pub) != nil {
				c.Errorf("%s: the configuration of %s %d cannot be read: %v %v", when, kind, i, err1, err2)
				return
			}
			// start the entity with it, as the programs do
			var started bool
			switch x := Gen.InitializeOneEntity(kind, fmt.Sprint(i+1)).(type) {
			case *CA.CAContext:
				e.cc, started = x.CA_crypto_config, kind == "CA" && x.CA_private_config.Cert_per_period == certs && x.CA_public_config.MMD == MMD
			case *Logger.LoggerContext:
				e.cc, started = x.Logger_crypto_config, kind == "Logger" && x.Logger_public_config.MMD == MMD
			case *monitor.MonitorContext:
				e.cc, started = x.Monitor_crypto_config, kind == "Monitor" && x.Monitor_public_config.MMD == MMD && x.Monitor_public_config.Gossip_wait_time > 0
			case *gossiper.GossiperContext:
				e.cc, started = x.Gossiper_crypto_config, kind == "Gossiper" && x.Gossiper_public_config.MMD == MMD && x.Gossiper_public_config.Gossip_wait_time > 0
			}
			if !started || e.cc == nil {
				c.Errorf("%s: %s %d does not start with its configuration", when, kind, i)
				return
			}
			all = append(all, e)
		}
	}
	is := func(e entityCfg, what string, got, want any) {
		if fmt.Sprint(got) != fmt.Sprint(want) {
			c.Errorf("%s: %s of %s %d is %v, has to be %v", when, what, e.kind, e.i, got, want)
		}
	}
	n := 0
	for _, l := range addr {
		n += len(l)
	}
	timing := map[string]any{}
	for _, e := range all {
		for _, k := range []string{"MMD", "MRD", "Gossip_wait_time"} {
			v, ok := e.pub[k]
			if !ok {
				continue
			}
			if _, ok := timing[k]; !ok {
				timing[k] = v
			}
			is(e, "the "+k+" (that of all others)", v, timing[k])
		}
		self := addr[e.kind][e.i]
		port := self[strings.LastIndex(self, ":")+1:]
		is(e, "the name", e.cc.SelfID, self)
		is(e, "the port", e.priv["Port"], port)
		is(e, "the threshold", e.cc.Threshold, T)
		is(e, "the number of gossipers", e.cc.N, len(addr["Gossiper"]))
		if e.kind != "Gossiper" {
			is(e, "the signer", e.priv["Signer"], self)
			is(e, "the list of all CAs", strs(e.pub["All_CA_URLs"]), addr["CA"])
			is(e, "the list of all loggers", strs(e.pub["All_Logger_URLs"]), addr["Logger"])
		}
		switch e.kind {
		case "CA":
			nl := len(addr["Logger"])
			is(e, "the list of loggers", strs(e.priv["Loggerlist"]), []string{addr["Logger"][e.i%nl], addr["Logger"][nl-1-e.i%nl]})
			is(e, "the list of monitors", strs(e.priv["Monitorlist"]), addr["Monitor"])
			is(e, "the list of gossipers", strs(e.priv["Gossiperlist"]), addr["Gossiper"])
		case "Logger":
			is(e, "the list of CAs", strs(e.priv["CAlist"]), addr["CA"])
			is(e, "the list of monitors", strs(e.priv["Monitorlist"]), addr["Monitor"])
			is(e, "the list of gossipers", strs(e.priv["Gossiperlist"]), addr["Gossiper"])
		case "Monitor":
			g := addr["Gossiper"][e.i]
			is(e, "the gossiper", e.priv["Gossiper_URL"], g)
			is(e, "the port of the gossiper", e.priv["Inbound_gossiper_port"], g[strings.LastIndex(g, ":")+1:])
			is(e, "the list of CAs", strs(e.priv["CA_URLs"]), addr["CA"])
			is(e, "the list of loggers", strs(e.priv["Logger_URLs"]), addr["Logger"])
		case "Gossiper":
			is(e, "the monitor", e.priv["Owner_URL"], addr["Monitor"][e.i])
			is(e, "the list of peers", strs(e.priv["Connected_Gossipers"]), append(append([]string{}, addr["Gossiper"][:e.i]...), addr["Gossiper"][e.i+1:]...))
			is(e, "the list of gossipers", strs(e.pub["Gossiper_URLs"]), addr["Gossiper"])
			is(e, "the list of monitors", strs(e.pub["Signer_URLs"]), addr["Monitor"])
		}
		// the keys
		if len(e.cc.SignPublicMap) != n || len(e.cc.ThresholdPublicMap) != len(addr["Gossiper"]) {
			c.Errorf("%s: %s %d knows %d of %d keys and %d of %d threshold keys", when, e.kind, e.i, len(e.cc.SignPublicMap), n, len(e.cc.ThresholdPublicMap), len(addr["Gossiper"]))
		}
	}
	if c.Failed() {
		return
	}
	// what everybody signs is accepted by everybody, in the name of the signer only
	msg := "message"
	frags := []crypto.SigFragment{}
	for _, e := range all {
		sig, err := e.cc.Sign([]byte(msg))
		if err != nil || sig.ID != e.cc.SelfID {
			c.Errorf("%s: %s %d cannot sign: %v", when, e.kind, e.i, err)
			return
		}
		for _, o := range all {
			if o.cc.Verify([]byte(msg), sig) != nil {
				c.Errorf("%s: %s %d does not accept a signature of %s %d", when, o.kind, o.i, e.kind, e.i)
			}
		}
		sig.ID = all[(e.i+1)%len(all)].cc.SelfID
		if sig.ID != e.cc.SelfID && all[0].cc.Verify([]byte(msg), sig) == nil {
			c.Errorf("%s: %s %d has the key of %s", when, e.kind, e.i, sig.ID)
		}
		if e.kind == "Gossiper" {
			f, err := e.cc.ThresholdSign(msg)
			if err != nil || f.ID != e.cc.SelfID {
				c.Errorf("%s: gossiper %d cannot sign: %v", when, e.i, err)
				return
			}
			for _, o := range all {
				if o.cc.FragmentVerify(msg, f) != nil {
					c.Errorf("%s: %s %d does not accept a fragment of gossiper %d", when, o.kind, o.i, e.i)
				}
			}
			frags = append(frags, f)
		}
	}
	for s := 0; s+T <= len(frags); s++ {
		cert, err := all[len(all)-1].cc.ThresholdAggregate(frags[s : s+T])
		if err != nil {
			c.Errorf("%s: the fragments of %d gossipers cannot be aggregated: %v", when, T, err)
			return
		}
		for _, o := range all {
			if o.cc.ThresholdVerify(msg, cert) != nil {
				c.Errorf("%s: %s %d does not accept the certificate of %d gossipers", when, o.kind, o.i, T)
			}
		}
	}
}

func list(dir string) []string {
	out := []string{}
	filepath.Walk(dir, func(p string, info os.FileInfo, err error) error {
		if err == nil && !info.IsDir() {
			out = append(out, strings.TrimPrefix(p, dir))
		}
		return nil
	})
	sort.Strings(out)
	return out
}

func TestP17Generate(t *testing.T) {
	check(t, 9, func(rt *rapid.T, c *Case) {
		nG := rapid.SampledFrom([]int{2, 2, 3, 4, 5}).Draw(rt, "gossipers")
		nL := rapid.SampledFrom([]int{1, 1, 2, 3, 4, 11}).Draw(rt, "loggers")
		nC := rapid.SampledFrom([]int{1, 2, 3, 5, 11}).Draw(rt, "CAs")
		T := rapid.IntRange(2, nG).Draw(rt, "threshold")
		certs := rapid.IntRange(0, 20).Draw(rt, "certificates")
		MMD := rapid.SampledFrom([]int{60, 120}).Draw(rt, "MMD")
		maps := []Gen.IP_Json{}
		for k := 0; k < 2; k++ {
			var ip Gen.IP_Json
			if rapid.Bool().Draw(rt, "template") {
				mask := rapid.SampledFrom([]string{"172.30.0.", "10.0.", "host-"})
				off := rapid.IntRange(0, 120)
				ip = Gen.Generate_IP_Json_template(nC, nL, nG, mask.Draw(rt, "mask"), off.Draw(rt, "offset"), mask.Draw(rt, "mask"), off.Draw(rt, "offset"), mask.Draw(rt, "mask"), off.Draw(rt, "offset"))
			} else {
				draw := func(n int) map[int]string {
					m := map[int]string{}
					for i := 0; i < n; i++ {
						m[i] = rapid.OneOf(rapid.SampledFrom([]string{"10.0.0.1", "10.0.0.2", "a.example"}), rapid.StringMatching(`10\.[0-9]{1,3}\.[0-9]\.[0-9]{1,2}`)).Draw(rt, "ip")
					}
					return m
				}
				ip = Gen.IP_Json{CA_ip_map: draw(nC), Logger_ip_map: draw(nL), Monitor_ip_map: draw(nG), Gossiper_ip_map: draw(nG)}
			}
			maps = append(maps, ip)
		}
		c.Describe("%d gossipers, threshold %d, %d loggers, %d CAs, mapped to %s and %s", nG, T, nL, nC, js(maps[0]), js(maps[1]))
		c.NonTrivial(fmt.Sprint(nG, T, nL, nC, string(js(maps))))
		class(fmt.Sprintf("%d gossipers", nG))
		base := scratch()
		defer os.RemoveAll(base)
		cwd, _ := os.Getwd()
		defer os.Chdir(cwd)
		os.Chdir(base)
		rel := rapid.Bool().Draw(rt, "here")
		dir := filepath.Join(base, "configs")
		os.Mkdir(dir, 0755)
		if rel {
			os.Chdir(dir)
			Gen.Generateall(nG, T, nL, nC, certs, MMD, MMD, "")
			os.Chdir(base)
		} else {
			Gen.Generateall(nG, T, nL, nC, certs, MMD, MMD, dir+"/")
		}
		for _, f := range list(base) {
			if !strings.HasPrefix(f, "/configs/") {
				c.Errorf("the file %s was written", f)
			}
		}
		want := []string{}
		addr := map[string][]string{}
		for kind, n := range map[string]int{"CA": nC, "Logger": nL, "Monitor": nG, "Gossiper": nG} {
			for i := 0; i < n; i++ {
				for _, x := range []string{"private", "public", "crypto"} {
					want = append(want, fmt.Sprintf("/%s_testconfig/%d/%s_%s_config.json", strings.ToLower(kind), i+1, kind, x))
				}
				addr[kind] = append(addr[kind], fmt.Sprintf("localhost:%d%03d", map[string]int{"CA": 6, "Logger": 7, "Monitor": 8, "Gossiper": 9}[kind], i))
			}
		}
		sort.Strings(want)
		if got := list(dir); strings.Join(got, " ") != strings.Join(want, " ") {
			c.Errorf("the generated files are %v, have to be %v", got, want)
			return
		}
		raw := map[string][]byte{}
		for _, f := range want {
			raw[f], _ = os.ReadFile(dir + f)
		}
		fits(c, "generated", dir, addr, T, certs, MMD)
		for k, ip := range maps {
			if c.Failed() {
				return
			}
			d := filepath.Join(base, fmt.Sprintf("mapped%d", k))
			for f, b := range raw {
				os.MkdirAll(filepath.Dir(d+f), 0755)
				os.WriteFile(d+f, b, 0644)
			}
			file := filepath.Join(base, "ip", "new", fmt.Sprintf("%d.json", k))
			Gen.Write_IP_Json_to_files(file, ip)
			back := Gen.Read_IP_Json_from_files(file)
			if string(js(back)) != string(js(ip)) {
				c.Errorf("the address file became %s", js(back))
			}
			os.Chdir(d)
			Gen.Map_all(nC, nL, nG, back)
			mapped := map[string][]string{}
			for kind, m := range map[string]map[int]string{"CA": ip.CA_ip_map, "Logger": ip.Logger_ip_map, "Monitor": ip.Monitor_ip_map, "Gossiper": ip.Gossiper_ip_map} {
				for i, a := range addr[kind] {
					mapped[kind] = append(mapped[kind], m[i]+a[strings.LastIndex(a, ":"):])
				}
			}
			fits(c, "mapped", d, mapped, T, certs, MMD)
		}
	})
}

// The address templates number the entities one after the other.
func TestP17Template(t *testing.T) {
	check(t, 400, func(rt *rapid.T, c *Case) {
		n := rapid.SliceOfN(rapid.IntRange(0, 30), 3, 3).Draw(rt, "numbers")
		off := rapid.SliceOfN(rapid.IntRange(0, 200), 3, 3).Draw(rt, "offsets")
		mask := rapid.SliceOfN(rapid.SampledFrom([]string{"172.30.0.", "10.0.0.", "10.0.1.", "x"}), 3, 3).Draw(rt, "masks")
		c.Describe("%v entities at %v %v", n, mask, off)
		c.NonTrivial(fmt.Sprint(n, off, mask))
		ip := Gen.Generate_IP_Json_template(n[0], n[1], n[2], mask[0], off[0], mask[1], off[1], mask[2], off[2])
		for k, m := range []map[int]string{ip.CA_ip_map, ip.Logger_ip_map, ip.Monitor_ip_map, ip.Gossiper_ip_map} {
			j := min(k, 2)
			if len(m) != n[j] {
				c.Errorf("map %d has %d addresses of %d", k, len(m), n[j])
			}
			for i := 0; i < n[j]; i++ {
				if m[i] != mask[j]+fmt.Sprint(off[j]+i) {
					c.Errorf("address %d of map %d is %s", i, k, m[i])
				}
			}
		}
		i := rapid.IntRange(0, 999).Draw(rt, "number")
		if got := Gen.Port_Postfix(i); got != fmt.Sprintf("%03d", i) {
			c.Errorf("the port of number %d ends in %s", i, got)
		}
	})
}

var localName = regexp.MustCompile(`localhost:([6-9])([0-9]{3})`)

// A deployment with more than a hundred entities of a kind: mapping it changes the addresses and nothing else.
func TestP17Large(t *testing.T) {
	check(t, 1, func(rt *rapid.T, c *Case) {
		n := map[string]int{"CA": rapid.IntRange(1, 3).Draw(rt, "CAs"), "Logger": rapid.IntRange(1, 3).Draw(rt, "loggers"), "Gossiper": rapid.IntRange(2, 3).Draw(rt, "gossipers")}
		large := rapid.SampledFrom([]string{"CA", "Logger", "Gossiper"}).Draw(rt, "large")
		n[large] = rapid.IntRange(98, 120).Draw(rt, "number")
		if large == "CA" {
			n["Logger"] = rapid.IntRange(1, 40).Draw(rt, "more loggers")
		}
		if large == "Gossiper" {
			n[large] = rapid.IntRange(98, 104).Draw(rt, "gossipers")
		}
		n["Monitor"] = n["Gossiper"]
		mask := rapid.SampledFrom([]string{"172.30.0.", "10.0.", "host-"}).Draw(rt, "mask")
		ip := Gen.IP_Json{CA_ip_map: map[int]string{}, Logger_ip_map: map[int]string{}, Monitor_ip_map: map[int]string{}, Gossiper_ip_map: map[int]string{}}
		maps := map[string]map[int]string{"6": ip.CA_ip_map, "7": ip.Logger_ip_map, "8": ip.Monitor_ip_map, "9": ip.Gossiper_ip_map}
		for k, kind := range map[string]string{"6": "CA", "7": "Logger", "8": "Monitor", "9": "Gossiper"} {
			for i := 0; i < n[kind]; i++ {
				maps[k][i] = fmt.Sprint(mask, k, ".", i*7%128)
			}
		}
		c.Describe("%v entities, addresses %s", n, mask)
		c.NonTrivial(fmt.Sprint(n, mask))
		class("many of kind " + large)
		G, M, C, L := Gen.Generate_all_list(n["Gossiper"], n["CA"], n["Logger"])
		w := newWorld(0, 3, 2, 2, 2)
		pool := w.rsa[w.L[0]]
		all := crypto.RSAPublicMap{}
		for i, id := range append(append(append(append([]string{}, G...), M...), C...), L...) {
			all[crypto.CTngID(id)] = rsa.PublicKey{N: new(big.Int).Add(pool.N, big.NewInt(int64(i))), E: pool.E} // one of its own for everybody
		}
		bls := crypto.BlsPublicMap{}
		for i, id := range G {
			bls[crypto.CTngID(id)] = w.blspub[crypto.CTngID(w.G[i%3])]
		}
		dir := scratch()
		defer os.RemoveAll(dir)
		cwd, _ := os.Getwd()
		defer os.Chdir(cwd)
		os.Chdir(dir)
		cps := Gen.GenerateCA_private_config_map(G, M, L, n["CA"], 5)
		lps := Gen.GenerateLogger_private_config_map(G, M, C, n["Logger"])
		mps := Gen.GenerateMonitor_private_config_map(G, M, C, L, 60, 60, 5, nil, "")
		gps := Gen.GenerateGossiper_private_config_map(G, M, C, L, 60, 60, 5, 5, nil, "")
		before := map[string][]byte{}
		used := map[string]bool{}
		for kind, ids := range map[string][]string{"CA": C, "Logger": L, "Monitor": M, "Gossiper": G} {
			ccs := Gen.GenerateCryptoconfig_map(n["Gossiper"], n[kind], 2, kind)
			if len(ids) != n[kind] {
				c.Errorf("%d names of %d entities", len(ids), n[kind])
				return
			}
			for i, id := range ids {
				cc := ccs[id]
				cc.SignPublicMap = all
				cc.SignSecretKey = *pool
				cc.ThresholdPublicMap = bls.Serialize()
				sk := w.bls[w.G[i%3]]
				cc.ThresholdSecretKey = sk.Serialize()
				var priv, pub any
				known := false
				switch kind {
				case "CA":
					priv, known = cps[id], cps[id].Signer == id
					pub = Gen.GenerateCA_public_config(L, C, 60, 60, nil)
				case "Logger":
					priv, known = lps[id], lps[id].Signer == id
					pub = Gen.GenerateLogger_public_config(L, C, 60, 60, nil)
				case "Monitor":
					priv, known = mps[id], mps[id].Signer == id && mps[id].Gossiper_URL == G[i]
					pub = Gen.GenerateMonitor_public_config(G, M, C, L, 60, 60, 5, nil)
				case "Gossiper":
					priv, known = gps[id], gps[id].Owner_URL == M[i]
					pub = Gen.GenerateGossiper_public_config(G, M, C, L, 60, 60, 5, 5, nil)
				}
				if !known || cc.SelfID != crypto.CTngID(id) {
					c.Errorf("there is no configuration of %s", id)
					return
				}
				port := map[string]string{"CA": cps[id].Port, "Logger": lps[id].Port, "Monitor": mps[id].Port, "Gossiper": gps[id].Port}[kind]
				if num, err := strconv.Atoi(port); err != nil || num < 1 || num > 65535 || !strings.HasSuffix(id, ":"+port) || used[port] {
					c.Errorf("%s %s listens on port %q", kind, id, port)
					return
				}
				used[port] = true
				d := strings.ToLower(kind) + "_testconfig/" + fmt.Sprint(i+1) + "/"
				os.MkdirAll(d, 0755)
				for what, v := range map[string]any{"private": priv, "public": pub, "crypto": cc} {
					f := d + kind + "_" + what + "_config.json"
					b := js(v)
					before[f] = b
					os.WriteFile(f, b, 0644)
				}
			}
		}
		Gen.Map_all(n["CA"], n["Logger"], n["Gossiper"], ip)
		for f, b := range before {
			want := localName.ReplaceAllStringFunc(string(b), func(s string) string {
				i, _ := strconv.Atoi(s[len(s)-3:])
				return maps[s[len("localhost:"):len("localhost:")+1]][i] + s[len("localhost"):]
			})
			got, _ := os.ReadFile(f)
			var x, y map[string]json.RawMessage
			json.Unmarshal([]byte(want), &x)
			json.Unmarshal(got, &y)
			for k := range x {
				var u, v any
				for _, d := range []struct {
					b json.RawMessage
					v *any
				}{{x[k], &u}, {y[k], &v}} {
					dec := json.NewDecoder(bytes.NewReader(d.b))
					dec.UseNumber()
					dec.Decode(d.v)
				}
				if !reflect.DeepEqual(u, v) {
					c.Errorf("%s of %s is %s, has to be %s", k, f, clip(string(y[k]), 300), clip(string(x[k]), 300))
					return
				}
			}
		}
	})
}

// Crypto configurations made for any set of names belong together and still do when they are read from their files.
func TestP17Crypto(t *testing.T) {
	check(t, 3, func(rt *rapid.T, c *Case) {
		names := rapid.SliceOfNDistinct(rapid.StringMatching(`[a-z0-9.:]{1,14}`), 2, 4, func(s string) string { return s }).Draw(rt, "names")
		T := rapid.IntRange(2, len(names)).Draw(rt, "threshold")
		ids := []crypto.CTngID{}
		for _, s := range names {
			ids = append(ids, crypto.CTngID(s))
		}
		c.Describe("crypto configurations of %v, threshold %d", names, T)
		c.NonTrivial(fmt.Sprint(names, T))
		class("crypto configurations of free names")
		made, err := crypto.GenerateEntityCryptoConfigs(ids, T)
		if err != nil || len(made) != len(ids) {
			c.Errorf("%d configurations of %d: %v", len(made), len(ids), err)
			return
		}
		dir := scratch()
		defer os.RemoveAll(dir)
		if err = crypto.SaveCryptoFiles(dir+"/", made); err != nil {
			c.Errorf("not saved: %v", err)
			return
		}
		msg := "statement of " + names[0]
		read := []*crypto.CryptoConfig{}
		for i, id := range ids {
			cc, err := crypto.ReadCryptoConfig(dir + "/" + names[i] + ".test.json")
			if err != nil || cc.SelfID != id || made[i].SelfID != id {
				c.Errorf("the configuration of %s is not readable as its own: %v", id, err)
				return
			}
			if cc.Threshold != T || cc.N != len(ids) || len(cc.SignPublicMap) != len(ids) || len(cc.ThresholdPublicMap) != len(ids) {
				c.Errorf("%s has threshold %d of %d, %d and %d public keys", id, cc.Threshold, cc.N, len(cc.SignPublicMap), len(cc.ThresholdPublicMap))
			}
			read = append(read, cc)
		}
		frags := []crypto.SigFragment{}
		for i, id := range ids {
			sig, err := read[i].Sign([]byte(msg))
			if err != nil || sig.ID != id {
				c.Errorf("%s cannot sign: %v", id, err)
				return
			}
			frag, err := read[i].ThresholdSign(msg)
			if err != nil {
				c.Errorf("%s cannot sign a fragment: %v", id, err)
				return
			}
			frags = append(frags, frag)
			for j, other := range ids {
				for _, cc := range []*crypto.CryptoConfig{read[j], &made[j]} {
					if err := cc.Verify([]byte(msg), sig); err != nil {
						c.Errorf("%s does not verify the signature of %s: %v", other, id, err)
					}
					if err := cc.FragmentVerify(msg, frag); err != nil {
						c.Errorf("%s does not verify the fragment of %s: %v", other, id, err)
					}
				}
			}
			for j, other := range ids {
				if i != j {
					alien := sig
					alien.ID = other
					if read[j].Verify([]byte(msg), alien) == nil {
						c.Errorf("the signature of %s passes as one of %s", id, other)
					}
				}
			}
		}
		whole, err := read[0].ThresholdAggregate(frags[:T])
		if err != nil {
			c.Errorf("no aggregate: %v", err)
			return
		}
		for j, other := range ids {
			if err := read[j].ThresholdVerify(msg, whole); err != nil {
				c.Errorf("%s does not verify the certificate: %v", other, err)
			}
		}
	})
}
