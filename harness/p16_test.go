package ctngverif

// P16: whatever is written or sent means the same when it is read again, and
// what cannot be read is reported.

import (
	"bytes"
	"crypto/rsa"
	"crypto/tls"
	"crypto/x509"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"math"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"testing"

	"github.com/bits-and-blooms/bitset"
	"github.com/herumi/bls-go-binary/bls"
	"github.com/jik18001/CTngV2/CA"
	"github.com/jik18001/CTngV2/Logger"
	"github.com/jik18001/CTngV2/client"
	"github.com/jik18001/CTngV2/crypto"
	"github.com/jik18001/CTngV2/definition"
	"github.com/jik18001/CTngV2/gossiper"
	"github.com/jik18001/CTngV2/monitor"
	"github.com/jik18001/CTngV2/util"
	"github.com/txaty/go-merkletree"
	"pgregory.net/rapid"
)

func blsMap(m crypto.BlsPublicMap) map[string]string {
	out := map[string]string{}
	for id, k := range m {
		out[string(id)] = (&k).SerializeToHexStr()
	}
	return out
}

func TestP16Config(t *testing.T) {
	check(t, 500, func(rt *rapid.T, c *Case) {
		w := drawWorld(rt, 1, 6, 2, 2)
		all := append(append(append(append([]string{}, w.G...), w.M...), w.L...), w.C...)
		id := rapid.SampledFrom(all).Draw(rt, "entity")
		cfg := w.cfg(id)
		dir := scratch()
		defer os.RemoveAll(dir)
		c.Describe("configuration of %s, %d gossipers, threshold %d", id, len(w.G), w.T)
		c.NonTrivial(fmt.Sprint(id, len(w.G), w.T))
		path := filepath.Join(dir, "config.json")
		if !strings.Contains(id, "/") && rapid.Bool().Draw(rt, "named") {
			others := []crypto.CryptoConfig{}
			for _, x := range all {
				others = append(others, *w.cfg(x))
			}
			sub := filepath.Join(dir, "new", "dir")
			if err := crypto.SaveCryptoFiles(sub, others); err != nil {
				c.Errorf("saving fails: %v", err)
				return
			}
			path = filepath.Join(sub, id+".test.json")
		} else if err := util.WriteData(path, crypto.NewStoredCryptoConfig(cfg)); err != nil {
			c.Errorf("saving fails: %v", err)
			return
		}
		full, err := crypto.ReadCryptoConfig(path)
		verify, err2 := crypto.ReadVerifyOnlyCryptoConfig(path)
		basic, err3 := crypto.ReadBasicCryptoConfig(path)
		if err != nil || err2 != nil || err3 != nil {
			c.Errorf("reading fails: %v %v %v", err, err2, err3)
			return
		}
		msg := rapid.String().Draw(rt, "message")
		sig, _ := cfg.Sign([]byte(msg))
		frag, _ := cfg.ThresholdSign(msg)
		isG := w.bls[id] != nil
		for name, r := range map[string]*crypto.CryptoConfig{"full": full, "verify-only": verify, "basic": basic} {
			if r.SelfID != cfg.SelfID || r.SignScheme != cfg.SignScheme || r.HashScheme != cfg.HashScheme {
				c.Errorf("%s: %s %s %v became %s %s %v", name, cfg.SelfID, cfg.SignScheme, cfg.HashScheme, r.SelfID, r.SignScheme, r.HashScheme)
			}
			if len(r.SignPublicMap) != len(cfg.SignPublicMap) {
				c.Errorf("%s: %d public keys became %d", name, len(cfg.SignPublicMap), len(r.SignPublicMap))
			}
			for k, v := range cfg.SignPublicMap {
				if x, ok := r.SignPublicMap[k]; !ok || !x.Equal(&v) {
					c.Errorf("%s: the public key of %s changed", name, k)
				}
			}
			if r.Verify([]byte(msg), sig) != nil || r.Verify([]byte(msg+"."), sig) == nil {
				c.Errorf("%s: does not tell a right signature from a wrong one", name)
			}
			if h, err := r.Hash([]byte(msg)); err != nil || !bytes.Equal(h, sha([]byte(msg))) {
				c.Errorf("%s: another hash", name)
			}
			if name != "basic" {
				if r.Threshold != cfg.Threshold || r.N != cfg.N || r.ThresholdScheme != cfg.ThresholdScheme {
					c.Errorf("%s: threshold %d of %d (%s) became %d of %d (%s)", name, cfg.Threshold, cfg.N, cfg.ThresholdScheme, r.Threshold, r.N, r.ThresholdScheme)
				}
				if !reflect.DeepEqual(blsMap(r.ThresholdPublicMap), blsMap(cfg.ThresholdPublicMap)) {
					c.Errorf("%s: the threshold keys changed", name)
				}
				if isG && (r.FragmentVerify(msg, frag) != nil || r.FragmentVerify(msg+".", frag) == nil) {
					c.Errorf("%s: does not tell a right fragment from a wrong one", name)
				}
			}
			if name != "verify-only" {
				if !r.SignSecretKey.Equal(&cfg.SignSecretKey) {
					c.Errorf("%s: the secret key changed", name)
				} else if s, err := r.Sign([]byte(msg)); err != nil || cfg.Verify([]byte(msg), s) != nil || string(s.ID) != id {
					c.Errorf("%s: what it signs is not accepted: %v", name, err)
				}
			} else if r.SignSecretKey.D != nil {
				c.Errorf("%s: holds the secret key", name)
			}
		}
		if isG {
			if s, err := full.ThresholdSign(msg); err != nil || cfg.FragmentVerify(msg, s) != nil || string(s.ID) != id {
				c.Errorf("what the read configuration endorses is not accepted: %v", err)
			}
		}
		zero := bls.SecretKey{}
		if !verify.ThresholdSecretKey.IsEqual(&zero) {
			c.Errorf("the verify-only configuration holds the threshold key")
		}
		raw, _ := os.ReadFile(path)
		// a damaged key
		var doc map[string]any
		dec := json.NewDecoder(bytes.NewReader(raw))
		dec.UseNumber()
		dec.Decode(&doc)
		if keys, ok := doc["ThresholdPublicMap"].(map[string]any); ok && len(keys) > 0 {
			names := []string{}
			for k := range keys {
				names = append(names, k)
			}
			sort.Strings(names)
			k := rapid.SampledFrom(names).Draw(rt, "damaged key")
			keys[k] = rapid.SampledFrom([]any{"", "00", "AAAA", "not base64!", nil}).Draw(rt, "damaged to")
			os.WriteFile(path, js(doc), 0600)
			class("damaged key")
			if _, err = crypto.ReadCryptoConfig(path); err == nil {
				c.Errorf("the key of %s in the file is %v, that is read without an error", k, keys[k])
			}
			if _, err = crypto.ReadVerifyOnlyCryptoConfig(path); err == nil {
				c.Errorf("the key of %s in the file is %v, that is read for verification without an error", k, keys[k])
			}
		}
		// a field of another type
		var doc2 map[string]json.RawMessage
		json.Unmarshal(raw, &doc2)
		fields := []string{}
		for k := range doc2 {
			fields = append(fields, k)
		}
		sort.Strings(fields)
		if len(fields) > 0 {
			k := rapid.SampledFrom(fields).Draw(rt, "retyped field")
			if raw2 := string(doc2[k]); raw2 != "true" && raw2 != "false" {
				doc2[k] = json.RawMessage("true")
				os.WriteFile(path, js(doc2), 0600)
				class("retyped field")
				_, err = crypto.ReadCryptoConfig(path)
				_, err2 = crypto.ReadVerifyOnlyCryptoConfig(path)
				_, err3 = crypto.ReadBasicCryptoConfig(path)
				if err == nil || err2 == nil || err3 == nil {
					c.Errorf("a file with %s: true instead of %.40s is read without an error: %v %v %v", k, raw2, err, err2, err3)
				}
			}
		}
		// a damaged file
		cut := rapid.IntRange(0, len(bytes.TrimRight(raw, " \n\t}"))).Draw(rt, "cut")
		os.WriteFile(path, raw[:cut], 0600)
		if rapid.IntRange(0, 5).Draw(rt, "missing") == 0 {
			os.Remove(path)
			cut = -1
		}
		_, err = crypto.ReadCryptoConfig(path)
		_, err2 = crypto.ReadVerifyOnlyCryptoConfig(path)
		_, err3 = crypto.ReadBasicCryptoConfig(path)
		if err == nil || err2 == nil || err3 == nil {
			c.Errorf("a file cut after %d of %d bytes is read without an error: %v %v %v", cut, len(raw), err, err2, err3)
		}
	})
}

func drawID(rt *rapid.T) string {
	return rapid.OneOf(rapid.StringMatching(`[a-zA-Z0-9.:/_-]{1,24}`), rapid.SampledFrom([]string{"localhost:8080", "10.0.0.1:9100", "a", "ca.example/ctng é"})).Draw(rt, "id")
}

func TestP16Signatures(t *testing.T) {
	check(t, 2500, func(rt *rapid.T, c *Case) {
		w := newWorld(rapid.IntRange(0, 3).Draw(rt, "naming"), 3, 1, 1, 2)
		id := drawID(rt)
		text := rapid.String().Draw(rt, "text")
		ids := []crypto.CTngID{}
		for i, n := 0, rapid.IntRange(0, 5).Draw(rt, "ids"); i < n; i++ {
			ids = append(ids, crypto.CTngID(drawID(rt)))
		}
		raw := rapid.SliceOfN(rapid.Byte(), 0, 300).Draw(rt, "signature")
		c.Describe("ids %q %q, signature of %d bytes, text %q", id, ids, len(raw), text)
		c.NonTrivial(fmt.Sprint(id, ids, text, raw))
		r := crypto.RSASig{Sig: raw, ID: crypto.CTngID(id)}
		if x, err := crypto.RSASigFromString(r.String()); err != nil || x.ID != r.ID || !bytes.Equal(x.Sig, r.Sig) {
			c.Errorf("signature %v became %v (%v)", r, x, err)
		}
		sign := w.bls[w.G[0]].Sign(text)
		f := crypto.SigFragment{Sign: sign, ID: crypto.CTngID(id)}
		if x, err := crypto.SigFragmentFromString(f.String()); err != nil || x.ID != f.ID || !x.Sign.IsEqual(sign) {
			c.Errorf("fragment %v became %v (%v)", f, x, err)
		}
		th := crypto.ThresholdSig{IDs: ids, Sign: sign}
		str, err := th.String()
		if err != nil {
			c.Errorf("certificate cannot be written: %v", err)
		}
		if x, err := crypto.ThresholdSigFromString(str); err != nil || fmt.Sprint(x.IDs) != fmt.Sprint(ids) || len(x.IDs) != len(ids) || !x.Sign.IsEqual(sign) {
			c.Errorf("certificate %s became %v (%v)", str, x, err)
		}
		// anything else is reported, and never stops the program
		bad := []string{r.String(), f.String(), str}[rapid.IntRange(0, 2).Draw(rt, "which")]
		switch rapid.IntRange(0, 4).Draw(rt, "damage") {
		case 0:
			bad = bad[:rapid.IntRange(0, len(bad)-1).Draw(rt, "cut")]
		case 1:
			bad = text
		case 2:
			k := rapid.IntRange(0, len(bad)-1).Draw(rt, "at")
			bad = bad[:k] + rapid.SampledFrom([]string{"\"", "{", "zz", "\\", "0"}).Draw(rt, "insert") + bad[k:]
		case 3:
			bad = rapid.SampledFrom([]string{"", "null", "{}", "[]", "0", `{"sig":"","id":""}`, `{"sign":"","id":""}`, `{"sign":"00","ids":null}`, `{"sign":"` + strings.Repeat("f", 64) + `","ids":["a"]}`, `{"sig":5}`}).Draw(rt, "odd")
		}
		safely(c, "parsing "+bad, func() {
			if x, err := crypto.RSASigFromString(bad); err == nil {
				if y, err := crypto.RSASigFromString(x.String()); err == nil && (y.ID != x.ID || !bytes.Equal(x.Sig, y.Sig)) {
					c.Errorf("signature %v became %v", x, y)
				}
			}
			for m := range w.bls {
				cfg := w.cfg(m)
				if x, err := crypto.SigFragmentFromString(bad); err == nil {
					if cfg.FragmentVerify(text, x) == nil && !(string(x.ID) == w.G[0] && x.Sign.IsEqual(sign)) {
						c.Errorf("the damaged fragment %s is accepted", bad)
					}
				}
				if x, err := crypto.ThresholdSigFromString(bad); err == nil && cfg.ThresholdVerify(text, x) == nil {
					c.Errorf("the damaged certificate %s is accepted", bad)
				}
			}
		})
	})
}

// again writes v to a file that may exist and reads it back.
func again[T any](rt *rapid.T, c *Case, name, path string, g *rapid.Generator[T]) {
	for i, n := 0, rapid.IntRange(1, 2).Draw(rt, "writes"); i < n; i++ {
		v := g.Draw(rt, name)
		if err := util.WriteData(path, v); err != nil {
			c.Errorf("%s cannot be written: %v", name, err)
			return
		}
		want, _ := json.Marshal(v)
		raw, err := util.ReadByte(path)
		if err != nil {
			c.Errorf("%s cannot be read: %v", name, err)
			return
		}
		x, y := new(T), new(T)
		if err := json.Unmarshal(raw, x); err != nil {
			c.Errorf("%s cannot be parsed: %v", name, err)
			return
		}
		util.LoadConfiguration(y, path)
		for _, z := range []*T{x, y} {
			if got, _ := json.Marshal(*z); string(got) != string(want) || !same(reflect.ValueOf(v), reflect.ValueOf(*z)) {
				c.Errorf("%s %s became %s", name, clip(string(want), 400), clip(string(got), 400))
			}
		}
		c.NonTrivial(name + string(want))
	}
	class(name)
	// what cannot be written is reported and leaves what is there
	was, _ := os.ReadFile(path)
	for _, bad := range []any{func() {}, math.NaN(), map[string]any{"x": make(chan int)}} {
		if util.WriteData(path, bad) == nil {
			c.Errorf("writing %T reports success", bad)
		}
		if is, _ := os.ReadFile(path); !bytes.Equal(is, was) {
			c.Errorf("writing %T fails and the file is changed", bad)
		}
	}
	if util.WriteData(filepath.Join(filepath.Dir(path), "no", "such", "directory"), 1) == nil || util.WriteData(filepath.Dir(path), 1) == nil {
		c.Errorf("writing where nothing can be written reports success")
	}
}

// same is equality that does not tell nil from empty.
func same(a, b reflect.Value) bool {
	switch a.Kind() {
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !same(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Map:
		if a.Len() != b.Len() {
			return false
		}
		for _, k := range a.MapKeys() {
			if !b.MapIndex(k).IsValid() || !same(a.MapIndex(k), b.MapIndex(k)) {
				return false
			}
		}
		return true
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !same(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.Pointer:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return same(a.Elem(), b.Elem())
	}
	return a.Equal(b)
}

func TestP16Objects(t *testing.T) {
	check(t, 1200, func(rt *rapid.T, c *Case) {
		dir := scratch()
		defer os.RemoveAll(dir)
		path := filepath.Join(dir, "x.json")
		k := rapid.IntRange(0, 14).Draw(rt, "type")
		c.Describe("type %d", k)
		switch k {
		case 0:
			again(rt, c, "gossip object", path, rapid.Make[definition.Gossip_object]())
		case 1:
			again(rt, c, "tree head", path, rapid.Make[definition.STH]())
		case 2:
			again(rt, c, "revocation", path, rapid.Make[CA.Revocation]())
		case 3:
			again(rt, c, "update", path, rapid.Make[monitor.ClientUpdate]())
		case 4:
			again(rt, c, "notification", path, rapid.Make[gossiper.Gossip_Notification]())
		case 5:
			again(rt, c, "CA public configuration", path, rapid.Make[CA.CA_public_config]())
		case 6:
			again(rt, c, "CA private configuration", path, rapid.Make[CA.CA_private_config]())
		case 7:
			again(rt, c, "logger public configuration", path, rapid.Make[Logger.Logger_public_config]())
		case 8:
			again(rt, c, "logger private configuration", path, rapid.Make[Logger.Logger_private_config]())
		case 9:
			again(rt, c, "monitor private configuration", path, rapid.Make[monitor.Monitor_private_config]())
		case 10:
			again(rt, c, "monitor public configuration", path, rapid.Make[monitor.Monitor_public_config]())
		case 11:
			again(rt, c, "gossiper private configuration", path, rapid.Make[gossiper.Gossiper_private_config]())
		case 12:
			again(rt, c, "gossiper public configuration", path, rapid.Make[gossiper.Gossiper_public_config]())
		case 13:
			again(rt, c, "client configuration", path, rapid.Make[client.ClientConfig]())
		case 14:
			again(rt, c, "proof of inclusion", path, rapid.Custom(drawPOI))
		}
	})
}

func drawPOI(rt *rapid.T) crypto.POI_for_transmission {
	p := crypto.POI_for_transmission{SubjectKeyId: rapid.SliceOfN(rapid.Byte(), 0, 32).Draw(rt, "key id"), Issuer: rapid.String().Draw(rt, "issuer"), LoggerID: rapid.String().Draw(rt, "logger")}
	if rapid.IntRange(0, 4).Draw(rt, "has proof") > 0 {
		p.Poi = &merkletree.Proof{Path: rapid.Uint32().Draw(rt, "path"), Siblings: rapid.SliceOfN(rapid.SliceOfN(rapid.Byte(), 32, 32), 0, 9).Draw(rt, "siblings")}
	}
	return p
}

func drawExt(rt *rapid.T) CA.CTngExtension {
	ext := CA.CTngExtension{SequenceNumber: CA.SequenceNumber{RID: rapid.OneOf(rapid.IntRange(0, 300), rapid.IntRange(0, 1<<40)).Draw(rt, "rid")}, LoggerInformation: []CA.LoggerInfo{}}
	for i, n := 0, rapid.SampledFrom([]int{0, 1, 2, 2, 3, 4, 5, 9, 17}).Draw(rt, "entries"); i < n; i++ {
		o := rapid.Make[definition.Gossip_object]().Draw(rt, "sth")
		o.Signer = fmt.Sprintf("logger %d", i)
		ext.LoggerInformation = append(ext.LoggerInformation, CA.LoggerInfo{STH: o, POI: drawPOI(rt)})
	}
	return ext
}

func extEqual(a, b CA.CTngExtension) bool { return same(reflect.ValueOf(a), reflect.ValueOf(b)) }

// Certificates with their extension, over the wire, on disk and in the CA's storage.
func TestP16Certificates(t *testing.T) {
	check(t, 200, func(rt *rapid.T, c *Case) {
		w := newWorld(rapid.IntRange(0, 3).Draw(rt, "naming"), 2, 1, 1, 2)
		ext := drawExt(rt)
		subject := rapid.SampledFrom([]string{"Testing Dummy 1", "x", "Müller & Söhne, Inc."}).Draw(rt, "subject")
		c.Describe("%s with extension %s", subject, clip(string(js(ext)), 300))
		c.NonTrivial(subject + string(js(ext)))
		class(fmt.Sprintf("%d entries", len(ext.LoggerInformation)))
		if got := CA.DecodeCTngExtension(CA.EncodeCTngExtension(ext)); !extEqual(got, ext) {
			c.Errorf("the extension became %s", clip(string(js(got)), 300))
		}
		x := w.leaf(w.C[0], subject, ext)
		dir := scratch()
		defer os.RemoveAll(dir)
		crt, keyf := filepath.Join(dir, "a.crt"), filepath.Join(dir, "a.key")
		if rapid.Bool().Draw(rt, "overwrite") {
			os.WriteFile(crt, bytes.Repeat([]byte("long old content\n"), 2000), 0600)
			os.WriteFile(keyf, bytes.Repeat([]byte("long old content\n"), 2000), 0600)
		}
		util.SaveCertificateToDisk(x.Raw, crt)
		raw, err := util.ReadCertificateFromDisk(crt)
		if err != nil || !bytes.Equal(raw, x.Raw) {
			c.Errorf("the certificate changed on disk: %v", err)
			return
		}
		y, err := x509.ParseCertificate(raw)
		if err != nil || !extEqual(CA.ParseCTngextension(y), ext) || CA.GetRIDfromCert(y) != ext.SequenceNumber.RID {
			c.Errorf("the extension in the certificate is %s (%v)", clip(string(js(CA.ParseCTngextension(y))), 300), err)
		}
		key := rsaPool[rapid.IntRange(0, len(rsaPool)-1).Draw(rt, "key")]
		util.SaveKeyToDisk(key, keyf)
		if k, err := util.ReadKeyFromDisk(keyf); err != nil || !k.Equal(key) {
			c.Errorf("the key changed on disk: %v", err)
		}
		for _, f := range []string{crt, keyf} {
			b, _ := os.ReadFile(f)
			os.WriteFile(f, b[:rapid.IntRange(0, len(b)-2).Draw(rt, "cut")], 0600)
		}
		safely(c, "reading a damaged file", func() {
			if b, err := util.ReadCertificateFromDisk(crt); err == nil {
				c.Errorf("a damaged certificate file is read as %d bytes", len(b))
			}
			if _, err := util.ReadKeyFromDisk(keyf); err == nil {
				c.Errorf("a damaged key file is read without an error")
			}
		})
		// the precertificate of a certificate is the same without the log entries
		p := CA.GetPrecertfromCert(y)
		if pe := CA.ParseCTngextension(p); pe.SequenceNumber != ext.SequenceNumber || len(pe.LoggerInformation) != 0 || !bytes.Equal(p.RawSubject, y.RawSubject) || !bytes.Equal(p.SubjectKeyId, y.SubjectKeyId) {
			c.Errorf("the precertificate has number %d and %d entries", pe.SequenceNumber.RID, len(pe.LoggerInformation))
		}
		if !extEqual(CA.ParseCTngextension(y), ext) {
			c.Errorf("looking at the precertificate changed the certificate")
		}
	})
}

func TestP16Storage(t *testing.T) {
	slots(t, 0, 0, 0, 1)
	check(t, 60, func(rt *rapid.T, c *Case) {
		w := newWorld(rapid.IntRange(0, 3).Draw(rt, "naming"), 2, 1, 1, 2)
		dir := scratch()
		defer os.RemoveAll(dir)
		cwd, _ := os.Getwd()
		os.Chdir(dir)
		defer os.Chdir(cwd)
		ca := freshCA(w, 0, 0, dir)
		ca.StoragePath1, ca.StoragePath2 = filepath.Join(dir, "one.json"), filepath.Join(dir, "two.json")
		ca.CurrentKeyPool = map[string]*rsa.PrivateKey{}
		want := map[string]*rsa.PrivateKey{}
		exts := map[string]CA.CTngExtension{}
		for i, n := 0, rapid.IntRange(0, 4).Draw(rt, "certificates"); i < n; i++ {
			ext := drawExt(rt)
			ext.SequenceNumber.RID = i + 10*rapid.IntRange(0, 50).Draw(rt, "rid")
			subject := fmt.Sprintf("Testing Dummy %d", i)
			key := rsaPool[i]
			x := CA.GetPrecertfromCert(w.leaf(w.C[0], subject, CA.CTngExtension{SequenceNumber: ext.SequenceNumber}))
			x.PublicKey = &key.PublicKey
			for _, in := range ext.LoggerInformation {
				CA.UpdateCTngExtension(x, in)
			}
			ca.CurrentCertificatePool.AddCert(x)
			ca.CurrentKeyPool[subject] = key
			name := fmt.Sprintf("%s_RID_%d", subject, ext.SequenceNumber.RID)
			want[name], exts[name] = key, ext
		}
		c.Describe("%d certificates in the storage of the CA", len(want))
		if len(want) > 0 {
			c.NonTrivial(string(js(exts)))
		}
		ca.SaveToStorage()
		names := []string{}
		files, _ := filepath.Glob("*.crt")
		for _, f := range files {
			names = append(names, strings.TrimSuffix(f, ".crt"))
		}
		sort.Strings(names)
		if len(names) != len(want) {
			c.Errorf("%d certificates on disk (%v), %d issued", len(names), names, len(want))
		}
		all := map[string]bool{}
		for name, key := range want {
			raw, err := util.ReadCertificateFromDisk(name + ".crt")
			k, err2 := util.ReadKeyFromDisk(name + ".key")
			if err != nil || err2 != nil {
				c.Errorf("%s cannot be read: %v %v", name, err, err2)
				continue
			}
			x, err := x509.ParseCertificate(raw)
			if err != nil {
				c.Errorf("%s is no certificate: %v", name, err)
				continue
			}
			pub, _ := x.PublicKey.(*rsa.PublicKey)
			if !k.Equal(key) || pub == nil || !pub.Equal(&k.PublicKey) {
				c.Errorf("%s: the key on disk is not that of the certificate", name)
			}
			if !extEqual(CA.ParseCTngextension(x), exts[name]) {
				c.Errorf("%s: the extension is %s, has to be %s", name, clip(string(js(CA.ParseCTngextension(x))), 300), clip(string(js(exts[name])), 300))
			}
			all[string(js(exts[name]))] = true
		}
		var one [][][]byte
		b, _ := util.ReadByte(ca.StoragePath1)
		if err := json.Unmarshal(b, &one); err != nil || len(one) != len(want) {
			c.Errorf("%d extensions in the storage of %d certificates: %v", len(one), len(want), err)
		}
		for _, e := range one {
			var ext CA.CTngExtension
			if len(e) != 1 || json.Unmarshal(e[0], &ext) != nil {
				c.Errorf("an extension in the storage can not be read")
				continue
			}
			found := false
			for _, x := range exts {
				found = found || extEqual(ext, x)
			}
			if !found {
				c.Errorf("the storage holds the extension %s", clip(string(js(ext)), 300))
			}
		}
	})
}

func TestP16Files(t *testing.T) {
	check(t, 400, func(rt *rapid.T, c *Case) {
		data := rapid.OneOf(rapid.SliceOfN(rapid.Byte(), 0, 100), rapid.Custom(func(rt *rapid.T) []byte {
			return bytes.Repeat(rapid.SliceOfN(rapid.Byte(), 1, 20).Draw(rt, "part"), rapid.IntRange(1, 20000).Draw(rt, "times"))
		})).Draw(rt, "data")
		c.Describe("%d bytes", len(data))
		c.NonTrivial(fmt.Sprint(len(data), string(sha(data))))
		z, err := util.CompressData(data)
		if err != nil {
			c.Errorf("compressing fails: %v", err)
			return
		}
		if x, err := util.DecompressData(z); err != nil || !bytes.Equal(x, data) {
			c.Errorf("%d bytes became %d: %v", len(data), len(x), err)
		}
		if x := gunz(z); !bytes.Equal(x, data) {
			c.Errorf("the compressed data is no gzip")
		}
		cut := rapid.IntRange(0, len(z)-1).Draw(rt, "cut")
		safely(c, "decompressing", func() {
			if _, err := util.DecompressData(z[:cut]); err == nil {
				c.Errorf("cut data is decompressed without an error")
			}
			util.DecompressData(data)
		})
		short := append(data[:min(len(data), 64)], 0)
		if got := util.BitsToBytes(util.BytesToBits(short)); !bytes.Equal(bytes.TrimRight(got, "\x00"), bytes.TrimRight(short, "\x00")) {
			c.Errorf("bytes %x became %x", short, got)
		}
	})
}

// Cleaning up a storage directory removes all of it and nothing else.
func TestP16Cleanup(t *testing.T) {
	check(t, 150, func(rt *rapid.T, c *Case) {
		base := scratch()
		defer os.RemoveAll(base)
		root := filepath.Join(base, "a", "b", "c", "storage")
		keep := filepath.Join(base, "a", "b", "c", "other")
		os.MkdirAll(root, 0755)
		os.MkdirAll(keep, 0755)
		os.WriteFile(filepath.Join(keep, "f"), []byte("keep"), 0644)
		dirs := []string{root}
		desc := ""
		for i, n := 0, rapid.IntRange(0, 12).Draw(rt, "entries"); i < n; i++ {
			d := rapid.SampledFrom(dirs).Draw(rt, "in")
			switch rapid.IntRange(0, 3).Draw(rt, "kind") {
			case 0:
				x := filepath.Join(d, fmt.Sprintf("Period_%d", i))
				os.Mkdir(x, 0755)
				dirs = append(dirs, x)
			case 1:
				os.Symlink(keep, filepath.Join(d, fmt.Sprintf("link%d", i)))
			default:
				os.WriteFile(filepath.Join(d, fmt.Sprintf("f%d.json", i)), []byte("{}"), 0644)
			}
			desc += fmt.Sprintf("%s/%d ", filepath.Base(d), i)
		}
		c.Describe("a tree with %s", desc)
		c.NonTrivial(desc)
		switch rapid.SampledFrom([]string{"util", "monitor", "gossiper"}).Draw(rt, "by") {
		case "util":
			if err := util.DeleteFilesAndDirectories(root); err != nil {
				c.Errorf("cleaning up fails: %v", err)
			}
		case "monitor":
			(&monitor.MonitorContext{StorageDirectory: root + "/", StorageFile_CRV: root + "/CRV.json"}).CleanUpMonitorStorage()
		case "gossiper":
			(&gossiper.GossiperContext{StorageDirectory: root + "/", StorageFile: "log.json"}).CleanUpGossiperStorage()
		}
		if _, err := os.Lstat(root); !os.IsNotExist(err) {
			c.Errorf("the directory is still there: %v", err)
		}
		if b, err := os.ReadFile(filepath.Join(keep, "f")); err != nil || string(b) != "keep" {
			c.Errorf("a file outside was removed: %v", err)
		}
		if util.DeleteFilesAndDirectories(root) == nil {
			c.Errorf("cleaning up a directory that does not exist is no error")
		}
	})
}

// What a client fetches is what the other side presents.
func TestP16Fetch(t *testing.T) {
	check(t, 40, func(rt *rapid.T, c *Case) {
		w := newWorld(rapid.IntRange(0, 3).Draw(rt, "naming"), 3, 2, 2, 2)
		objs, roots := []definition.Gossip_object{}, []string{}
		for i, k := 0, rapid.IntRange(0, 4).Draw(rt, "objects"); i < k; i++ {
			root := drawRoot(rt, "root")
			roots = append(roots, root)
			objs = append(objs, w.full(w.G[:2], w.sth(w.L[i%2], i, root, i), i))
		}
		how := rapid.SampledFrom([]string{"ok", "ok", "ok", "error", "garbage", "cut", "refused"}).Draw(rt, "answer")
		status := rapid.SampledFrom([]int{400, 404, 500, 503}).Draw(rt, "status")
		nw := newNet(c)
		done := nw.install()
		if how != "refused" {
			nw.hosts[w.M[0]] = http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
				b := js(objs)
				switch how {
				case "error":
					rw.WriteHeader(status)
				case "garbage":
					b = []byte("<html>")
				case "cut":
					b = b[:len(b)-1]
				}
				rw.Write(b)
			})
		}
		got, err := client.FetchGossip("http://" + w.M[0] + "/objects")
		done()
		if (err == nil) != (how == "ok") {
			c.Errorf("answer %s: error %v", how, err)
		}
		if how == "ok" && (len(got) != len(objs) || len(objs) > 0 && string(js(got)) != string(js(objs))) {
			c.Errorf("the client fetched %s", clip(string(js(got)), 300))
		}
		if r := client.GetRootHash(objs); strings.Join(r, " ") != strings.Join(roots, " ") {
			c.Errorf("the roots of %v are %v", roots, r)
		}
		// the certificate of a web site, over TLS: the first of its chain
		ext := drawExt(rt)
		x := w.leaf(w.C[0], "www.example.com", ext)
		chain := [][]byte{x.Raw}
		for i, k := 0, rapid.IntRange(0, 2).Draw(rt, "chain"); i < k; i++ {
			chain = append(chain, w.leaf(w.C[i%2], "another", CA.CTngExtension{}).Raw)
		}
		site := httptest.NewUnstartedServer(sink)
		site.Config.ErrorLog = log.New(io.Discard, "", 0)
		site.TLS = &tls.Config{Certificates: []tls.Certificate{{Certificate: chain, PrivateKey: rsaPool[0]}}}
		site.StartTLS()
		defer site.Close()
		c.Describe("%d objects, answer %s; a site with a chain of %d and extension %s", len(objs), how, len(chain), clip(string(js(ext)), 300))
		c.NonTrivial(fmt.Sprint(len(objs), how, len(chain), string(js(ext))))
		class("answer " + how)
		cert, err := client.FetchCertificate(site.URL)
		if err != nil || !bytes.Equal(cert.Raw, x.Raw) || !extEqual(CA.ParseCTngextension(&cert), ext) {
			c.Errorf("the client fetched a certificate of %s with extension %s: %v", cert.Subject, clip(string(js(CA.ParseCTngextension(&cert))), 300), err)
		}
		url := site.URL
		site.Close()
		if _, err := client.FetchCertificate(url); err == nil {
			c.Errorf("a certificate is fetched from a site that is down")
		}
	})
}

// TestChildClient is run in a process of its own by TestP16Databases: the client loads its files, or ends the process.
func TestChildClient(t *testing.T) {
	dir := os.Getenv("VERIF_CLIENT")
	if dir == "" {
		return
	}
	ctx := &client.ClientContext{Config: &client.ClientConfig{}, Config_filepath: dir + "/client.json", Crypto_filepath: dir + "/client_crypto.json", Status: "OLD"}
	ctx.InitializeClientContext()
	saveClient(ctx)
	os.WriteFile(dir+"/loaded", nil, 0644)
}

// A client starts with what it saved, and does not start with a damaged file.
func TestP16Databases(t *testing.T) {
	check(t, 60, func(rt *rapid.T, c *Case) {
		w := newWorld(rapid.IntRange(0, 3).Draw(rt, "naming"), 3, 2, 2, 2)
		dir := scratch()
		defer os.RemoveAll(dir)
		cl := w.newClient(dir, "NEW")
		for _, id := range append(append([]string{}, w.L...), w.C...) {
			if rapid.Bool().Draw(rt, "roots of "+id) {
				cl.STH_database[id+"@"+p2(rapid.IntRange(0, 59).Draw(rt, "period"))] = drawRoot(rt, "root")
			}
			b := bitset.New(0)
			for _, n := range rapid.SliceOfN(rapid.IntRange(0, 300), 1, 6).Draw(rt, "revoked") {
				b.Set(uint(n))
			}
			cl.CRV_database[id] = b
			if rapid.Bool().Draw(rt, "convicted") {
				cl.POM_database[id] = w.full(w.G[:2], w.acc(w.M[0], id, 3), 3)
			}
		}
		saveClient(cl)
		files := []string{"STH.json", "CRV.json", "PoM.json", "client.json", "client_crypto.json"}
		before := map[string]string{}
		for _, f := range files {
			b, _ := os.ReadFile(dir + "/" + f)
			before[f] = string(b)
		}
		how := rapid.SampledFrom([]string{"cut", "retyped", "a vector is cut", "none"}).Draw(rt, "damage")
		f := rapid.SampledFrom(files).Draw(rt, "file")
		raw := strings.TrimRight(before[f], " \n")
		switch how {
		case "cut":
			os.WriteFile(dir+"/"+f, []byte(raw[:rapid.IntRange(0, len(raw)-1).Draw(rt, "cut")]), 0644)
		case "retyped":
			os.WriteFile(dir+"/"+f, []byte(rapid.SampledFrom([]string{"[1]", `"{}"`, "7", "<html>", raw + "}"}).Draw(rt, "content")), 0644)
		case "a vector is cut":
			f = "CRV.json"
			var m map[string][]byte
			json.Unmarshal([]byte(raw), &m)
			json.Unmarshal([]byte(before[f]), &m)
			ids := append(append([]string{}, w.L...), w.C...)
			id := rapid.SampledFrom(ids).Draw(rt, "of")
			m[id] = m[id][:rapid.IntRange(0, len(m[id])-1).Draw(rt, "cut")]
			os.WriteFile(dir+"/"+f, js(m), 0644)
		}
		if how == "none" {
			f = "nothing"
		}
		c.Describe("a client whose files were saved, then %s is damaged: %s", f, how)
		c.NonTrivial(fmt.Sprint(how, f, before))
		class("databases: " + how)
		cmd := exec.Command(os.Args[0], "-test.run", "^TestChildClient$")
		cmd.Env = append(os.Environ(), "VERIF_CLIENT="+dir, "VERIF_OUT=")
		err := cmd.Run()
		_, loaded := os.Stat(dir + "/loaded")
		if how != "none" {
			if err == nil || loaded == nil {
				c.Errorf("the client starts with a damaged %s", f)
			}
			return
		}
		if err != nil || loaded != nil {
			c.Errorf("the client does not start with its own files: %v", err)
		}
		for _, f := range files {
			if b, _ := os.ReadFile(dir + "/" + f); string(b) != before[f] {
				c.Errorf("%s was loaded and saved as something else: %s", f, clip(string(b), 300))
			}
		}
	})
}
