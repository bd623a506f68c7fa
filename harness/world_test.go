package ctngverif

// A world: entities with keys, and makers for genuine signed objects. The
// makers use crypto/rsa and the BLS library directly, not the code under test.

import (
	"bytes"
	"compress/gzip"
	stdcrypto "crypto"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/x509"
	_ "embed"
	"encoding/hex"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"strconv"
	"time"

	"github.com/bits-and-blooms/bitset"
	"github.com/herumi/bls-go-binary/bls"
	"github.com/jik18001/CTngV2/crypto"
	"github.com/jik18001/CTngV2/definition"
	"pgregory.net/rapid"
)

//go:embed testdata/rsa_keys.pem
var rsaKeysPEM []byte

var rsaPool []*rsa.PrivateKey

func init() {
	rest := rsaKeysPEM
	for {
		var b *pem.Block
		b, rest = pem.Decode(rest)
		if b == nil {
			break
		}
		k, err := x509.ParsePKCS1PrivateKey(b.Bytes)
		if err != nil {
			panic(err)
		}
		rsaPool = append(rsaPool, k)
	}
}

type World struct {
	G, M, L, C []string // gossipers, monitors (one per gossiper), loggers, CAs
	T          int
	rsa        map[string]*rsa.PrivateKey
	bls        map[string]*bls.SecretKey
	pub        crypto.RSAPublicMap
	blspub     crypto.BlsPublicMap
}

func newWorld(style, nG, nL, nC, T int) *World {
	w := &World{T: T, rsa: map[string]*rsa.PrivateKey{}, bls: map[string]*bls.SecretKey{}, pub: crypto.RSAPublicMap{}, blspub: crypto.BlsPublicMap{}}
	name := func(role string, i int) string {
		base := map[string]int{"G": 8080, "M": 8180, "L": 9000, "C": 9100}[role]
		switch style % 4 {
		case 0: // the fixtures of the repository
			return fmt.Sprintf("localhost:%d", base+i)
		case 1: // generated configurations, mapped to addresses
			return fmt.Sprintf("172.30.%d.%d:3000", base%7, 10+i)
		case 2:
			return fmt.Sprintf("%s%d.ctng.example:80", map[string]string{"G": "gossiper", "M": "mon", "L": "log", "C": "ca"}[role], i)
		default: // one name is a prefix of another
			return map[string]string{"G": "g", "M": "m", "L": "l", "C": "c"}[role] + "x" + "0000000000"[:i] + map[bool]string{true: "0", false: "0"}[true]
		}
	}
	k := 0
	add := func(id string) string {
		key := rsaPool[k%len(rsaPool)]
		k++
		w.rsa[id] = key
		w.pub[crypto.CTngID(id)] = key.PublicKey
		return id
	}
	for i := 0; i < nG; i++ {
		w.G = append(w.G, add(name("G", i)))
		w.M = append(w.M, add(name("M", i)))
	}
	for i := 0; i < nL; i++ {
		w.L = append(w.L, add(name("L", i)))
	}
	for i := 0; i < nC; i++ {
		w.C = append(w.C, add(name("C", i)))
	}
	for i, g := range w.G {
		sk := new(bls.SecretKey)
		h := sha256.Sum256([]byte(fmt.Sprintf("bls key %d", i)))
		h[31] &= 0x0f
		if err := sk.SetLittleEndian(h[:]); err != nil {
			panic(err)
		}
		w.bls[g] = sk
		w.blspub[crypto.CTngID(g)] = *sk.GetPublicKey()
	}
	return w
}

// drawWorld draws the size and the naming of a world.
func drawWorld(rt *rapid.T, minG, maxG, nL, nC int) *World {
	n := rapid.IntRange(minG, maxG).Draw(rt, "gossipers")
	T := rapid.IntRange(2, max(2, n)).Draw(rt, "threshold")
	style := rapid.IntRange(0, 3).Draw(rt, "naming")
	return newWorld(style, n, nL, nC, T)
}

func (w *World) String() string {
	return fmt.Sprintf("G=%v L=%v C=%v T=%d", w.G, w.L, w.C, w.T)
}

func (w *World) entities() []string {
	return append(append([]string{}, w.L...), w.C...)
}

// cfg returns a fresh crypto configuration of an entity.
func (w *World) cfg(id string) *crypto.CryptoConfig {
	pub := crypto.RSAPublicMap{}
	for k, v := range w.pub {
		pub[k] = v
	}
	blspub := crypto.BlsPublicMap{}
	for k, v := range w.blspub {
		blspub[k] = v
	}
	c := &crypto.CryptoConfig{Threshold: w.T, N: len(w.G), HashScheme: crypto.SHA256, SignScheme: "rsa", ThresholdScheme: "bls",
		SelfID: crypto.CTngID(id), SignPublicMap: pub, ThresholdPublicMap: blspub}
	if k, ok := w.rsa[id]; ok {
		c.SignSecretKey = *k
	}
	if k, ok := w.bls[id]; ok {
		c.ThresholdSecretKey = *k
	}
	return c
}

// ---- signatures ----

func rsaRaw(key *rsa.PrivateKey, msg string) []byte {
	h := sha256.Sum256([]byte(msg))
	s, err := rsa.SignPKCS1v15(rand.Reader, key, stdcrypto.SHA256, h[:])
	if err != nil {
		panic(err)
	}
	return s
}

func rsaSigString(sig []byte, id string) string {
	return fmt.Sprintf(`{"sig":"%s","id":"%s"}`, hex.EncodeToString(sig), id)
}

func (w *World) rsaSig(id, msg string) string { return rsaSigString(rsaRaw(w.rsa[id], msg), id) }

func fragSigString(s *bls.Sign, id string) string {
	return fmt.Sprintf(`{"sign":"%s","id":"%s"}`, s.SerializeToHexStr(), id)
}

func thresholdSigString(s *bls.Sign, ids []string) string {
	b, _ := json.Marshal(ids)
	return fmt.Sprintf(`{"sign":"%s", "ids":%s}`, s.SerializeToHexStr(), b)
}

func (w *World) aggregate(signers []string, msg string) *bls.Sign {
	sigs := []bls.Sign{}
	for _, g := range signers {
		sigs = append(sigs, *w.bls[g].Sign(msg))
	}
	a := new(bls.Sign)
	a.Aggregate(sigs)
	return a
}

// ---- objects ----

func p2(p int) string { return fmt.Sprintf("%02d", ((p%60)+60)%60) }

func msgOf(o definition.Gossip_object) string { return o.Payload[0] + o.Payload[1] + o.Payload[2] }

func now() string { return time.Now().UTC().Format(time.RFC3339) }

// sthPayload is the signed part of an STH built in period p.
func sthPayload(logger string, p int, root string, size int) string {
	b, _ := json.Marshal(definition.STH{Signer: logger, Timestamp: "2023-01-01T00:00:00Z", Period: p2(p), RootHash: root, TreeSize: size})
	return hex.EncodeToString(b)
}

// sth returns the STH of a logger for publication in period p (it was built in p-1).
func (w *World) sth(logger string, p int, root string, size int) definition.Gossip_object {
	pay := [3]string{logger, sthPayload(logger, p-1, root, size), ""}
	return definition.Gossip_object{Application: "CTng", Type: definition.STH_INIT, Period: p2(p), Signer: logger, Timestamp: "2023-01-01T00:00:00Z",
		Signature: [2]string{w.rsaSig(logger, pay[0]+pay[1]+pay[2]), ""}, Crypto_Scheme: "RSA", Payload: pay}
}

func gz(b []byte) []byte {
	var out bytes.Buffer
	g := gzip.NewWriter(&out)
	g.Write(b)
	g.Close()
	return out.Bytes()
}

func gunz(b []byte) []byte {
	r, err := gzip.NewReader(bytes.NewReader(b))
	if err != nil {
		return nil
	}
	var out bytes.Buffer
	if _, err = out.ReadFrom(r); err != nil {
		return nil
	}
	return out.Bytes()
}

func bits(n uint, set ...uint) *bitset.BitSet {
	b := bitset.New(n)
	for _, i := range set {
		b.Set(i)
	}
	return b
}

func mb(b *bitset.BitSet) []byte {
	x, err := b.MarshalBinary()
	if err != nil {
		panic(err)
	}
	return x
}

func sha(b []byte) []byte {
	h := sha256.Sum256(b)
	return h[:]
}

// srh is the signed revocation hash: the signature of the CA on period, the vector after the update and the delta.
func (w *World) srh(ca string, p int, after, delta *bitset.BitSet) string {
	return w.rsaSig(ca, string(sha([]byte(p2(p)+string(sha(mb(after)))+string(sha(mb(delta)))))))
}

// rev returns the revocation object of a CA for period p.
func (w *World) rev(ca string, p int, after, delta *bitset.BitSet) definition.Gossip_object {
	return w.revWithSRH(ca, p, delta, w.srh(ca, p, after, delta))
}

func (w *World) revWithSRH(ca string, p int, delta *bitset.BitSet, srh string) definition.Gossip_object {
	b, _ := json.Marshal(definition.Revocation{Period: p2(p), Delta_CRV: gz(mb(delta)), SRH: srh})
	pay := [3]string{ca, "CRV", string(b)}
	return definition.Gossip_object{Application: "CTng", Type: definition.REV_INIT, Period: p2(p), Signer: ca, Timestamp: "2023-01-01T00:00:00Z",
		Signature: [2]string{w.rsaSig(ca, pay[0]+pay[1]+pay[2]), ""}, Crypto_Scheme: "RSA", Payload: pay}
}

// acc returns the accusation of a monitor.
func (w *World) acc(mon, accused string, p int) definition.Gossip_object {
	return definition.Gossip_object{Application: "CTng", Type: definition.ACC_INIT, Period: p2(p), Signer: mon, Timestamp: "2023-01-01T00:00:00Z",
		Signature: [2]string{w.rsaSig(mon, accused), ""}, Crypto_Scheme: "RSA", Payload: [3]string{accused, "", ""}}
}

var fragOf = map[string]string{definition.STH_INIT: definition.STH_FRAG, definition.REV_INIT: definition.REV_FRAG, definition.ACC_INIT: definition.ACC_FRAG}
var fullOf = map[string]string{definition.STH_INIT: definition.STH_FULL, definition.REV_INIT: definition.REV_FULL, definition.ACC_INIT: definition.ACC_FULL}

// frag returns the fragment of a gossiper on a STH, REV or ACC object.
func (w *World) frag(g string, o definition.Gossip_object) definition.Gossip_object {
	f := o
	f.Type = fragOf[o.Type]
	f.Signer = g
	f.Crypto_Scheme = "bls"
	f.Signature = [2]string{fragSigString(w.bls[g].Sign(msgOf(o)), g), ""}
	return f
}

// full returns the threshold signed object of the signers, for period p.
func (w *World) full(signers []string, o definition.Gossip_object, p int) definition.Gossip_object {
	return definition.Gossip_object{Application: "CTng", Type: fullOf[o.Type], Period: p2(p), Signers: signers, Timestamp: "2023-01-01T00:00:00Z",
		Signature: [2]string{thresholdSigString(w.aggregate(signers, msgOf(o)), signers), ""}, Crypto_Scheme: "bls", Payload: o.Payload}
}

// con returns the conflict PoM made of two INIT objects.
func (w *World) con(a, b definition.Gossip_object, p int) definition.Gossip_object {
	return definition.Gossip_object{Application: "CTng", Type: definition.CON_INIT, Period: p2(p), Timestamp: "2023-01-01T00:00:00Z",
		Signature: [2]string{a.Signature[0], b.Signature[0]}, Payload: [3]string{a.Payload[0], msgOf(a), msgOf(b)}}
}

// signAnew puts proper signatures on an object as it is, whatever it says.
func (w *World) signAnew(o definition.Gossip_object, k int) definition.Gossip_object {
	rsaBy := func(id string) string {
		if _, ok := w.rsa[id]; ok {
			return id
		}
		return w.M[0]
	}
	switch o.Type {
	case definition.CON_INIT:
		by := rsaBy(o.Payload[0])
		o.Signature = [2]string{w.rsaSig(by, o.Payload[1]), w.rsaSig(by, o.Payload[2])}
	case definition.STH_INIT, definition.REV_INIT, definition.ACC_INIT:
		o.Signer = rsaBy(o.Signer)
		o.Signature[0] = w.rsaSig(o.Signer, msgOf(o))
	case definition.STH_FRAG, definition.REV_FRAG, definition.ACC_FRAG:
		o.Signer = w.G[k%len(w.G)]
		o.Signature[0] = fragSigString(w.bls[o.Signer].Sign(msgOf(o)), o.Signer)
	case definition.STH_FULL, definition.REV_FULL, definition.ACC_FULL:
		o.Signature[0] = thresholdSigString(w.aggregate(w.G[:w.T], msgOf(o)), w.G[:w.T])
	}
	return o
}

// root draws a root hash.
func drawRoot(rt *rapid.T, label string) string {
	i := rapid.IntRange(0, 1<<20).Draw(rt, label)
	return hex.EncodeToString(sha([]byte(strconv.Itoa(i))))
}

func short(o definition.Gossip_object) string {
	return fmt.Sprintf("%s(%s,p%s,by %s,%s)", definition.TypeString(o.Type), o.Payload[0], o.Period, o.Signer, hex.EncodeToString(sha([]byte(msgOf(o)))[:3]))
}

func js(v any) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return b
}

// ---- independent verification (the oracle) ----

func parseSig(s string, key string) (map[string]json.RawMessage, bool) {
	m := map[string]json.RawMessage{}
	if json.Unmarshal([]byte(s), &m) != nil {
		return nil, false
	}
	return m, true
}

// rsaValid tells whether sigString is a signature of id on msg.
func (w *World) rsaValid(id, msg, sigString string) bool {
	key, ok := w.rsa[id]
	if !ok {
		return false
	}
	m := map[string]string{}
	if json.Unmarshal([]byte(sigString), &m) != nil || m["id"] != id {
		return false
	}
	raw, err := hex.DecodeString(m["sig"])
	if err != nil {
		return false
	}
	h := sha256.Sum256([]byte(msg))
	return rsa.VerifyPKCS1v15(&key.PublicKey, stdcrypto.SHA256, h[:], raw) == nil
}

// fragValid tells whether sigString is the BLS signature of gossiper g on msg.
func (w *World) fragValid(g, msg, sigString string) bool {
	key, ok := w.bls[g]
	if !ok {
		return false
	}
	m := map[string]string{}
	if json.Unmarshal([]byte(sigString), &m) != nil || m["id"] != g {
		return false
	}
	s := new(bls.Sign)
	if s.DeserializeHexStr(m["sign"]) != nil {
		return false
	}
	return s.Verify(key.GetPublicKey(), msg)
}

// fullValid tells whether sigString is an aggregate of at least T distinct known gossipers on msg.
func (w *World) fullValid(msg, sigString string) (bool, []string) {
	t := struct {
		Sign string   `json:"sign"`
		IDs  []string `json:"ids"`
	}{}
	if json.Unmarshal([]byte(sigString), &t) != nil {
		return false, nil
	}
	seen := map[string]bool{}
	sum := []bls.PublicKey{}
	for _, id := range t.IDs {
		key, ok := w.bls[id]
		if !ok || seen[id] {
			return false, nil
		}
		seen[id] = true
		sum = append(sum, *key.GetPublicKey())
	}
	if len(seen) < w.T {
		return false, nil
	}
	s := new(bls.Sign)
	if s.DeserializeHexStr(t.Sign) != nil {
		return false, nil
	}
	return s.FastAggregateVerify(sum, []byte(msg)), t.IDs
}

// ---- authenticity of gossip objects, stated independently ----

// kindOf tells what a signed statement about entity says: "STH", "REV" (with its period) or "ACC".
func kindOf(entity, msg string) (string, int, bool) {
	if len(msg) < len(entity) || msg[:len(entity)] != entity {
		return "", 0, false
	}
	body := msg[len(entity):]
	if body == "" {
		return "ACC", 0, true
	}
	if len(body) >= 3 && body[:3] == "CRV" {
		var r definition.Revocation
		if json.Unmarshal([]byte(body[3:]), &r) != nil {
			return "", 0, false
		}
		p, err := strconv.Atoi(r.Period)
		return "REV", p, err == nil
	}
	raw, err := hex.DecodeString(body)
	if err != nil {
		return "", 0, false
	}
	var s definition.STH
	if json.Unmarshal(raw, &s) != nil {
		return "", 0, false
	}
	p, err := strconv.Atoi(s.Period)
	return "STH", p, err == nil
}

var kindOfType = map[string]string{
	definition.STH_INIT: "STH", definition.STH_FRAG: "STH", definition.STH_FULL: "STH",
	definition.REV_INIT: "REV", definition.REV_FRAG: "REV", definition.REV_FULL: "REV",
	definition.ACC_INIT: "ACC", definition.ACC_FRAG: "ACC", definition.ACC_FULL: "ACC",
}

// authentic tells whether an object really is what it claims to be, with the reason when it is not.
func (w *World) authentic(o definition.Gossip_object) (bool, string) {
	_, known := w.rsa[o.Payload[0]]
	switch o.Type {
	case definition.STH_INIT, definition.REV_INIT, definition.ACC_INIT, definition.STH_FRAG, definition.REV_FRAG, definition.ACC_FRAG,
		definition.STH_FULL, definition.REV_FULL, definition.ACC_FULL:
		if !known {
			return false, "is about an unknown entity"
		}
		kind, p, ok := kindOf(o.Payload[0], msgOf(o))
		if !ok || kind != kindOfType[o.Type] {
			return false, "is not a statement of its type"
		}
		switch o.Type {
		case definition.STH_INIT:
			if o.Period != fmt.Sprintf("%02d", (p+1)%60) {
				return false, "was signed for another period"
			}
		case definition.REV_INIT:
			if o.Period != fmt.Sprintf("%02d", p) {
				return false, "was signed for another period"
			}
		}
		switch o.Type {
		case definition.STH_INIT, definition.REV_INIT:
			if o.Signer != o.Payload[0] {
				return false, "is not signed by the entity it is about"
			}
			if !w.rsaValid(o.Signer, msgOf(o), o.Signature[0]) {
				return false, "was not signed by the named signer"
			}
		case definition.ACC_INIT:
			if !w.rsaValid(o.Signer, msgOf(o), o.Signature[0]) {
				return false, "was not signed by the named signer"
			}
		case definition.STH_FRAG, definition.REV_FRAG, definition.ACC_FRAG:
			if !w.fragValid(o.Signer, msgOf(o), o.Signature[0]) {
				return false, "was not signed by the named gossiper"
			}
		default:
			if ok, _ := w.fullValid(msgOf(o), o.Signature[0]); !ok {
				return false, "was not signed by a threshold of gossipers"
			}
		}
		return true, ""
	case definition.CON_INIT:
		k1, p1, ok1 := kindOf(o.Payload[0], o.Payload[1])
		k2, p2, ok2 := kindOf(o.Payload[0], o.Payload[2])
		switch {
		case !ok1 || !ok2 || k1 == "ACC" || k2 == "ACC":
			return false, "does not hold two statements of the accused"
		case k1 != k2:
			return false, "holds statements of different kinds"
		case p1 != p2:
			return false, "holds statements for different periods"
		case o.Payload[1] == o.Payload[2]:
			return false, "holds the same statement twice"
		case !w.rsaValid(o.Payload[0], o.Payload[1], o.Signature[0]) || !w.rsaValid(o.Payload[0], o.Payload[2], o.Signature[1]):
			return false, "holds a statement the accused did not sign"
		}
		return true, ""
	}
	return false, "has an unknown type"
}
