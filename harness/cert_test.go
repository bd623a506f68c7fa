package ctngverif

import (
	"crypto/rand"
	"crypto/rsa"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/asn1"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"time"

	"github.com/jik18001/CTngV2/CA"
	"github.com/jik18001/CTngV2/crypto"
	"github.com/jik18001/CTngV2/definition"
	"pgregory.net/rapid"
)

// Certificates, Merkle trees and proofs, made and checked independently.

var notBefore = time.Date(2023, 1, 1, 0, 0, 0, 0, time.UTC)

// keyID is the subject key id of the certificates made here.
func keyID(ca, subject string) []byte { return sha([]byte(ca + " " + subject)) }

// leaf makes the certificate of subject, issued by ca, with the given CTng extension.
func (w *World) leaf(ca, subject string, ext CA.CTngExtension) *x509.Certificate {
	return leafBy(w.rsa[ca], ca, subject, keyID(ca, subject), ext)
}

func leafBy(key *rsa.PrivateKey, ca, subject string, skid []byte, ext CA.CTngExtension, shape ...func(*x509.Certificate)) *x509.Certificate {
	tmpl := &x509.Certificate{SerialNumber: big.NewInt(7), Subject: pkix.Name{CommonName: subject}, NotBefore: notBefore, NotAfter: notBefore.AddDate(9, 0, 0), SubjectKeyId: skid, DNSNames: []string{"www.example.com"},
		ExtraExtensions: []pkix.Extension{{Id: CA.OIDCTngExtension, Value: CA.EncodeCTngExtension(ext)}}}
	for _, f := range shape {
		f(tmpl)
	}
	parent := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: ca}, NotBefore: notBefore, NotAfter: notBefore.AddDate(9, 0, 0), SubjectKeyId: sha([]byte(ca)), IsCA: true, BasicConstraintsValid: true}
	der, err := x509.CreateCertificate(rand.Reader, tmpl, parent, &rsaPool[0].PublicKey, key)
	if err != nil {
		panic(err)
	}
	cert, err := x509.ParseCertificate(der)
	if err != nil {
		panic(err)
	}
	return cert
}

func rawSubject(subject string) []byte {
	n := pkix.Name{CommonName: subject}
	b, err := asn1.Marshal(n.ToRDNSequence())
	if err != nil {
		panic(err)
	}
	return b
}

// mtree is the Merkle tree over subjects, built here: leaf hashes are hashed in pairs, an odd last one with itself.
type mtree struct {
	levels [][][]byte
}

func merkle(subjects []string) *mtree {
	if len(subjects) == 0 {
		return &mtree{[][][]byte{{sha(nil)}}}
	}
	level := [][]byte{}
	for _, s := range subjects {
		level = append(level, sha(rawSubject(s)))
	}
	t := &mtree{[][][]byte{level}}
	for len(level) > 1 {
		if len(level)%2 == 1 {
			level = append(level, level[len(level)-1])
			t.levels[len(t.levels)-1] = level
		}
		up := [][]byte{}
		for i := 0; i < len(level); i += 2 {
			up = append(up, sha(append(append([]byte{}, level[i]...), level[i+1]...)))
		}
		level = up
		t.levels = append(t.levels, level)
	}
	return t
}

func (t *mtree) root() []byte { return t.levels[len(t.levels)-1][0] }

func (w *World) logTree(subjects []string) (*mtree, []crypto.POI_for_transmission) {
	certs := []x509.Certificate{}
	for _, s := range subjects {
		certs = append(certs, x509.Certificate{RawSubject: rawSubject(s), Subject: pkix.Name{CommonName: s}, SubjectKeyId: keyID(w.C[0], s)})
	}
	tree, err := crypto.GenerateMerkleTree(crypto.GenerateDataBlocks(certs))
	if err != nil {
		panic(err)
	}
	pois := []crypto.POI_for_transmission{}
	for i, p := range crypto.GeneratePOI(tree) {
		pois = append(pois, crypto.POI_for_transmission{Poi: p, SubjectKeyId: keyID(w.C[0], subjects[i]), Issuer: w.C[0]})
	}
	return merkle(subjects), pois
}

// proofLeads follows a proof: bit i of path tells on which side the sibling is.
func proofLeads(subject string, root []byte, siblings [][]byte, path uint32) bool {
	h := sha(rawSubject(subject))
	for _, s := range siblings {
		if path&1 == 1 {
			h = sha(append(append([]byte{}, h...), s...))
		} else {
			h = sha(append(append([]byte{}, s...), h...))
		}
		path >>= 1
	}
	return string(h) == string(root)
}

// sthOf decodes the signed tree head in an object.
func sthOf(o definition.Gossip_object) (s definition.STH, err error) {
	b, err := hex.DecodeString(o.Payload[1])
	if err == nil {
		err = json.Unmarshal(b, &s)
	}
	return
}

func bare(ca, subject string) x509.Certificate {
	return x509.Certificate{RawSubject: rawSubject(subject), Subject: pkix.Name{CommonName: subject}, Issuer: pkix.Name{CommonName: ca}, SubjectKeyId: keyID(ca, subject)}
}

type precert struct {
	ca, subject string
	raw         []byte
	cert        *x509.Certificate
}

func (w *World) precert(ca, subject string, rid int) *precert {
	x := w.leaf(ca, subject, CA.CTngExtension{SequenceNumber: CA.SequenceNumber{RID: rid}})
	return &precert{ca, subject, x.Raw, x}
}

// drawShape draws what else a certificate may say.
func drawShape(rt *rapid.T) func(*x509.Certificate) {
	k := rapid.IntRange(0, 9).Draw(rt, "shape")
	return func(x *x509.Certificate) {
		switch k {
		case 4: // of another CA
			x.IsCA, x.BasicConstraintsValid, x.KeyUsage = true, true, x509.KeyUsageCertSign
		case 5: // expired
			x.NotBefore, x.NotAfter = notBefore.AddDate(-9, 0, 0), notBefore.AddDate(-8, 0, 0)
		case 6: // not yet valid
			x.NotBefore, x.NotAfter = notBefore.AddDate(90, 0, 0), notBefore.AddDate(91, 0, 0)
		case 7: // for no host
			x.DNSNames = nil
		case 8: // for many hosts
			x.DNSNames = nil
			for i := 0; i < 40; i++ {
				x.DNSNames = append(x.DNSNames, fmt.Sprintf("*.host%d.example.com", i))
			}
		case 9: // no or a huge number
			x.SerialNumber = new(big.Int).Lsh(big.NewInt(1), 150)
		}
	}
}
