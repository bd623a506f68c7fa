package ctngverif

// P22: a certificate pool is an ordered set of certificates, found by their key.

import (
	"bytes"
	"crypto/x509"
	"encoding/pem"
	"fmt"
	"testing"

	"github.com/jik18001/CTngV2/CA"
	"github.com/jik18001/CTngV2/crypto"
	"github.com/jik18001/CTngV2/util"
	"pgregory.net/rapid"
)

var poolCerts []*x509.Certificate // certificates of 6 subjects and 2 issuers, parsed

func certSupply() []*x509.Certificate {
	if poolCerts == nil {
		w := newWorld(0, 1, 1, 2, 1)
		for i := 0; i < 24; i++ {
			poolCerts = append(poolCerts, w.leaf(w.C[i%2], fmt.Sprintf("Testing Dummy %d", i/2%6), CA.CTngExtension{SequenceNumber: CA.SequenceNumber{RID: i}}))
		}
	}
	return poolCerts
}

type pentry struct {
	key  string // what makes it the same certificate
	skid string
	cert *x509.Certificate
}

func TestP22Pool(t *testing.T) {
	supply := certSupply()
	check(t, 9000, func(rt *rapid.T, c *Case) {
		pool := crypto.NewCertPool()
		model := []pentry{}
		// one of the supply as parsed, as a precertificate or with another key id
		draw := func() (*x509.Certificate, string) {
			i := rapid.IntRange(0, len(supply)-1).Draw(rt, "certificate")
			x := *supply[i]
			switch form := rapid.IntRange(0, 7).Draw(rt, "form"); form {
			case 7: // a key without a name
				return &x509.Certificate{SubjectKeyId: []byte{byte(rapid.IntRange(0, 3).Draw(rt, "key"))}}, "anonymous"
			case 6: // by another CA for the same key
				y := util.ParseTBSCertificate(&x)
				y.Issuer.CommonName = "other"
				return y, fmt.Sprint(i, "o")
			case 0, 1:
				return &x, fmt.Sprint(i)
			case 2, 3:
				return util.ParseTBSCertificate(&x), fmt.Sprint(i, "t")
			case 4:
				// neither content nor key
				return &x509.Certificate{RawSubject: x.RawSubject, Subject: x.Subject, SerialNumber: x.SerialNumber}, fmt.Sprint(i, "n")
			default:
				return &x509.Certificate{RawSubject: x.RawSubject, Subject: x.Subject, SubjectKeyId: []byte{byte(rapid.IntRange(0, 3).Draw(rt, "key"))}}, fmt.Sprint(i, "k")
			}
		}
		key := func(x *x509.Certificate) string {
			return fmt.Sprintf("%x|%x|%x|%s", x.RawSubject, x.Raw, x.SubjectKeyId, x.Issuer)
		}
		add := func(x *x509.Certificate) {
			for _, e := range model {
				if e.key == key(x) {
					return
				}
			}
			model = append(model, pentry{key(x), string(x.SubjectKeyId), x})
		}
		story := ""
		for i, n := 0, rapid.IntRange(1, 30).Draw(rt, "operations"); i < n && !c.Failed(); i++ {
			switch op := rapid.IntRange(0, 9).Draw(rt, "operation"); {
			case op < 6:
				x, s := draw()
				story += " add " + s
				pool.AddCert(x)
				add(x)
			case op == 6:
				var b bytes.Buffer
				any := false
				story += " pem["
				for k, m := 0, rapid.IntRange(0, 4).Draw(rt, "blocks"); k < m; k++ {
					x := supply[rapid.IntRange(0, len(supply)-1).Draw(rt, "certificate")]
					switch kind := rapid.IntRange(0, 5).Draw(rt, "block"); kind {
					case 0:
						b.WriteString("garbage\n")
					case 1:
						pem.Encode(&b, &pem.Block{Type: "RSA PRIVATE KEY", Bytes: x.Raw})
					case 2:
						pem.Encode(&b, &pem.Block{Type: "CERTIFICATE", Bytes: x.Raw[:len(x.Raw)-1]})
					case 3:
						pem.Encode(&b, &pem.Block{Type: "CERTIFICATE", Bytes: x.Raw, Headers: map[string]string{"a": "b"}})
					default:
						pem.Encode(&b, &pem.Block{Type: "CERTIFICATE", Bytes: x.Raw})
						any = true
						add(x)
						story += " " + fmt.Sprint(x.Subject.CommonName)
					}
				}
				story += "]"
				if got := pool.AppendCertsFromPEM(b.Bytes()); got != any {
					c.Errorf("after%s: reading PEM tells %v", story, got)
				}
			case op == 7 && len(model) > 0:
				// replace a certificate by a changed one of the same subject and key
				e := model[rapid.IntRange(0, len(model)-1).Draw(rt, "which")]
				story += fmt.Sprintf(" update %x", e.skid)
				var y *x509.Certificate
				for k := range model {
					if model[k].skid == e.skid && e.skid != "" {
						z := *model[k].cert
						y = &z
						y.NotAfter = y.NotAfter.AddDate(0, 0, i+1)
						model[k].cert, model[k].key = y, key(y)
						break
					}
				}
				if y == nil {
					y = &x509.Certificate{RawSubject: []byte("none")}
				}
				pool.UpdateCertBySubjectKeyID(e.skid, y)
			case op == 8:
				// a key nobody has
				story += " update unknown"
				pool.UpdateCertBySubjectKeyID("unknown", supply[0])
				if pool.GetCertBySubjectKeyID("unknown") != nil {
					c.Errorf("after%s: an unknown key is found", story)
				}
			}
			// the pool is the model
			certs, list, subjects := pool.GetCerts(), pool.GetCertList(), pool.Subjects()
			if pool.GetLength() != len(model) || len(certs) != len(model) || len(list) != len(model) || len(subjects) != len(model) {
				c.Errorf("after%s: the pool holds %d, %d, %d, %d certificates, has to hold %d", story, pool.GetLength(), len(certs), len(list), len(subjects), len(model))
				break
			}
			found := map[string]bool{}
			for k, e := range model {
				if key(&certs[k]) != e.key || key(list[k]) != e.key || !certs[k].NotAfter.Equal(e.cert.NotAfter) || !list[k].NotAfter.Equal(e.cert.NotAfter) || !bytes.Equal(subjects[k], e.cert.RawSubject) {
					c.Errorf("after%s: certificate %d of the pool is another", story, k)
				}
				if e.skid != "" && !found[e.skid] {
					found[e.skid] = true
					if got := pool.GetCertBySubjectKeyID(e.skid); got == nil || key(got) != e.key || !got.NotAfter.Equal(e.cert.NotAfter) {
						c.Errorf("after%s: the first certificate of key %x is not found by it", story, e.skid)
					}
				}
			}
		}
		if pool.GetCertBySubjectKeyID("") != nil {
			c.Errorf("after%s: a certificate is found by the empty key", story)
		}
		c.Describe("%s", story)
		if len(model) > 1 {
			c.NonTrivial(story)
		}
	})
}
