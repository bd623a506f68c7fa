package ctngverif

// Helpers for the client: contexts built by the code of the repository from
// files, and updates.

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"strings"
	"sync/atomic"

	"github.com/bits-and-blooms/bitset"
	"github.com/jik18001/CTngV2/client"
	"github.com/jik18001/CTngV2/crypto"
	"github.com/jik18001/CTngV2/definition"
	"github.com/jik18001/CTngV2/monitor"
)

var clientSeq atomic.Int64

// newClient starts a client. status "NEW" starts an empty one, anything else one that loads what is in dir.
func (w *World) newClient(dir, status string) *client.ClientContext {
	os.MkdirAll(dir, 0755)
	cfgPath, cryptoPath := dir+"/client.json", dir+"/client_crypto.json"
	cfg := client.ClientConfig{Monitor_URLs: w.M, MMD: 60, MRD: 60, STH_Storage_filepath: dir + "/STH.json", CRV_Storage_filepath: dir + "/CRV.json", PoM_Store_filepath: dir + "/PoM.json"}
	if err := os.WriteFile(cfgPath, js(cfg), 0644); err != nil {
		panic(err)
	}
	if err := os.WriteFile(cryptoPath, w.clientCrypto(), 0644); err != nil {
		panic(err)
	}
	ctx := &client.ClientContext{Config: &client.ClientConfig{}, Config_filepath: cfgPath, Crypto_filepath: cryptoPath, Status: status}
	ctx.InitializeClientContext()
	return ctx
}

func (w *World) clientCrypto() []byte {
	return js(crypto.NewStoredCryptoConfig(w.cfg(w.G[0])))
}

func clientDir(base string) string {
	d := fmt.Sprintf("%s/client_%d", base, clientSeq.Add(1))
	os.MkdirAll(d, 0755)
	return d
}

func saveClient(ctx *client.ClientContext) {
	client.SaveSTHDatabase(ctx)
	client.SaveCRVDatabase(ctx)
	client.SavePomDatabase(ctx)
}

func updateFrom(mon string, p int, objs ...definition.Gossip_object) monitor.ClientUpdate {
	u := monitor.ClientUpdate{MonitorID: mon, Period: p2(p), STHs: []definition.Gossip_object{}, REVs: []definition.Gossip_object{}, POM_CONs: []definition.Gossip_object{}, POM_ACCs: []definition.Gossip_object{}}
	for _, o := range objs {
		switch o.Type {
		case definition.STH_FULL, definition.STH_INIT, definition.STH_FRAG:
			u.STHs = append(u.STHs, o)
		case definition.REV_FULL, definition.REV_INIT, definition.REV_FRAG:
			u.REVs = append(u.REVs, o)
		case definition.CON_INIT:
			u.POM_CONs = append(u.POM_CONs, o)
		case definition.ACC_FULL, definition.ACC_INIT, definition.ACC_FRAG:
			u.POM_ACCs = append(u.POM_ACCs, o)
		}
	}
	return u
}

// updateOf reads the update a monitor keeps for a period.
func updateOf(ctx *monitor.MonitorContext, n int) (*monitor.ClientUpdate, []byte, error) {
	b, err := os.ReadFile(fmt.Sprintf("%s/Period_%d/ClientUpdate.json", ctx.StorageDirectory, n))
	if err != nil {
		return nil, nil, err
	}
	u := &monitor.ClientUpdate{}
	return u, b, json.Unmarshal(b, u)
}

// crvOf reads the revocation vectors a monitor keeps on disk.
func crvOf(ctx *monitor.MonitorContext) (map[string]*bitset.BitSet, error) {
	b, err := os.ReadFile(ctx.StorageFile_CRV)
	if err != nil {
		return nil, err
	}
	raw := map[string][]byte{}
	if err = json.Unmarshal(b, &raw); err != nil {
		return nil, err
	}
	out := map[string]*bitset.BitSet{}
	for k, v := range raw {
		s := new(bitset.BitSet)
		if err = s.UnmarshalBinary(gunz(v)); err != nil {
			return nil, err
		}
		out[k] = s
	}
	return out, nil
}

func members(b *bitset.BitSet) []uint {
	out := []uint{}
	if b == nil {
		return out
	}
	for i, ok := b.NextSet(0); ok; i, ok = b.NextSet(i + 1) {
		out = append(out, i)
	}
	return out
}

func deltaOf(o definition.Gossip_object) *bitset.BitSet {
	var r definition.Revocation
	if json.Unmarshal([]byte(o.Payload[2]), &r) != nil {
		return nil
	}
	s := new(bitset.BitSet)
	if s.UnmarshalBinary(gunz(r.Delta_CRV)) != nil {
		return nil
	}
	return s
}

func some(b *bitset.BitSet) string {
	m := members(b)
	if len(m) > 12 {
		return fmt.Sprintf("%v... (%d)", m[:12], len(m))
	}
	return fmt.Sprint(m)
}

func sameUpdate(a, b monitor.ClientUpdate) bool {
	norm := func(u monitor.ClientUpdate) string {
		s := []string{u.MonitorID, u.Period}
		for _, l := range [][]definition.Gossip_object{u.STHs, u.REVs, u.POM_ACCs, u.POM_CONs} {
			part := []string{}
			for _, o := range l {
				part = append(part, string(js(o)))
			}
			sort.Strings(part)
			s = append(s, strings.Join(part, ","))
		}
		return strings.Join(s, "|")
	}
	return norm(a) == norm(b)
}

// stmt is a statement of entity e for period p in one of several versions; a
// CA revokes 3*version+p in it.
func (w *World) stmt(e, p, version int) definition.Gossip_object {
	id := w.entities()[e]
	if e < len(w.L) {
		return w.sth(id, p, hex.EncodeToString(sha([]byte{byte(p), byte(version)})), p+version)
	}
	d := bits(64, uint(3*version+((p%60)+60)%60)%64, uint(version))
	return w.rev(id, p, d, d)
}

type revocation struct {
	at, ca int
	id     int
}
