package ctngverif

// P24: the log a gossiper keeps on disk says what it held in each period.

import (
	"encoding/json"
	"fmt"
	"os"
	"testing"
	"time"

	"pgregory.net/rapid"
)

func TestP24Log(t *testing.T) {
	slots(t, 1, 0, 0, 0)
	check(t, 450, func(rt *rapid.T, c *Case) {
		gw := gweights{events: 24, forge: 12, horizon: rapid.SampledFrom([]int{38, 98, 190, 700, 1500}).Draw(rt, "horizon"), stmt: 8, frag: 8, acc: 2, con: 1, equiv: 10, stray: 10, dup: 20}
		if percent(rt, "accusations", 30) {
			gw.stmt, gw.acc, gw.con = 0, 6, 0
		}
		g := drawGossiperCase(rt, gw)
		m := g.model()
		c.Describe("%v", g)
		dir := scratch()
		g.run(t, c, dir, func(r *gresult) {
			// one more period ends
			time.Sleep(70 * time.Second)
			b, err := os.ReadFile(r.ctx.StorageDirectory + r.ctx.StorageFile)
			log := map[string]map[string]any{}
			if err == nil {
				if err = json.Unmarshal(b, &log); err != nil {
					c.Errorf("the log can not be read: %v", err)
					return
				}
			}
			nonempty := 0
			for i, want := range m.count {
				p := fmt.Sprint((g.minute + i) % 60)
				sum := 0
				for _, v := range want {
					sum += v
				}
				entry, ok := log[p]
				if sum == 0 {
					continue
				}
				nonempty++
				if !ok {
					c.Errorf("the log has no entry for period %s, in which %v was held: %s", p, want, clip(string(b), 300))
					continue
				}
				for k, f := range map[string]string{"STH_INIT": "num_sth_init", "REV_INIT": "num_rev_init", "ACC_INIT": "num_acc_init", "CON_INIT": "num_con_init", "STH_FRAG": "num_sth_frag",
					"REV_FRAG": "num_rev_frag", "ACC_FRAG": "num_acc_frag", "STH_FULL": "num_sth_full", "REV_FULL": "num_rev_full", "ACC_FULL": "num_acc_full", "BLACKLIST": "num_blacklist_perm"} {
					got, _ := entry[f].(float64)
					if int(got) != want[k] {
						c.Errorf("the log says %v %s for period %s, the gossiper held %d", entry[f], k, p, want[k])
					}
				}
			}
			if nonempty > 0 {
				c.NonTrivial(g.String())
			}
			class(fmt.Sprintf("periods logged: %d", nonempty))
		})
	})
}
