package ctngverif

import (
	"encoding/json"
	"fmt"
	"io"
	"sync"
	"time"

	"github.com/jik18001/CTngV2/definition"
)

// Queries to a logger and a CA, at generated times.

type query struct {
	at   int // ms after the start
	whom int // 0 logger, 1 CA
}

func (q query) String() string {
	return fmt.Sprintf("%d.%03ds %s", q.at/1000, q.at%1000, []string{"logger", "CA"}[q.whom])
}

type reply struct {
	query
	sent, got time.Duration
	body      []byte
	err       error
}

// ask sends the queries at their times and waits for all of the answers.
func ask(nw *Net, w *World, begin time.Time, qs []query, wg *sync.WaitGroup, out []*reply) {
	for i, q := range qs {
		i, q := i, q
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(time.Until(begin.Add(time.Duration(q.at) * time.Millisecond)))
			r := &reply{query: q, sent: time.Since(begin)}
			host, path := w.L[0], "/ctng/v2/get-sth/"
			if q.whom == 1 {
				host, path = w.C[0], "/ctng/v2/get-revocation/"
			}
			resp, err := nw.get(host, path, nil)
			r.err = err
			if err == nil {
				r.body, _ = io.ReadAll(resp.Body)
				if resp.StatusCode != 200 {
					r.err = fmt.Errorf("status %d", resp.StatusCode)
				}
			}
			r.got = time.Since(begin)
			out[i] = r
		}()
	}
}

// statement decodes an answer and checks that it is the genuine statement for that minute.
func (w *World) statement(c *Case, r *reply, minute int) (o definition.Gossip_object, ok bool) {
	if r.err != nil {
		c.Errorf("query %v: no answer: %v", r.query, r.err)
		return o, false
	}
	if err := json.Unmarshal(r.body, &o); err != nil {
		c.Errorf("query %v: the answer is no object: %v %q", r.query, err, clip(string(r.body), 200))
		return o, false
	}
	id, typ := w.L[0], definition.STH_INIT
	if r.whom == 1 {
		id, typ = w.C[0], definition.REV_INIT
	}
	if good, why := w.authentic(o); !good || o.Type != typ || o.Signer != id || o.Period != p2(minute) || o.Application != "CTng" {
		c.Errorf("query %v, minute %d: the answer %s: %s", r.query, minute%60, why, clip(string(r.body), 300))
		return o, false
	}
	return o, true
}
