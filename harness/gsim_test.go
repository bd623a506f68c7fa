package ctngverif

// One gossiper driven by a generated history of deliveries, and the reference
// model of what it has to send, to whom and when, and whom it convicts.

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/jik18001/CTngV2/definition"
	"github.com/jik18001/CTngV2/gossiper"
	"pgregory.net/rapid"
)

type gev struct {
	at   int // milliseconds after the start of the first period
	obj  definition.Gossip_object
	desc string
	bad  bool   // forged: has no effect
	raw  []byte // posted instead of the object, to path
	path string
}

type gweights struct {
	events   int // at most
	horizon  int // seconds
	stmt     int // weights of the event kinds
	frag     int
	acc      int
	con      int
	equiv    int // in percent: a statement is another one than the usual
	stray    int // in percent: labelled for another period
	dup      int // in percent: an earlier delivery again
	forge    int // in percent: the object is forged
	fullfrag bool
}

type gcase struct {
	w      *World
	wait   int
	minute int
	evs    []gev
	down   map[string]bool   // peers and monitor that cannot be reached
	outage map[string][2]int // peers and monitor that cannot be reached for some time (ms)
}

func (g *gcase) String() string {
	s := []string{}
	for _, e := range g.evs {
		s = append(s, fmt.Sprintf("%.1fs %s", float64(e.at)/1000, e.desc))
	}
	down := ""
	if len(g.down) > 0 {
		down = fmt.Sprintf(", unreachable %v", g.down)
	}
	if len(g.outage) > 0 {
		down += fmt.Sprintf(", unreachable for {ms} %v", g.outage)
	}
	return fmt.Sprintf("%d gossipers, threshold %d, wait %ds, minute %d%s: %s", len(g.w.G), g.w.T, g.wait, g.minute, down, strings.Join(s, "; "))
}

func (w *World) content(e, p, content int) definition.Gossip_object {
	return w.make2(e, p, content)
}

func (w *World) make2(e, p, content int) definition.Gossip_object {
	id := w.entities()[e]
	a, b := content, content
	switch content { // contents that differ in one part only
	case 3:
		a = 0
	case 4:
		b = 0
	}
	if e < len(w.L) {
		return w.sth(id, p, hex.EncodeToString(sha([]byte{byte(a)})), b)
	}
	return w.rev(id, p, bits(uint(20), uint(b)), bits(uint(20), uint(a)))
}

func pick(rt *rapid.T, label string, weights ...int) int {
	sum := 0
	for _, x := range weights {
		sum += x
	}
	v := rapid.IntRange(0, sum-1).Draw(rt, label)
	for i, x := range weights {
		if v < x {
			return i
		}
		v -= x
	}
	return 0
}

func percent(rt *rapid.T, label string, p int) bool {
	return rapid.IntRange(0, 99).Draw(rt, label) >= 100-p
}

func drawGossiperCase(rt *rapid.T, gw gweights) *gcase {
	w := drawWorld(rt, 2, 5, 2, 2)
	g := &gcase{w: w, wait: rapid.IntRange(1, 10).Draw(rt, "wait"), minute: rapid.OneOf(rapid.IntRange(0, 59), rapid.SampledFrom([]int{0, 57, 58, 59})).Draw(rt, "minute"), down: map[string]bool{}}
	if percent(rt, "faults", 30) {
		for _, id := range append(cp(w.G[1:]), w.M[0]) {
			if percent(rt, "down", 40) {
				g.down[id] = true
			}
		}
	}
	if percent(rt, "outages", 30) {
		g.outage = map[string][2]int{}
		for _, id := range append(cp(w.G[1:]), w.M[0]) {
			if percent(rt, "outage", 50) {
				from := rapid.IntRange(0, gw.horizon*10-1).Draw(rt, "from") * 100
				g.outage[id] = [2]int{from, from + rapid.IntRange(1, 30).Draw(rt, "seconds")*1000}
			}
		}
	}
	n := rapid.IntRange(1, gw.events).Draw(rt, "events")
	for i := 1; i <= n; i++ {
		at := rapid.IntRange(0, gw.horizon*10-1).Draw(rt, "at")*100 + i
		p := g.minute + at/60000
		if percent(rt, "stray", gw.stray) {
			p += rapid.SampledFrom([]int{-1, 1, 2}).Draw(rt, "label")
		}
		if len(g.evs) > 0 && percent(rt, "dup", gw.dup) {
			e := g.evs[rapid.IntRange(0, len(g.evs)-1).Draw(rt, "again")]
			e.at = at
			e.desc = "again " + strings.TrimPrefix(e.desc, "again ")
			if !e.bad && e.raw == nil && percent(rt, "reencode", 50) {
				e.obj = reencode(rt, e.obj)
				e.desc = "re-encoded " + e.desc
			}
			g.evs = append(g.evs, e)
			continue
		}
		e := rapid.IntRange(0, len(w.entities())-1).Draw(rt, "entity")
		content := 0
		if percent(rt, "equivocate", gw.equiv) {
			content = rapid.IntRange(1, 4).Draw(rt, "content")
		}
		o := w.make2(e, p, content)
		switch pick(rt, "kind", gw.stmt, gw.frag, gw.acc, gw.con) {
		case 1:
			if percent(rt, "accfrag", 30) {
				o = w.acc(w.M[0], w.entities()[e], p)
			}
			f := w.frag(w.G[rapid.IntRange(0, len(w.G)-1).Draw(rt, "fragger")], o)
			if f.Type == definition.REV_FRAG && !gw.fullfrag {
				f.Payload[1], f.Payload[2] = "", "" // as gossipers send it
			}
			o = f
		case 2:
			o = w.acc(w.M[rapid.IntRange(0, 1).Draw(rt, "monitor")%len(w.M)], w.entities()[e], p)
		case 3:
			o = w.con(o, w.make2(e, p, content+1), p)
		}
		if percent(rt, "forge", gw.forge) {
			f := w.forge(rt, o, e, p, content)
			g.evs = append(g.evs, gev{at: at, obj: f, desc: "forged " + short(f), bad: true})
			continue
		}
		g.evs = append(g.evs, gev{at: at, obj: o, desc: short(o)})
	}
	sort.SliceStable(g.evs, func(i, j int) bool { return g.evs[i].at < g.evs[j].at })
	return g
}

// reencode returns the same genuine object as it may come from somebody else:
// what it says and who signed it is the same, the bytes are not.
func reencode(rt *rapid.T, o definition.Gossip_object) definition.Gossip_object {
	again := func(sig string) string {
		var m map[string]string
		if json.Unmarshal([]byte(sig), &m) != nil {
			return sig
		}
		field := "sig"
		if _, ok := m[field]; !ok {
			field = "sign"
		}
		switch rapid.IntRange(0, 3).Draw(rt, "how") {
		case 0: // upper case
			return fmt.Sprintf(`{"%s":"%s","id":"%s"}`, field, strings.ToUpper(m[field]), m["id"])
		case 1: // space
			return " " + strings.Replace(sig, ":", " :\t", 1) + "\n"
		case 2: // another order
			return fmt.Sprintf(`{"id":"%s","%s":"%s"}`, m["id"], field, m[field])
		default: // more than needed
			return fmt.Sprintf(`{"%s":"%s","id":"%s","time":"%d"}`, field, m[field], m["id"], rapid.IntRange(0, 9).Draw(rt, "time"))
		}
	}
	n := 1
	if o.Type == definition.CON_INIT {
		n = 2
	}
	switch rapid.IntRange(0, 5).Draw(rt, "part") {
	case 0:
		o.Timestamp = "2024-02-02T00:00:00Z"
	case 1:
		o.Crypto_Scheme = rapid.SampledFrom([]string{"", "rsa", "bls"}).Draw(rt, "scheme")
	case 2:
		if n == 1 {
			o.Signature[1] = rapid.SampledFrom([]string{" ", o.Signature[0]}).Draw(rt, "second")
			break
		}
		fallthrough
	default:
		for i := 0; i < n; i++ {
			o.Signature[i] = again(o.Signature[i])
		}
	}
	return o
}

// forge returns an object like o that nobody signed.
func (w *World) forge(rt *rapid.T, o definition.Gossip_object, e, p, content int) definition.Gossip_object {
	id := w.entities()[e]
	switch o.Type {
	case definition.STH_INIT, definition.REV_INIT:
		switch rapid.IntRange(0, 4).Draw(rt, "forgery") {
		case 3, 4: // another content under another label of the same period
			f := w.make2(e, p, content+rapid.IntRange(0, 1).Draw(rt, "more"))
			f.Period = fmt.Sprintf(rapid.SampledFrom([]string{"0%s", "+%s", " %s", "%s ", "-%s", "%s.0", "00%s"}).Draw(rt, "label"), f.Period)
			if f.Period[0] == '0' && f.Period[1] == '0' && len(f.Period) == 3 && rapid.Bool().Draw(rt, "short") {
				f.Period = f.Period[2:] // one digit
			}
			return f
		case 0: // another content under the genuine signature
			f := w.make2(e, p, content+3)
			f.Signature = o.Signature
			return f
		case 1: // signed by somebody else in the name of the entity
			f := w.make2(e, p, content+3)
			f.Signature[0] = rsaSigString(rsaRaw(w.rsa[w.M[0]], msgOf(f)), id)
			return f
		default: // by another entity, about this one
			f := w.make2(e, p, content)
			other := w.entities()[(e+1)%len(w.entities())]
			f.Signer = other
			f.Signature[0] = w.rsaSig(other, msgOf(f))
			return f
		}
	case definition.ACC_INIT:
		o.Signer = w.M[0]
		o.Signature[0] = rsaSigString(rsaRaw(w.rsa[w.L[0]], msgOf(o)), w.M[0])
	case definition.CON_INIT:
		switch rapid.IntRange(0, 1).Draw(rt, "forgery") {
		case 0:
			o.Signature[1] = rsaSigString(rsaRaw(w.rsa[w.M[0]], o.Payload[2]), id)
		default:
			o = w.con(w.make2(e, p, content), w.make2(e, p+1, content), p)
		}
	default: // fragments
		o.Signature[0] = fragSigString(w.bls[o.Signer].Sign("another statement"), o.Signer)
	}
	return o
}

// ---- the model ----

type gsend struct {
	at    int // milliseconds
	dst   string
	class string // INIT, CON, FRAG, OWNFRAG, FULL
	key   string
}

type gmodel struct {
	g     *gcase
	sends []gsend
	black map[string]int // entity -> when it was convicted
	proof map[string]string
	init  map[string]definition.Gossip_object
	acc   map[string]bool
	pay   map[string]definition.Gossip_object
	frags map[string]map[string]bool
	full  map[string]bool
	timer []gev
	waits []int            // when something was sent after a wait
	stat  map[string]int   // what happened
	count []map[string]int // what was stored at each reset
}

func (m *gmodel) peers(at int, class, key string) {
	for _, p := range m.g.w.G[1:] {
		m.sends = append(m.sends, gsend{at, p, class, key})
	}
}

func (m *gmodel) monitor(at int, class, key string) {
	m.sends = append(m.sends, gsend{at, m.g.w.M[0], class, key})
}

func objKey(o definition.Gossip_object) string {
	return strings.Join([]string{definition.TypeString(o.Type), o.Payload[0], o.Period}, " ")
}

// key of an object as it is compared: a revocation is announced by its name.
func sendKey(o definition.Gossip_object) string {
	switch o.Type {
	case definition.STH_INIT:
		return objKey(o) + " " + hex.EncodeToString(sha([]byte(o.Signature[0] + msgOf(o))))[:8]
	case definition.REV_INIT:
		return objKey(o)
	case definition.STH_FRAG, definition.ACC_FRAG:
		return objKey(o) + " " + o.Signer + " " + hex.EncodeToString(sha([]byte(o.Signature[0] + msgOf(o))))[:8]
	case definition.REV_FRAG:
		return objKey(o) + " " + o.Signer + " " + hex.EncodeToString(sha([]byte(o.Signature[0])))[:8]
	case definition.STH_FULL, definition.REV_FULL, definition.ACC_FULL:
		return definition.TypeString(o.Type) + " " + o.Payload[0] + " " + hex.EncodeToString(sha([]byte(msgOf(o))))[:8]
	case definition.CON_INIT:
		return "CON_INIT " + o.Payload[0]
	}
	return definition.TypeString(o.Type)
}

func (m *gmodel) convict(at int, e, why string) {
	if _, ok := m.black[e]; !ok {
		m.black[e] = at
		m.proof[e] = why
	}
}

func (m *gmodel) conflict(at int, e string) {
	m.convict(at, e, "conflict")
	m.peers(at, "CON", "CON_INIT "+e)
	m.monitor(at, "CON", "CON_INIT "+e)
	m.stat["conflict"]++
}

func (m *gmodel) fragment(at int, f definition.Gossip_object, own bool) {
	e := f.Payload[0]
	if _, bad := m.black[e]; bad {
		m.stat["fragment of a convicted entity"]++
		return
	}
	k := objKey(f) + msgOf(f)
	if m.frags[k] == nil {
		m.frags[k] = map[string]bool{}
	}
	if m.frags[k][f.Signer] || len(m.frags[k]) >= m.g.w.T {
		m.stat["fragment not needed"]++
		return
	}
	m.frags[k][f.Signer] = true
	class := "FRAG"
	if f.Signer == m.g.w.G[0] {
		class = "OWNFRAG"
	}
	if own {
		m.stat["own fragment"]++
	}
	m.peers(at, class, sendKey(f))
	if len(m.frags[k]) == m.g.w.T {
		full := f
		full.Type = map[string]string{definition.STH_FRAG: definition.STH_FULL, definition.REV_FRAG: definition.REV_FULL, definition.ACC_FRAG: definition.ACC_FULL}[f.Type]
		cur := p2(m.g.minute + at/60000)
		id := cur + full.Type + e
		if !m.full[id] {
			m.full[id] = true
			m.monitor(at, "FULL", sendKey(full))
			m.stat["certified"]++
			if full.Type == definition.ACC_FULL {
				m.convict(at, e, "accusation")
			}
		} else {
			m.stat["second certified"]++
		}
	}
}

func (m *gmodel) deliver(at int, o definition.Gossip_object) {
	e := o.Payload[0]
	_, bad := m.black[e]
	switch o.Type {
	case definition.STH_INIT, definition.REV_INIT:
		if o.Type == definition.REV_INIT {
			m.pay[o.Period+e] = o
		}
		if bad {
			m.stat["statement of a convicted entity"]++
			return
		}
		old, ok := m.init[objKey(o)]
		switch {
		case !ok:
			m.init[objKey(o)] = o
			m.peers(at, "INIT", sendKey(o))
			m.monitor(at, "INIT", sendKey(o))
			m.timer = append(m.timer, gev{at: at + m.g.wait*1000, obj: m.g.w.frag(m.g.w.G[0], o)})
			m.stat["statement"]++
		case msgOf(old) != msgOf(o):
			m.conflict(at, e)
		default:
			m.stat["duplicate"]++
		}
	case definition.ACC_INIT:
		if bad || o.Signer != m.g.w.M[0] || m.acc[objKey(o)] {
			m.stat["accusation ignored"]++
			return
		}
		m.acc[objKey(o)] = true
		m.fragment(at, m.g.w.frag(m.g.w.G[0], o), true)
	case definition.CON_INIT:
		if bad {
			return
		}
		m.conflict(at, e)
	case definition.REV_FRAG:
		p, ok := m.pay[o.Period+e]
		if !ok || !m.g.w.fragValid(o.Signer, msgOf(p), o.Signature[0]) {
			m.stat["fragment without payload"]++
			return
		}
		o.Payload = p.Payload
		m.fragment(at, o, false)
	default:
		m.fragment(at, o, false)
	}
}

func (g *gcase) model() *gmodel {
	m := &gmodel{g: g, black: map[string]int{}, proof: map[string]string{}, stat: map[string]int{}}
	reset := func() {
		m.init, m.acc, m.pay, m.frags, m.full = map[string]definition.Gossip_object{}, map[string]bool{}, map[string]definition.Gossip_object{}, map[string]map[string]bool{}, map[string]bool{}
	}
	reset()
	next := 0
	nextReset := 40000
	for {
		// the next thing that happens: a delivery, a timer of the gossiper or the reset
		ti := -1
		for i := range m.timer {
			if ti < 0 || m.timer[i].at < m.timer[ti].at {
				ti = i
			}
		}
		td, tt := 1<<30, 1<<30
		if next < len(g.evs) {
			td = g.evs[next].at
		}
		if ti >= 0 {
			tt = m.timer[ti].at
		}
		if td == 1<<30 && tt == 1<<30 {
			m.count = append(m.count, m.counts()) // at the reset that follows
			return m
		}
		switch {
		case nextReset < td && nextReset < tt:
			m.count = append(m.count, m.counts())
			reset()
			m.stat["reset"]++
			nextReset += 60000
		case td < tt:
			if g.evs[next].bad {
				m.stat["forged"]++
			} else {
				m.deliver(td, g.evs[next].obj)
			}
			next++
		default:
			f := m.timer[ti].obj
			m.timer = append(m.timer[:ti:ti], m.timer[ti+1:]...)
			m.fragment(tt, f, true)
		}
	}
}

func (m *gmodel) counts() map[string]int {
	c := map[string]int{}
	for _, o := range m.init {
		c[definition.TypeString(o.Type)]++
	}
	c["ACC_INIT"] = len(m.acc)
	for k, s := range m.frags {
		c[strings.SplitN(k, " ", 2)[0]] += len(s)
	}
	for k := range m.full {
		for _, t := range []string{definition.STH_FULL, definition.REV_FULL, definition.ACC_FULL} {
			if strings.Contains(k, t) {
				c[definition.TypeString(t)]++
			}
		}
	}
	for _, why := range m.proof {
		if why == "conflict" {
			c["CON_INIT"]++
		}
	}
	c["BLACKLIST"] = len(m.black)
	return c
}

// ---- the real gossiper ----

type gresult struct {
	sends []gsend
	black map[string]bool
	ctx   *gossiper.GossiperContext
	net   *Net
}

func (g *gcase) run(t *testing.T, c *Case, dir string, after func(r *gresult)) *gresult {
	r := &gresult{black: map[string]bool{}}
	bubble(t, c, g.minute, 0, func() {
		start := time.Now()
		n := newNet(c)
		r.net = n
		ctx := n.gossiper(g.w, 0, g.wait, dir)
		r.ctx = ctx
		n.hosts[g.w.M[0]] = sink
		for _, x := range g.w.G[1:] {
			n.hosts[x] = sink
		}
		for x := range g.down {
			delete(n.hosts, x)
		}
		if len(g.outage) > 0 {
			n.fate = func(m *Msg, i int) Fate {
				o, ok := g.outage[m.Dst]
				at := int(m.At.Sub(start).Milliseconds())
				return Fate{Drop: ok && m.Src == g.w.G[0] && at >= o[0] && at <= o[1]}
			}
		}
		startTask(func() { gossiper.PeriodicTasks(ctx) })
		for _, e := range g.evs {
			time.Sleep(time.Until(start.Add(time.Duration(e.at) * time.Millisecond)))
			if e.raw != nil {
				n.post(g.w.G[0], e.path, e.raw)
				continue
			}
			n.post(g.w.G[0], pathOf[e.obj.Type], js(e.obj))
		}
		time.Sleep(time.Duration(g.wait)*time.Second + 2*time.Second)
		for _, m := range n.sent(func(m *Msg) bool { return m.Src == g.w.G[0] }) {
			s := gsend{at: int(m.At.Sub(start).Milliseconds()), dst: m.Dst}
			if strings.HasSuffix(m.Path, "new_payload_notification") {
				var note struct{ Period, Entity_url string }
				json.Unmarshal(m.Body, &note)
				s.class, s.key = "INIT", "REV_INIT "+note.Entity_url+" "+note.Period
				r.sends = append(r.sends, s)
				continue
			}
			var o definition.Gossip_object
			if json.Unmarshal(m.Body, &o) != nil {
				s.class, s.key = "?", m.Path+clip(string(m.Body), 100)
				r.sends = append(r.sends, s)
				continue
			}
			s.key = sendKey(o)
			switch o.Type {
			case definition.STH_INIT, definition.REV_INIT:
				s.class = "INIT"
			case definition.CON_INIT:
				s.class = "CON"
				if ok, why := g.w.authentic(o); !ok {
					c.Errorf("the gossiper sends a proof to %s that %s: %s", m.Dst, why, js(o))
				}
				if !g.received(o) && !g.canProve(o.Payload[0]) {
					c.Errorf("the gossiper sends a proof to %s that is not the one it received: %s", m.Dst, js(o))
				}
			case definition.STH_FULL, definition.REV_FULL, definition.ACC_FULL:
				s.class = "FULL"
				if ok, why := g.w.authentic(o); !ok {
					c.Errorf("the gossiper sends a certified object to %s that %s: %s", m.Dst, why, js(o))
				}
				if want := p2(m.At.Minute()); o.Period != want {
					c.Errorf("a certified object made in period %s is labelled %s", want, o.Period)
				}
			case definition.STH_FRAG, definition.REV_FRAG, definition.ACC_FRAG:
				s.class = "FRAG"
				if o.Signer == g.w.G[0] {
					s.class = "OWNFRAG"
				}
			default:
				s.class = "?"
			}
			r.sends = append(r.sends, s)
		}
		for _, e := range g.w.entities() {
			r.black[e] = ctx.InBlacklistPerm(e)
		}
		if after != nil {
			after(r)
		}
	})
	return r
}

// delivered tells whether a fragment in the name of the gossiper came from outside (it may have been sent back to it).
func (g *gcase) delivered(o definition.Gossip_object) bool {
	for _, e := range g.evs {
		if e.obj.Type == o.Type && e.obj.Signer == o.Signer && e.obj.Signature == o.Signature {
			return true
		}
	}
	return false
}

// received tells whether exactly this object came from outside.
func (g *gcase) received(o definition.Gossip_object) bool {
	for _, e := range g.evs {
		if string(js(e.obj)) == string(js(o)) {
			return true
		}
	}
	return false
}

// canProve tells whether two statements came in that show the entity in conflict, so that the gossiper may make a proof itself.
func (g *gcase) canProve(e string) bool {
	said := map[string]string{}
	for _, v := range g.evs {
		if o := v.obj; (o.Type == definition.STH_INIT || o.Type == definition.REV_INIT) && o.Payload[0] == e {
			if old, ok := said[objKey(o)]; ok && old != msgOf(o) {
				return true
			}
			said[objKey(o)] = msgOf(o)
		}
	}
	return false
}

// compare checks the sends of the given classes against the model.
func (g *gcase) compare(c *Case, got []gsend, want []gsend, exactTime bool, classes ...string) {
	in := func(s gsend) bool {
		for _, x := range classes {
			if s.class == x {
				return true
			}
		}
		return false
	}
	// what was sent around the time when the receiver could not be reached may be sent or not
	lost := map[string]bool{}
	for _, s := range append(append([]gsend{}, got...), want...) {
		if o, ok := g.outage[s.dst]; ok && s.at >= o[0]-1000 && s.at <= o[1]+1000 {
			lost[s.dst+" <- "+s.key] = true
		}
	}
	index := func(l []gsend) map[string][]int {
		m := map[string][]int{}
		for _, s := range l {
			k := s.dst + " <- " + s.key
			if in(s) && !g.down[s.dst] && !lost[k] {
				m[k] = append(m[k], s.at)
			}
		}
		return m
	}
	gi, wi := index(got), index(want)
	keys := map[string]bool{}
	for k := range gi {
		keys[k] = true
	}
	for k := range wi {
		keys[k] = true
	}
	list := []string{}
	for k := range keys {
		list = append(list, k)
	}
	sort.Strings(list)
	for _, k := range list {
		a, b := gi[k], wi[k]
		sort.Ints(a)
		sort.Ints(b)
		if len(a) != len(b) {
			c.Errorf("%s: sent %d times (ms %v), has to be sent %d times (ms %v)", k, len(a), a, len(b), b)
			continue
		}
		for i := range a {
			if d := a[i] - b[i]; d < 0 || d > 900 {
				if exactTime {
					c.Errorf("%s: sent at %d ms, has to be at %d ms", k, a[i], b[i])
				}
			}
		}
	}
}

// keyOfBody is the key of the object a message carries.
func keyOfBody(m *Msg) string {
	var o definition.Gossip_object
	if json.Unmarshal(m.Body, &o) != nil {
		return ""
	}
	return sendKey(o)
}

func objOf(m *Msg) definition.Gossip_object {
	var o definition.Gossip_object
	json.Unmarshal(m.Body, &o)
	return o
}

// noteKey is the key of what a message carries or announces.
func noteKey(m *Msg) string {
	if strings.HasSuffix(m.Path, "new_payload_notification") {
		var note struct{ Period, Entity_url string }
		json.Unmarshal(m.Body, &note)
		return "REV_INIT " + note.Entity_url + " " + note.Period
	}
	return keyOfBody(m)
}
