package ctngverif

// Damage to what is sent: generated changes of the text, of the structure and
// of the parts that are text in themselves.

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	"github.com/bits-and-blooms/bitset"
	"github.com/jik18001/CTngV2/definition"
	"pgregory.net/rapid"
)

// junk is a value of any JSON type.
func junk(rt *rapid.T) any {
	switch rapid.IntRange(0, 13).Draw(rt, "junk") {
	case 0:
		return nil
	case 1:
		return rapid.SampledFrom([]any{0, -1, 60, 1e300, 0.5, 9007199254740993}).Draw(rt, "number")
	case 2:
		return json.RawMessage("1e999")
	case 3:
		return ""
	case 4:
		return rapid.String().Draw(rt, "text")
	case 5:
		return strings.Repeat("A", rapid.SampledFrom([]int{1, 100, 70000}).Draw(rt, "length"))
	case 6:
		return []any{}
	case 7:
		return []any{"x", nil, 3, []any{}}
	case 8:
		return map[string]any{}
	case 9:
		return map[string]any{"sig": "00", "id": nil, "ids": "x", "": 1}
	case 10:
		return rapid.Bool().Draw(rt, "bool")
	case 11:
		return json.RawMessage(strings.Repeat("[", 200) + strings.Repeat("]", 200))
	case 12:
		return rapid.SampledFrom([]string{"-1", "60", "999999999999999999999", "0x10", " 5", "05", "5.0", "NaN", "../..", "%00", "localhost:99999", "\x00"}).Draw(rt, "odd")
	default:
		return hex.EncodeToString([]byte(rapid.SampledFrom([]string{"{}", "[]", "null", `{"Period":1}`, `{"Period":"x"}`, `{"Period":"5","TreeSize":"7"}`, "{"}).Draw(rt, "inner")))
	}
}

// nodes lists the places of a decoded JSON value, as functions that set or remove them.
type node struct {
	at     string
	get    any
	set    func(any)
	remove func()
}

func nodes(at string, v any, out *[]node) {
	switch x := v.(type) {
	case map[string]any:
		for _, k := range sortedKeys(x) {
			k := k
			*out = append(*out, node{at + "." + k, x[k], func(n any) { x[k] = n }, func() { delete(x, k) }})
			nodes(at+"."+k, x[k], out)
		}
	case []any:
		for i := range x {
			i := i
			*out = append(*out, node{fmt.Sprint(at, "[", i, "]"), x[i], func(n any) { x[i] = n }, func() { x[i] = nil }})
			nodes(fmt.Sprint(at, "[", i, "]"), x[i], out)
		}
	}
}

func sortedKeys(m map[string]any) []string {
	out := []string{}
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// damageText changes text that may itself be JSON or hex.
func damageText(rt *rapid.T, s string) string {
	switch rapid.IntRange(0, 8).Draw(rt, "text damage") {
	case 0:
		return s[:rapid.IntRange(0, len(s)).Draw(rt, "cut")]
	case 1:
		if len(s) > 0 {
			i := rapid.IntRange(0, len(s)-1).Draw(rt, "position")
			return s[:i] + string(rune(rapid.IntRange(1, 300).Draw(rt, "character"))) + s[i+1:]
		}
	case 2:
		return s + rapid.SampledFrom([]string{"0", "}", " ", "x", s}).Draw(rt, "more")
	case 3:
		i := rapid.IntRange(0, len(s)).Draw(rt, "position")
		return s[i:]
	case 4:
		return strings.ReplaceAll(s, rapid.SampledFrom([]string{"0", "a", "\"", ":", "localhost"}).Draw(rt, "which"), "")
	case 5:
		return strings.ToUpper(s)
	}
	// the text is JSON: damage its structure
	var v any
	if json.Unmarshal([]byte(s), &v) == nil && v != nil {
		if b, _ := damageValue(rt, v); b != nil {
			return string(b)
		}
	}
	return rapid.SampledFrom([]string{"", "{}", "null", "00", "{\"sig\":\"\",\"id\":\"\"}", "{\"sig\":\"" + strings.Repeat("0", 96) + "\",\"ids\":[]}"}).Draw(rt, "text")
}

func damageValue(rt *rapid.T, v any) ([]byte, string) {
	list := []node{}
	root := map[string]any{"": v}
	nodes("", root, &list)
	n := list[rapid.IntRange(0, len(list)-1).Draw(rt, "node")]
	what := ""
	switch op := rapid.IntRange(0, 5).Draw(rt, "operation"); {
	case op == 0:
		n.remove()
		what = "without " + n.at
	case op == 1 && len(list) > 1:
		m := list[rapid.IntRange(0, len(list)-1).Draw(rt, "other")]
		b, err := json.Marshal(m.get)
		if err != nil {
			return nil, ""
		}
		var cp any
		json.Unmarshal(b, &cp)
		n.set(cp)
		what = n.at + " is " + m.at
	case op < 4:
		if s, ok := n.get.(string); ok {
			n.set(damageText(rt, s))
			what = n.at + " damaged"
			break
		}
		fallthrough
	default:
		n.set(junk(rt))
		what = n.at + " replaced"
	}
	b, err := json.Marshal(root[""])
	if err != nil {
		return nil, ""
	}
	if _, ok := root[""]; !ok {
		b = []byte{}
	}
	return b, what
}

// damage returns a changed form of a request body, and what was changed.
func damage(rt *rapid.T, body []byte) ([]byte, string) {
	switch rapid.IntRange(0, 9).Draw(rt, "damage") {
	case 0:
		return body[:rapid.IntRange(0, len(body)).Draw(rt, "cut")], "truncated"
	case 1:
		return rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(rt, "bytes"), "random bytes"
	case 2:
		b := append([]byte{}, body...)
		if len(b) > 0 {
			for i, n := 0, rapid.IntRange(1, 4).Draw(rt, "flips"); i < n; i++ {
				b[rapid.IntRange(0, len(b)-1).Draw(rt, "position")] = rapid.Byte().Draw(rt, "byte")
			}
		}
		return b, "bytes changed"
	case 3:
		return rapid.SampledFrom([][]byte{{}, []byte("null"), []byte("[]"), []byte("{}"), []byte("0"), []byte(`""`), []byte("{\"type\":7}"), []byte("\xef\xbb\xbf{}"), bytes.Repeat([]byte("["), 20000)}).Draw(rt, "body"), "another value"
	}
	var v any
	if json.Unmarshal(body, &v) != nil {
		return damage(rt, []byte(`{"payload":["a","b","c"]}`))
	}
	what := ""
	b := body
	for i, n := 0, rapid.IntRange(1, 3).Draw(rt, "changes"); i < n; i++ {
		x, s := damageValue(rt, v)
		if x == nil {
			break
		}
		b = x
		what += " " + s
		v = nil
		if json.Unmarshal(b, &v) != nil || v == nil {
			break
		}
	}
	return b, what
}

// signedJunk is an object with a genuine signature on a statement that is none.
func (w *World) signedJunk(rt *rapid.T, p int) (definition.Gossip_object, string) {
	e := rapid.IntRange(0, len(w.entities())-1).Draw(rt, "signer")
	o := w.make2(e, p, 0)
	id := w.entities()[e]
	var what string
	if o.Type == definition.STH_INIT {
		inner, _ := hex.DecodeString(o.Payload[1])
		b, s := damage(rt, inner)
		o.Payload[1] = hex.EncodeToString(b)
		what = s
		if percent(rt, "no hex", 20) {
			o.Payload[1] = string(b)
		}
	} else {
		b, s := damage(rt, []byte(o.Payload[2]))
		o.Payload[2] = string(b)
		what = s
	}
	if percent(rt, "split", 10) {
		o.Payload[2], o.Payload[1] = o.Payload[1]+o.Payload[2], ""
	}
	o.Signature[0] = w.rsaSig(id, msgOf(o))
	return o, what
}

// oddStatement is properly signed and labelled, but odd inside.
func (w *World) oddStatement(rt *rapid.T, e, p int) (definition.Gossip_object, string) {
	id := w.entities()[e]
	if e < len(w.L) {
		root := rapid.SampledFrom([]string{"", "zz", "0", "00", "null", strings.Repeat("ab", 40)}).Draw(rt, "root")
		size := rapid.SampledFrom([]int{-1, 0, 1 << 40}).Draw(rt, "size")
		return w.sth(id, p, root, size), fmt.Sprintf("odd root %q size %d", root, size)
	}
	deltas := [][]byte{nil, {}, gz(nil), gz([]byte{1, 2, 3}), []byte("no gzip"), gz(mb(bitset.New(0))), gz(mb(bitset.New(1))), gz(mb(bits(64, 3)))[:12], gz(append(mb(bits(64, 3)), 9, 9)), gz(mb(bits(200, 3))[:12]), append(gz(mb(bits(64, 3))), 7)}
	i := rapid.IntRange(0, len(deltas)-1).Draw(rt, "delta")
	srh := rapid.SampledFrom([]string{"", "x", "{}", "null", "[]", `{"sig":"","id":""}`, `{"sig":"zz","id":"` + id + `"}`, `{"sig":"00","id":"` + id + `"}`, `{"sig":1}`, w.rsaSig(id, "x")}).Draw(rt, "srh")
	b, _ := json.Marshal(definition.Revocation{Period: p2(p), Delta_CRV: deltas[i], SRH: srh})
	o := w.rev(id, p, bits(9), bits(9))
	o.Payload[2] = string(b)
	if rapid.IntRange(0, 5).Draw(rt, "only the period") == 5 {
		o.Payload[2] = fmt.Sprintf(`{"Period":"%s"}`, p2(p))
	}
	o.Signature[0] = w.rsaSig(id, msgOf(o))
	return o, fmt.Sprintf("odd delta %d srh %s", i, clip(srh, 40))
}

// decoded is the object a handler reads from a body.
func decoded(body []byte) (o definition.Gossip_object, ok bool) {
	ok = json.NewDecoder(bytes.NewReader(body)).Decode(&o) == nil
	return
}
