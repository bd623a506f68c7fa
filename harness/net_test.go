package ctngverif

// The simulated network: an http.RoundTripper that hands requests to the real
// handlers of the entities, in virtual time, with generated delays and faults.

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"os"
	"reflect"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"testing/synctest"
	"time"
	"unsafe"

	"github.com/jik18001/CTngV2/CA"
	"github.com/jik18001/CTngV2/Logger"
	"github.com/jik18001/CTngV2/crypto"
	"github.com/jik18001/CTngV2/definition"
	"github.com/jik18001/CTngV2/gossiper"
	"github.com/jik18001/CTngV2/monitor"
)

// Msg is one request that was sent.
type Msg struct {
	At       time.Time
	Src, Dst string
	Path     string
	Body     []byte
	Status   int
	Err      bool
}

// Fate of a message.
type Fate struct {
	Delay time.Duration // before delivery
	Drop  bool          // connection error
	Dup   time.Duration // > 0: delivered again after this time
}

type Net struct {
	mu     sync.Mutex
	c      *Case
	hosts  map[string]http.Handler
	log    []*Msg
	fate   func(m *Msg, n int) Fate
	n      int
	panics int
	wg     sync.WaitGroup
	quiet  *os.File // see hush
	fd     uintptr
}

// hush makes the network invisible to the race detector: from now on the set
// of hosts is fixed, requests from outside are not recorded and all others go
// into a file, past the detector. Otherwise the locks of the network would
// order what the code under test leaves unordered.
func (n *Net) hush(dir string) {
	f, err := os.OpenFile(dir+"/messages", os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
	if err != nil {
		panic(err)
	}
	n.quiet, n.fd = f, f.Fd()
}

func newNet(c *Case) *Net {
	n := &Net{c: c, hosts: map[string]http.Handler{}}
	return n
}

type transport struct {
	n   *Net
	src string
}

func (n *Net) client(src string) *http.Client { return &http.Client{Transport: &transport{n, src}} }

// failure is the error of a message that cannot be delivered, of one kind or another.
func failure(host string, body []byte) error {
	return []error{
		errors.New("dial tcp: connect: connection refused"),
		errors.New("context deadline exceeded (Client.Timeout exceeded while awaiting headers)"),
		errors.New("dial tcp: lookup " + host + ": no such host"),
		io.EOF,
		io.ErrUnexpectedEOF,
	}[(len(host)+len(body))%5]
}

func (t *transport) RoundTrip(r *http.Request) (*http.Response, error) {
	var body []byte
	if r.Body != nil {
		body, _ = io.ReadAll(r.Body)
		r.Body.Close()
	}
	return t.n.send(t.src, r.Method, r.URL.Host, r.URL.RequestURI(), body)
}

func (n *Net) send(src, method, host, uri string, body []byte) (*http.Response, error) {
	m := &Msg{At: time.Now(), Src: src, Dst: host, Path: uri, Body: body}
	if n.quiet != nil {
		if src != "" {
			b := append(js(m), '\n')
			syscall.RawSyscall(syscall.SYS_WRITE, n.fd, uintptr(unsafe.Pointer(&b[0])), uintptr(len(b)))
		}
		return n.deliver(method, host, uri, body)
	}
	n.mu.Lock()
	n.log = append(n.log, m)
	i := n.n
	n.n++
	fate := n.fate
	n.mu.Unlock()
	var f Fate
	if fate != nil {
		f = fate(m, i)
	}
	if f.Delay > 0 {
		time.Sleep(f.Delay)
	}
	if f.Drop {
		m.Err = true
		return nil, failure(host, body)
	}
	if f.Dup > 0 {
		go func() {
			time.Sleep(f.Dup)
			n.deliver(method, host, uri, body)
		}()
	}
	resp, err := n.deliver(method, host, uri, body)
	if err != nil {
		m.Err = true
		return nil, err
	}
	m.Status = resp.StatusCode
	return resp, nil
}

func (n *Net) deliver(method, host, uri string, body []byte) (resp *http.Response, err error) {
	if n.quiet == nil {
		n.mu.Lock()
	}
	h := n.hosts[host]
	if n.quiet == nil {
		n.mu.Unlock()
	}
	if h == nil {
		return nil, failure(host, body)
	}
	req := httptest.NewRequest(method, "http://"+host+uri, bytes.NewReader(body))
	req.ContentLength = int64(len(body))
	for k, v := range n.c.head {
		if k == "" {
			req.RemoteAddr = v
		} else {
			req.Header.Set(k, v)
		}
	}
	req.RequestURI = ""
	rec := httptest.NewRecorder()
	defer func() {
		if r := recover(); r != nil {
			n.mu.Lock()
			n.panics++
			n.mu.Unlock()
			n.c.Errorf("panic while handling %s %s%s body %q: %v\n%s", method, host, uri, clip(string(body), 600), r, clip(string(debug.Stack()), 3000))
			resp, err = nil, io.ErrUnexpectedEOF
		}
	}()
	// follow the redirect of a StrictSlash router, as the Go client does
	for i := 0; i < 3; i++ {
		h.ServeHTTP(rec, req)
		if rec.Code != http.StatusMovedPermanently && rec.Code != http.StatusPermanentRedirect {
			break
		}
		loc := rec.Header().Get("Location")
		if !strings.HasPrefix(loc, "http") {
			loc = "http://" + host + loc
		}
		req = httptest.NewRequest(method, loc, bytes.NewReader(body))
		req.ContentLength = int64(len(body))
		rec = httptest.NewRecorder()
	}
	return rec.Result(), nil
}

// post delivers an object to a host, as an outside sender.
func (n *Net) post(host, path string, body []byte) (*http.Response, error) {
	return n.send("", "POST", host, path, body)
}

func (n *Net) get(host, path string, body []byte) (*http.Response, error) {
	return n.send("", "GET", host, path, body)
}

// sent returns the messages matching the filter, in the order they were sent.
func (n *Net) sent(match func(m *Msg) bool) []*Msg {
	n.mu.Lock()
	defer n.mu.Unlock()
	out := []*Msg{}
	if n.quiet != nil {
		n.log = nil
		b, _ := os.ReadFile(n.quiet.Name())
		for _, l := range bytes.Split(b, []byte("\n")) {
			var m Msg
			if json.Unmarshal(l, &m) == nil {
				n.log = append(n.log, &m)
			}
		}
	}
	for _, m := range n.log {
		if match(m) {
			out = append(out, m)
		}
	}
	return out
}

// sink is a host that accepts everything and remembers nothing (the log of the network does).
var sink = http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { io.Copy(io.Discard, r.Body) })

// install makes the network the transport of http.Get for this case.
func (n *Net) install() func() {
	old := http.DefaultTransport
	http.DefaultTransport = &transport{n, "http.Get"}
	return func() {
		if !n.c.Failed() { // else the entities go on until the bubble ends
			http.DefaultTransport = old
		}
	}
}

var pathOf = map[string]string{
	definition.STH_INIT: "/gossip/sth_init", definition.REV_INIT: "/gossip/rev_init", definition.ACC_INIT: "/gossip/acc_init", definition.CON_INIT: "/gossip/con_init",
	definition.STH_FRAG: "/gossip/sth_frag", definition.REV_FRAG: "/gossip/rev_frag", definition.ACC_FRAG: "/gossip/acc_frag",
}

// ---- the real handlers ----
//
// The routers are built inside the Start functions of the entities, so each
// Start function is run once, in a bubble of its own that never advances, and
// its router is taken from the default mux. The context it is bound to is
// filled with a fresh one for every case.

type slotG struct {
	ctx *gossiper.GossiperContext
	h   http.Handler
}
type slotM struct {
	ctx *monitor.MonitorContext
	h   http.Handler
}
type slotL struct {
	ctx *Logger.LoggerContext
	h   http.Handler
}
type slotC struct {
	ctx *CA.CAContext
	h   http.Handler
}

var (
	slotsG []*slotG
	slotsM []*slotM
	slotsL []*slotL
	slotsC []*slotC
)

func capture(t *testing.T, start func()) http.Handler {
	mux := http.NewServeMux()
	http.DefaultServeMux = mux
	go synctest.Test(t, func(*testing.T) { start() })
	for i := 0; i < 6000; i++ {
		time.Sleep(5 * time.Millisecond)
		r := httptest.NewRequest("GET", "http://x/", nil)
		if h, pattern := mux.Handler(r); pattern != "" {
			if underRace {
				callServer()
			}
			return h
		}
	}
	panic("the server did not register its router")
}

// underRace is set by checks that run with the race detector.
var underRace bool

// callServer sends a request to the newest server of this process and waits
// for the answer: what its Start function read is then ordered before what
// the cases write.
var called = map[string]bool{}

func callServer() {
	for i := 0; i < 2000; i++ {
		time.Sleep(5 * time.Millisecond)
		own := map[string]bool{}
		fds, _ := os.ReadDir("/proc/self/fd")
		for _, fd := range fds {
			if l, err := os.Readlink("/proc/self/fd/" + fd.Name()); err == nil && strings.HasPrefix(l, "socket:[") {
				own[strings.TrimSuffix(strings.TrimPrefix(l, "socket:["), "]")] = true
			}
		}
		for _, table := range []string{"/proc/self/net/tcp", "/proc/self/net/tcp6"} {
			b, _ := os.ReadFile(table)
			for _, line := range strings.Split(string(b), "\n") {
				f := strings.Fields(line)
				if len(f) < 10 || f[3] != "0A" || !own[f[9]] || called[f[9]] {
					continue
				}
				port, err := strconv.ParseInt(f[1][strings.LastIndex(f[1], ":")+1:], 16, 32)
				if err != nil {
					continue
				}
				cl := &http.Client{Transport: &http.Transport{DisableKeepAlives: true}, Timeout: 20 * time.Second}
				resp, err := cl.Get(fmt.Sprintf("http://127.0.0.1:%d/none-of-its-paths", port))
				if err != nil {
					continue
				}
				io.Copy(io.Discard, resp.Body)
				resp.Body.Close()
				called[f[9]] = true
				return
			}
		}
	}
	panic("the server does not answer")
}

// slots makes sure that there are enough captured handlers of each kind.
func slots(t *testing.T, g, m, l, c int) {
	captured := false
	w := newWorld(0, 1, 1, 1, 2)
	for len(slotsG) < g {
		ctx := freshGossiper(w, 0, 5, workDir)
		ctx.Gossiper_private_config.Port = "0"
		ctx.Gossiper_private_config.Connected_Gossipers = nil
		slotsG = append(slotsG, &slotG{ctx, capture(t, func() { gossiper.StartGossiperServer(ctx) })})
		captured = true
	}
	for len(slotsM) < m {
		ctx := freshMonitor(w, 0, 5, workDir)
		ctx.Monitor_private_config.Port = "0"
		ctx.Monitor_private_config.CA_URLs, ctx.Monitor_private_config.Logger_URLs = nil, nil
		slotsM = append(slotsM, &slotM{ctx, capture(t, func() { monitor.StartMonitorServer(ctx) })})
		captured = true
	}
	for len(slotsL) < l {
		ctx := freshLogger(w, 0, workDir)
		ctx.Logger_private_config.Port = "0"
		ctx.Logger_public_config.All_CA_URLs = nil
		slotsL = append(slotsL, &slotL{ctx, capture(t, func() { Logger.StartLogger(ctx) })})
		captured = true
	}
	for len(slotsC) < c {
		ctx := freshCA(w, 0, 0, workDir)
		ctx.CA_private_config.Port = "0"
		slotsC = append(slotsC, &slotC{ctx, capture(t, func() { CA.StartCA(ctx) })})
		captured = true
	}
	if captured {
		time.Sleep(500 * time.Millisecond)
	}
}

func without(list []string, x string) []string {
	out := []string{}
	for _, s := range list {
		if s != x {
			out = append(out, s)
		}
	}
	return out
}

// The contexts are built by the Initialize functions of the repository, from
// placeholder files; keys, peers, clients and paths are then set for the world.

var dummyOnce sync.Once
var dummyFile, dummyCrypto string

func dummies() {
	dummyOnce.Do(func() {
		dummyFile = workDir + "/dummy.json"
		dummyCrypto = workDir + "/dummy_crypto.json"
		if err := os.WriteFile(dummyFile, []byte("{}"), 0644); err != nil {
			panic(err)
		}
		w := newWorld(0, 1, 1, 1, 2)
		if err := os.WriteFile(dummyCrypto, js(crypto.NewStoredCryptoConfig(w.cfg(w.G[0]))), 0644); err != nil {
			panic(err)
		}
	})
}

func cp(list []string) []string { return append([]string{}, list...) }

func freshGossiper(w *World, i, wait int, dir string) *gossiper.GossiperContext {
	dummies()
	ctx := gossiper.InitializeGossiperContext(dummyFile, dummyFile, dummyCrypto, fmt.Sprintf("gossiper_%d", i))
	ctx.Gossiper_private_config = &gossiper.Gossiper_private_config{Connected_Gossipers: without(w.G, w.G[i]), Owner_URL: w.M[i], Port: "0"}
	ctx.Gossiper_public_config = &gossiper.Gossiper_public_config{Gossip_wait_time: wait, MMD: 60, MRD: 60, Gossiper_URLs: cp(w.G), Signer_URLs: cp(w.M)}
	ctx.Gossiper_crypto_config = w.cfg(w.G[i])
	ctx.StorageDirectory = dir + "/"
	ctx.Max_latency, ctx.Min_latency = 0, 0
	ctx.Total_Logger, ctx.Total_CA = len(w.L), len(w.C)
	return ctx
}

func freshMonitor(w *World, i, wait int, dir string) *monitor.MonitorContext {
	dummies()
	ctx := monitor.InitializeMonitorContext(dummyFile, dummyFile, dummyCrypto, fmt.Sprintf("monitor_%d", i))
	ctx.Monitor_private_config = &monitor.Monitor_private_config{CA_URLs: cp(w.C), Logger_URLs: cp(w.L), Signer: w.M[i], Gossiper_URL: w.G[i], Port: "0"}
	ctx.Monitor_public_config = &monitor.Monitor_public_config{All_CA_URLs: cp(w.C), All_Logger_URLs: cp(w.L), Gossip_wait_time: wait, MMD: 60, MRD: 60}
	ctx.Monitor_crypto_config = w.cfg(w.M[i])
	ctx.Max_latency, ctx.Min_latency = 0, 0
	ctx.Period_Offset = "0"
	ctx.InitializeMonitorStorage(dir)
	return ctx
}

func freshLogger(w *World, i int, dir string) *Logger.LoggerContext {
	dummies()
	cfg := w.cfg(w.L[i])
	ctx := Logger.InitializeLoggerContext(dummyFile, dummyFile, dummyCrypto)
	ctx.Logger_public_config = &Logger.Logger_public_config{All_CA_URLs: cp(w.C), All_Logger_URLs: cp(w.L), MMD: 60, MRD: 60, Http_vers: []string{"1.1"}}
	ctx.Logger_private_config = &Logger.Logger_private_config{Signer: w.L[i], Port: "0", CAlist: cp(w.C), Monitorlist: cp(w.M), Gossiperlist: cp(w.G)}
	ctx.Logger_crypto_config = cfg
	ctx.PublicKey, ctx.PrivateKey = cfg.SignPublicMap[cfg.SelfID], cfg.SignSecretKey
	ctx.Max_latency, ctx.Min_latency = 0, 0
	ctx.MisbehaviorInterval = 2
	ctx.StoragePath = fmt.Sprintf("%s/logger_%d.json", dir, i)
	return ctx
}

func freshCA(w *World, i, certs int, dir string) *CA.CAContext {
	dummies()
	cfg := w.cfg(w.C[i])
	ctx := CA.InitializeCAContext(dummyFile, dummyFile, dummyCrypto)
	ctx.CA_public_config = &CA.CA_public_config{All_CA_URLs: cp(w.C), All_Logger_URLs: cp(w.L), MMD: 60, MRD: 60, Http_vers: []string{"1.1"}}
	ctx.CA_private_config = &CA.CA_private_config{Signer: w.C[i], Port: "0", Loggerlist: cp(w.L), Monitorlist: cp(w.M), Gossiperlist: cp(w.G), Cert_per_period: certs}
	ctx.CA_crypto_config = cfg
	ctx.PublicKey, ctx.PrivateKey = cfg.SignPublicMap[cfg.SelfID], cfg.SignSecretKey
	ctx.Max_latency, ctx.Min_latency = 0, 0
	ctx.MisbehaviorInterval = 2
	ctx.StoragePath1, ctx.StoragePath2 = fmt.Sprintf("%s/ca_%d_1.json", dir, i), fmt.Sprintf("%s/ca_%d_2.json", dir, i)
	ctx.CertCounter = 0
	ctx.Rootcert = CA.Generate_Root_Certificate(ctx)
	return ctx
}

// gossiper, monitor, logger and ca put a fresh entity into a slot and on the network.

func (n *Net) gossiper(w *World, i, wait int, dir string) *gossiper.GossiperContext {
	s := slotsG[i]
	fresh := freshGossiper(w, i, wait, dir)
	fill(s.ctx, fresh)
	s.ctx.Client = n.client(w.G[i])
	n.mu.Lock()
	n.hosts[w.G[i]] = s.h
	n.mu.Unlock()
	return s.ctx
}

func (n *Net) monitor(w *World, i, wait int, dir string) *monitor.MonitorContext {
	s := slotsM[i]
	fill(s.ctx, freshMonitor(w, i, wait, dir))
	s.ctx.Client = n.client(w.M[i])
	n.mu.Lock()
	n.hosts[w.M[i]] = s.h
	n.mu.Unlock()
	return s.ctx
}

func (n *Net) logger(w *World, i int, dir string) *Logger.LoggerContext {
	s := slotsL[i]
	fill(s.ctx, freshLogger(w, i, dir))
	s.ctx.Client = n.client(w.L[i])
	n.mu.Lock()
	n.hosts[w.L[i]] = s.h
	n.mu.Unlock()
	return s.ctx
}

func (n *Net) ca(w *World, i, certs int, dir string) *CA.CAContext {
	s := slotsC[i]
	fill(s.ctx, freshCA(w, i, certs, dir))
	s.ctx.Client = n.client(w.C[i])
	n.mu.Lock()
	n.hosts[w.C[i]] = s.h
	n.mu.Unlock()
	return s.ctx
}

// monitorHolds tells whether a monitor stores this very object.
func monitorHolds(m *monitor.MonitorContext, o definition.Gossip_object) bool {
	for _, s := range []*definition.Gossip_Storage{m.Storage_TEMP, m.Storage_CONFLICT_POM, m.Storage_ACCUSATION_POM, m.Storage_CONFLICT_POM_DELTA,
		m.Storage_ACCUSATION_POM_DELTA, m.Storage_STH_FULL, m.Storage_REV_FULL} {
		for _, x := range *s {
			if reflect.DeepEqual(x, o) {
				return true
			}
		}
	}
	return false
}
