package tool

import (
	"bufio"
	"bytes"
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/base64"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"io"
	"log"
	"math/big"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/c-kruse/vanflow"
	"github.com/moby/spdystream"
	"pgregory.net/rapid"

	"vanflowverif/vt"
)

// CFault disturbs a call of the capture tool to the cluster.
type CFault struct {
	Call string `json:"call"` // see capCalls
	N    int    `json:"n"`    // the n-th such call (0: every)
	Kind string `json:"kind"` // status, reset, garbage, delay, interrupt, interrupted
	Arg  int    `json:"arg,omitempty"`
}

// C30Plan is a run of the capture tool.
type C30Plan struct {
	Host      string   `json:"host"`   // "": the address of the API server
	Prefix    string   `json:"prefix"` // path of the API server
	TLS       bool     `json:"tls"`
	Namespace string   `json:"namespace"`
	Router    bool     `json:"router"`
	Exists    bool     `json:"exists"` // a deployment of that name is there
	Others    int      `json:"others"` // other pods
	NotReady  int      `json:"not_ready"`
	NoPods    bool     `json:"no_pods"`
	Duration  int      `json:"duration"`          // ms
	Default   bool     `json:"default,omitempty"` // the duration is that of the tool
	Tag       string   `json:"tag"`
	Debug     bool     `json:"debug"`
	Args      string   `json:"args"` // "": fine, none, two, duration, directory, nowhere, full
	Old       bool     `json:"old"`  // the output file is there
	Body      string   `json:"body"`
	Repeat    int      `json:"repeat"`
	Mode      string   `json:"mode"` // length, chunked, slow, short, cut, drop, refused, real
	Status    int      `json:"status"`
	Occupied  bool     `json:"occupied"` // something local listens on the port
	Kill      int      `json:"kill"`     // interrupted that many ms after the start
	Faults    []CFault `json:"faults"`
}

var capCalls = []string{"router", "create", "ready", "pods", "forward", "capture", "delete"}

const capName = "vanflow-server"

func genC30(t *rapid.T) C30Plan {
	p := C30Plan{
		Host:      rapid.SampledFrom([]string{"", "", "localhost", "hub.example.com", "sts.test:6443", "kube", "p.h.t.s", "[::1]:8443", "10.1.2.3", "api.example.org:443", "https.example"}).Draw(t, "host"),
		Prefix:    rapid.SampledFrom([]string{"", "", "", "/k8s/clusters/c-m-1", "/p"}).Draw(t, "prefix"),
		TLS:       rapid.IntRange(0, 3).Draw(t, "tls") > 0,
		Namespace: rapid.SampledFrom([]string{"", "default", "west", "my-skupper-1"}).Draw(t, "namespace"),
		Router:    rapid.IntRange(0, 14).Draw(t, "router") != 9,
		Exists:    rapid.IntRange(0, 14).Draw(t, "exists") == 9,
		Others:    rapid.IntRange(0, 2).Draw(t, "others"),
		NotReady:  rapid.SampledFrom([]int{0, 0, 0, 1, 2}).Draw(t, "notready"),
		NoPods:    rapid.IntRange(0, 14).Draw(t, "nopods") == 9,
		Duration:  rapid.SampledFrom([]int{0, 20, 100, 300, 700}).Draw(t, "duration"),
		Tag:       rapid.SampledFrom([]string{"", "", "v1", "0.2.0-rc1"}).Draw(t, "tag"),
		Debug:     rapid.IntRange(0, 3).Draw(t, "debug") == 0,
		Old:       rapid.Bool().Draw(t, "old"),
		Body:      rapid.SampledFrom([]string{"", "{}", `{"data":[]}`, `{"data":[{"Meta":{"Record":"ROUTER"}}]}` + "\n", "\x00\xff\r\n\r\n", "0\r\n"}).Draw(t, "body"),
		Repeat:    rapid.SampledFrom([]int{1, 1, 1, 2, 3000, 60000}).Draw(t, "repeat"),
		Mode:      rapid.SampledFrom([]string{"length", "length", "chunked", "chunked", "slow", "short", "cut", "drop", "refused", "real"}).Draw(t, "mode"),
		Status:    rapid.SampledFrom([]int{200, 200, 200, 200, 200, 200, 404, 500, 503}).Draw(t, "status"),
		Occupied:  rapid.IntRange(0, 7).Draw(t, "occupied") == 5,
	}
	if rapid.IntRange(0, 11).Draw(t, "args") == 11 {
		p.Args = rapid.SampledFrom([]string{"none", "two", "duration", "directory", "nowhere", "full", "full"}).Draw(t, "badargs")
	}
	if rapid.IntRange(0, 6).Draw(t, "kill") == 5 {
		p.Kill = rapid.IntRange(1, 1200).Draw(t, "killms")
	}
	for i, n := 0, rapid.SampledFrom([]int{0, 0, 1, 1, 1, 2}).Draw(t, "faults"); i < n; i++ {
		f := CFault{Call: rapid.SampledFrom(capCalls).Draw(t, "call"), N: rapid.SampledFrom([]int{1, 1, 1, 2, 0}).Draw(t, "n")}
		f.Kind = rapid.SampledFrom([]string{"status", "status", "reset", "garbage", "delay", "interrupt", "interrupted"}).Draw(t, "kind")
		if f.Call == "create" && f.Kind == "garbage" {
			// done, but not answered as it should
			f.Kind = rapid.SampledFrom([]string{"delay", "lost", "lost"}).Draw(t, "how")
		}
		if f.Call == "capture" && f.Kind == "garbage" {
			f.Kind = "status" // a capture may hold anything
		}
		switch f.Kind {
		case "status":
			f.Arg = rapid.SampledFrom([]int{401, 403, 404, 409, 500, 503, 504}).Draw(t, "status")
		case "delay":
			f.Arg = rapid.SampledFrom([]int{1, 20, 100, 200, 400, 1500}).Draw(t, "ms")
		}
		if f.Call == "ready" && f.N == 0 && f.Kind != "delay" && f.Kind != "interrupt" && f.Kind != "interrupted" {
			f.N = 1 // or it would wait for the deployment for 15 minutes
		}
		p.Faults = append(p.Faults, f)
	}
	return p
}

// genC30Patient has deployments that take long to be ready, captures that are
// to wait for long, and nothing that goes wrong.
func genC30Patient(t *rapid.T) C30Plan {
	p := genC30(t)
	p.Faults, p.Args, p.Kill, p.Router, p.Exists, p.NoPods, p.Occupied, p.Status = nil, "", 0, true, false, false, false, 200
	p.Mode = rapid.SampledFrom([]string{"length", "chunked", "slow"}).Draw(t, "how")
	p.NotReady, p.Duration = rapid.IntRange(6, 9).Draw(t, "polls"), 100
	if rapid.IntRange(0, 3).Draw(t, "long") == 0 {
		p.NotReady, p.Duration, p.Default = 0, 20000, true
	}
	return p
}

// capCluster is the cluster as the capture tool sees it.
type capCluster struct {
	plan  C30Plan
	ns    string
	host  string
	token string
	body  []byte

	mu        sync.Mutex
	signal    func()
	calls     map[string]int
	log       []string
	bad       string // a call it must not make
	created   bool   // confirmed
	deployed  bool   // there is a deployment
	labels    map[string]string
	deletes   int // delete requests for the deployment while it was there
	spoiled   int // those that were disturbed
	polls     int
	ready     time.Time
	captured  time.Time
	served    bool // the whole capture went out
	hit       map[string]bool
	interrupt bool
	lost      bool // the response to the creation
	meta      any  // of the deployment that was created

	tool    *proc // the real server
	cleanup []func()

	deploying sync.WaitGroup
	creating  int // calls
}

func (k *capCluster) note(format string, args ...any) {
	k.log = append(k.log, fmt.Sprintf(format, args...))
}

func (k *capCluster) complain(format string, args ...any) {
	k.mu.Lock()
	defer k.mu.Unlock()
	if k.bad == "" {
		k.bad = fmt.Sprintf(format, args...)
	}
}

// disturb applies the fault planned for a call; done tells that nothing else
// is to be answered, after is to be called when the answer was sent.
func (k *capCluster) disturb(call string, w http.ResponseWriter, r *http.Request) (done bool, after func()) {
	after = func() {}
	k.mu.Lock()
	k.calls[call]++
	n := k.calls[call]
	var f *CFault
	for i := range k.plan.Faults {
		if g := &k.plan.Faults[i]; g.Call == call && (g.N == 0 || g.N == n) {
			f = g
			break
		}
	}
	if f != nil {
		k.note("%s %d: %s %d", call, n, f.Kind, f.Arg)
		k.hit[call+" "+f.Kind] = true
	} else {
		k.note("%s %d", call, n)
	}
	k.mu.Unlock()
	if f == nil {
		return false, after
	}
	switch f.Kind {
	case "status":
		w.Header().Set("Content-Type", "application/json")
		w.WriteHeader(f.Arg)
		json.NewEncoder(w).Encode(map[string]any{"kind": "Status", "apiVersion": "v1", "status": "Failure", "code": f.Arg, "message": "disturbed", "reason": "Disturbed"})
		return true, after
	case "garbage":
		w.Header().Set("Content-Type", "application/json")
		io.WriteString(w, "{\"kind\": nonsense")
		return true, after
	case "reset":
		if c, _, err := w.(http.Hijacker).Hijack(); err == nil {
			c.Close()
		}
		return true, after
	case "delay":
		sleepMS(f.Arg)
	case "interrupt":
		k.sigint()
		if call == "delete" || call == "create" {
			// there is no other way for the tool than to wait for the answer
			sleepMS(50)
			return false, after
		}
		select {
		case <-r.Context().Done():
		case <-time.After(20 * time.Second):
		}
		return true, after
	case "interrupted":
		return false, k.sigint
	case "lost":
		k.mu.Lock()
		k.lost = true
		k.mu.Unlock()
	}
	return false, after
}

func (k *capCluster) sigint() {
	k.mu.Lock()
	f := k.signal
	k.interrupt = true
	k.mu.Unlock()
	if f != nil {
		f()
	}
}

func reply(w http.ResponseWriter, code int, v any) {
	w.Header().Set("Content-Type", "application/json")
	w.WriteHeader(code)
	json.NewEncoder(w).Encode(v)
}

func notThere(w http.ResponseWriter, what string) {
	reply(w, 404, map[string]any{"kind": "Status", "apiVersion": "v1", "status": "Failure", "code": 404, "reason": "NotFound", "message": what + " not found"})
}

func (k *capCluster) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	if r.Host != k.host && r.Host != strings.TrimSuffix(k.host, ":443") {
		k.complain("request for host %q instead of %q", r.Host, k.host)
	}
	if k.plan.TLS && r.Header.Get("Authorization") != "Bearer "+k.token {
		k.complain("%s %s without the credentials of the configuration", r.Method, r.URL.Path)
	}
	path, ok := strings.CutPrefix(r.URL.Path, k.plan.Prefix)
	if !ok {
		k.complain("request for %q instead of %q", r.URL.Path, k.plan.Prefix)
	}
	deps := "/apis/apps/v1/namespaces/" + k.ns + "/deployments"
	pods := "/api/v1/namespaces/" + k.ns + "/pods"
	switch {
	case r.Method == "GET" && path == deps+"/skupper-router":
		if done, after := k.disturb("router", w, r); !done {
			if k.plan.Router {
				reply(w, 200, k.deployment("skupper-router", nil, 1))
			} else {
				notThere(w, "skupper-router")
			}
			flush(w)
			after()
		}
	case r.Method == "POST" && path == deps:
		k.create(w, r)
	case r.Method == "GET" && path == deps+"/"+capName:
		done, after := k.disturb("ready", w, r)
		if done {
			return
		}
		k.mu.Lock()
		there, labels := k.deployed, k.labels
		n := 0
		if there && k.polls >= k.plan.NotReady && (k.plan.Mode != "real" || k.tool != nil && k.tool.base != "" || k.bad != "") {
			n = 1
		}
		k.polls++
		if n > 0 && k.ready.IsZero() {
			k.ready = time.Now()
		}
		k.mu.Unlock()
		if !there {
			notThere(w, capName)
		} else {
			reply(w, 200, k.deployment(capName, labels, n))
		}
		flush(w)
		after()
	case r.Method == "DELETE" && path == deps+"/"+capName:
		k.delete(w, r)
	case r.Method == "GET" && path == pods:
		done, after := k.disturb("pods", w, r)
		if done {
			return
		}
		reply(w, 200, k.pods(r.URL.Query().Get("labelSelector")))
		flush(w)
		after()
	case path == pods+"/"+capName+"-1/portforward":
		k.forward(w, r)
	case strings.HasSuffix(path, "/portforward"):
		k.complain("port forward to %s", path)
		notThere(w, path)
	case r.Method == "GET":
		notThere(w, path)
	default:
		k.complain("%s %s", r.Method, r.URL)
		notThere(w, path)
	}
}

func flush(w http.ResponseWriter) {
	if f, ok := w.(http.Flusher); ok {
		f.Flush()
	}
}

func (k *capCluster) deployment(name string, labels map[string]string, ready int) any {
	meta := map[string]any{}
	if name == capName {
		k.mu.Lock()
		if m, ok := k.meta.(map[string]any); ok {
			for key, v := range m {
				meta[key] = v
			}
		}
		k.mu.Unlock()
	}
	meta["name"], meta["namespace"], meta["uid"] = name, k.ns, "u-"+name
	return map[string]any{
		"kind": "Deployment", "apiVersion": "apps/v1",
		"metadata": meta,
		"spec":     map[string]any{"selector": map[string]any{"matchLabels": labels}, "template": map[string]any{"metadata": map[string]any{"labels": labels}}},
		"status":   map[string]any{"replicas": 1, "readyReplicas": ready},
	}
}

func (k *capCluster) pods(selector string) any {
	k.mu.Lock()
	defer k.mu.Unlock()
	type pod struct {
		name   string
		labels map[string]string
	}
	var all []pod
	for i := 0; i < k.plan.Others; i++ {
		all = append(all, pod{fmt.Sprintf("a-pod-%d", i), map[string]string{"app": fmt.Sprintf("other-%d", i)}})
	}
	if k.deployed && !k.plan.NoPods {
		all = append(all, pod{capName + "-1", k.labels})
	}
	items := []any{}
	for _, p := range all {
		ok := true
		for _, s := range strings.Split(selector, ",") {
			if s == "" {
				continue
			}
			key, v, _ := strings.Cut(s, "=")
			v = strings.TrimPrefix(v, "=")
			ok = ok && p.labels[key] == v
		}
		if ok {
			items = append(items, map[string]any{
				"metadata": map[string]any{"name": p.name, "namespace": k.ns, "labels": p.labels},
				"status":   map[string]any{"phase": "Running"},
			})
		}
	}
	return map[string]any{"kind": "PodList", "apiVersion": "v1", "metadata": map[string]any{}, "items": items}
}

// capDeployment is what matters of the deployment that is created.
type capDeployment struct {
	Metadata struct{ Name, Namespace string }
	Spec     struct {
		Replicas *int
		Selector struct{ MatchLabels map[string]string }
		Template struct {
			Metadata struct{ Labels map[string]string }
			Spec     struct {
				Containers []struct {
					Image        string
					Args         []string
					VolumeMounts []struct{ MountPath, Name string }
				}
				Volumes []struct {
					Name   string
					Secret struct{ SecretName string }
				}
			}
		}
	}
}

// fault tells what is wrong with the deployment.
func (d capDeployment) fault(p C30Plan, ns string) string {
	if d.Metadata.Name != capName || (d.Metadata.Namespace != "" && d.Metadata.Namespace != ns) {
		return fmt.Sprintf("it is called %s/%s", d.Metadata.Namespace, d.Metadata.Name)
	}
	if d.Spec.Replicas != nil && *d.Spec.Replicas != 1 {
		return fmt.Sprintf("it has %d replicas", *d.Spec.Replicas)
	}
	if len(d.Spec.Selector.MatchLabels) == 0 {
		return "it selects no pods"
	}
	for k, v := range d.Spec.Selector.MatchLabels {
		if d.Spec.Template.Metadata.Labels[k] != v {
			return "it does not select its own pods"
		}
	}
	s := d.Spec.Template.Spec
	if len(s.Containers) != 1 {
		return fmt.Sprintf("it has %d containers", len(s.Containers))
	}
	c := s.Containers[0]
	tag := p.Tag
	if tag == "" {
		tag = "latest"
	}
	if c.Image != "quay.io/ckruse/vanflow-tool:"+tag {
		return "its image is " + c.Image
	}
	secrets := map[string]string{}
	for _, v := range s.Volumes {
		secrets[v.Name] = v.Secret.SecretName
	}
	for _, m := range c.VolumeMounts {
		if secrets[m.Name] == "skupper-local-client" {
			file := strings.TrimRight(m.MountPath, "/") + "/connect.json"
			for _, a := range c.Args {
				if strings.TrimLeft(a, "-") == "messaging-config="+file {
					if n := len(c.Args); c.Args[n-1] == "serve" {
						return ""
					}
				}
			}
		}
	}
	return fmt.Sprintf("it does not serve what the router it is configured for sends: %v", c)
}

func (k *capCluster) create(w http.ResponseWriter, r *http.Request) {
	k.mu.Lock()
	k.creating++
	k.mu.Unlock()
	defer func() {
		k.mu.Lock()
		k.creating--
		k.mu.Unlock()
	}()
	b, _ := io.ReadAll(r.Body)
	done, after := k.disturb("create", w, r)
	if done {
		return
	}
	var d capDeployment
	if err := json.Unmarshal(b, &d); err != nil {
		k.complain("deployment %q: %v", b, err)
	} else if f := d.fault(k.plan, k.ns); f != "" {
		k.complain("deployment created: %s", f)
	}
	k.mu.Lock()
	if k.deployed {
		k.mu.Unlock()
		reply(w, 409, map[string]any{"kind": "Status", "apiVersion": "v1", "status": "Failure", "code": 409, "reason": "AlreadyExists", "message": "already exists"})
		flush(w)
		after()
		return
	}
	if !k.plan.Router {
		k.note("created without a router")
		if k.bad == "" {
			k.bad = "a deployment was created where there is no router"
		}
	}
	k.deployed, k.created, k.labels = true, true, d.Spec.Template.Metadata.Labels
	k.mu.Unlock()
	if k.plan.Mode == "real" {
		k.deploying.Add(1)
		go func() {
			defer k.deploying.Done()
			k.deploy(d)
		}()
	}
	var full map[string]any
	json.Unmarshal(b, &full)
	k.mu.Lock()
	k.meta = full["metadata"]
	lost := k.lost
	k.mu.Unlock()
	if lost {
		if c, _, err := w.(http.Hijacker).Hijack(); err == nil {
			c.Close()
		}
		return
	}
	reply(w, 201, full)
	flush(w)
	after()
}

func (k *capCluster) delete(w http.ResponseWriter, r *http.Request) {
	io.Copy(io.Discard, r.Body)
	k.mu.Lock()
	there := k.deployed
	if there && !k.created && k.bad == "" {
		k.bad = "it deleted a deployment it did not create"
	}
	if there {
		k.deletes++
	}
	k.mu.Unlock()
	done, after := k.disturb("delete", w, r)
	k.mu.Lock()
	if done {
		k.spoiled++
	} else {
		k.deployed = false
	}
	k.mu.Unlock()
	if done {
		return
	}
	if !there {
		notThere(w, capName)
	} else {
		reply(w, 200, map[string]any{"kind": "Status", "apiVersion": "v1", "status": "Success", "metadata": map[string]any{}})
	}
	flush(w)
	after()
}

// deploy runs the real server with the arguments of the deployment; it is ready
// when it holds the records of a source.
func (k *capCluster) deploy(d capDeployment) {
	k.mu.Lock()
	if k.tool != nil || len(d.Spec.Template.Spec.Containers) == 0 {
		k.mu.Unlock()
		return
	}
	k.tool = new(proc)
	k.mu.Unlock()
	b := newBroker()
	where, cleanup := server(b, true)
	k.later(func() { b.Close(); cleanup() })
	args := where
	for _, a := range d.Spec.Template.Spec.Containers[0].Args {
		if !strings.HasPrefix(strings.TrimLeft(a, "-"), "messaging-config=") {
			args = append(args, a)
		}
	}
	fail := func(err error) { k.complain("the server it deployed does not work: %v", err) }
	tool, err := start(9090, args...)
	if err != nil {
		fail(err)
		return
	}
	k.later(tool.stop)
	ps := []*proc{tool}
	if err := until(30, ps, func() error {
		if !b.receiving("mc/sfe.all") {
			return fmt.Errorf("it does not listen for beacons")
		}
		return nil
	}); err != nil {
		fail(err)
		return
	}
	bm := vanflow.BeaconMessage{Version: 1, SourceType: "ROUTER", Address: "mc/sfe.r1", Direct: "sfe.r1", Identity: "r1"}
	if _, err := b.deliver("mc/sfe.all", wire(bm.Encode()), ps); err != nil {
		fail(err)
		return
	}
	if err := until(30, ps, func() error {
		if !b.receiving("mc/sfe.r1") || !b.receiving("mc/sfe.r1.flows") {
			return fmt.Errorf("it does not listen to the source")
		}
		return nil
	}); err != nil {
		fail(err)
		return
	}
	router, flow := fmt.Sprintf("%s-router", k.ns), fmt.Sprintf("%s-flow", k.ns)
	for addr, x := range map[string]vanflow.Record{
		"mc/sfe.r1":       vanflow.RouterRecord{BaseRecord: vanflow.NewBase(router), Hostname: &k.host},
		"mc/sfe.r1.flows": vanflow.FlowRecord{BaseRecord: vanflow.NewBase(flow), SourceHost: &k.token},
	} {
		m, err := vanflow.RecordMessage{Records: []vanflow.Record{x}}.Encode()
		if err != nil {
			vt.Abort("%v", err)
		}
		if _, err := b.deliver(addr, wire(m), ps); err != nil {
			fail(err)
			return
		}
	}
	if err := until(30, ps, func() error {
		code, body, err := tool.get("/")
		if err != nil || code != 200 || !bytes.Contains(body, []byte(router)) || !bytes.Contains(body, []byte(flow)) || !bytes.Contains(body, []byte(k.token)) {
			return fmt.Errorf("it serves %d %q (%v)", code, body, err)
		}
		k.mu.Lock()
		k.body = body
		k.mu.Unlock()
		return nil
	}); err != nil {
		fail(err)
		return
	}
	k.mu.Lock()
	k.tool = tool
	k.mu.Unlock()
}

func (k *capCluster) later(f func()) {
	k.mu.Lock()
	k.cleanup = append(k.cleanup, f)
	k.mu.Unlock()
}

// relay lets the real server answer.
func (k *capCluster) relay(s io.Writer, r *http.Request) {
	k.mu.Lock()
	t := k.tool
	k.mu.Unlock()
	if t == nil || t.base == "" {
		return
	}
	code, body, err := t.get(r.URL.Path)
	if err != nil {
		return
	}
	k.mu.Lock()
	k.body = body
	k.served = code == 200
	k.mu.Unlock()
	fmt.Fprintf(s, "HTTP/1.1 %d Status\r\nConnection: close\r\nContent-Length: %d\r\n\r\n%s", code, len(body), body)
}

// rw is a connection with what was read ahead.
type rw struct {
	net.Conn
	r *bufio.Reader
}

func (c rw) Read(b []byte) (int, error) { return c.r.Read(b) }

func (k *capCluster) forward(w http.ResponseWriter, r *http.Request) {
	k.mu.Lock()
	there := k.deployed && !k.plan.NoPods
	k.mu.Unlock()
	if !there {
		notThere(w, "pod")
		return
	}
	done, after := k.disturb("forward", w, r)
	if done {
		return
	}
	if !strings.EqualFold(r.Header.Get("Upgrade"), "SPDY/3.1") {
		reply(w, 400, map[string]any{"kind": "Status", "status": "Failure", "code": 400})
		return
	}
	w.Header().Set("Connection", "Upgrade")
	w.Header().Set("Upgrade", "SPDY/3.1")
	w.Header().Set("X-Stream-Protocol-Version", "portforward.k8s.io")
	w.WriteHeader(http.StatusSwitchingProtocols)
	c, buf, err := w.(http.Hijacker).Hijack()
	if err != nil {
		return
	}
	defer c.Close()
	conn, err := spdystream.NewConnection(rw{c, buf.Reader}, true)
	if err != nil {
		return
	}
	after()
	var mu sync.Mutex
	errs := map[string]*spdystream.Stream{}
	conn.Serve(func(s *spdystream.Stream) {
		h := s.Headers()
		s.SendReply(http.Header{}, false)
		id := h.Get("Requestid")
		if h.Get("Port") != "9090" {
			k.complain("port %s of the pod is forwarded", h.Get("Port"))
		}
		mu.Lock()
		defer mu.Unlock()
		switch h.Get("Streamtype") {
		case "error":
			errs[id] = s
		case "data":
			e := errs[id]
			go k.serve(s, e, conn, c)
		}
	})
}

// rawWriter writes a response to a stream.
type rawWriter struct {
	s  io.Writer
	c  net.Conn
	h  http.Header
	on bool
}

func (w *rawWriter) Header() http.Header {
	if w.h == nil {
		w.h = http.Header{}
	}
	return w.h
}

func (w *rawWriter) WriteHeader(code int) {
	w.on = true
	fmt.Fprintf(w.s, "HTTP/1.1 %d Status\r\nConnection: close\r\n\r\n", code)
}

func (w *rawWriter) Write(b []byte) (int, error) {
	if !w.on {
		w.WriteHeader(200)
	}
	return w.s.Write(b)
}

// Hijack gives away the connection that all streams share.
func (w *rawWriter) Hijack() (net.Conn, *bufio.ReadWriter, error) { return w.c, nil, nil }

// serve is the server in the pod.
func (k *capCluster) serve(s, e *spdystream.Stream, conn *spdystream.Connection, c net.Conn) {
	end := func() {
		s.Close()
		if e != nil {
			e.Close()
		}
	}
	var done bool
	var after func()
	r, err := http.ReadRequest(bufio.NewReader(s))
	if err != nil {
		end()
		return
	}
	k.mu.Lock()
	if k.captured.IsZero() {
		k.captured = time.Now()
	}
	k.mu.Unlock()
	if r.Method != "GET" || r.URL.Path != "/" {
		k.complain("the pod was asked to %s %s", r.Method, r.URL)
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	go func() {
		select {
		case <-conn.CloseChan():
			cancel()
		case <-ctx.Done():
		}
	}()
	if done, after = k.disturb("capture", &rawWriter{s: s, c: c}, r.WithContext(ctx)); done {
		end()
		return
	}
	if k.plan.Mode == "refused" {
		io.WriteString(e, "an error occurred forwarding 9090 -> 9090: connection refused")
		after()
		end()
		return
	}
	if k.plan.Mode == "real" {
		k.relay(s, r)
		after()
		end()
		return
	}
	var head, body bytes.Buffer
	fmt.Fprintf(&head, "HTTP/1.1 %d Status\r\nContent-Type: application/json\r\nConnection: close\r\n", k.plan.Status)
	chunked := k.plan.Mode == "chunked" || k.plan.Mode == "cut" || k.plan.Mode == "slow"
	whole := true
	if chunked {
		head.WriteString("Transfer-Encoding: chunked\r\n\r\n")
		for b := k.body; len(b) > 0; {
			n := min(len(b), 20000)
			fmt.Fprintf(&body, "%x\r\n%s\r\n", n, b[:n])
			b = b[n:]
		}
		if k.plan.Mode == "cut" {
			whole = false
		} else {
			body.WriteString("0\r\n\r\n")
		}
	} else {
		n := len(k.body)
		if k.plan.Mode == "short" {
			n += 5
			whole = false
		}
		fmt.Fprintf(&head, "Content-Length: %d\r\n\r\n", n)
		body.Write(k.body)
	}
	all := func() {
		k.mu.Lock()
		k.served = whole && k.plan.Status == 200
		k.mu.Unlock()
	}
	if k.plan.Mode == "drop" {
		defer c.Close()
		whole = body.Len() == 0
		body.Truncate(body.Len() / 2)
	}
	if body.Len() == 0 {
		all()
	}
	if _, err := s.Write(head.Bytes()); err != nil {
		end()
		return
	}
	for n := 0; body.Len() > 0; n++ {
		piece := body.Next(8192)
		if body.Len() == 0 {
			all()
		}
		if _, err := s.Write(piece); err != nil {
			end()
			return
		}
		if k.plan.Mode == "slow" && n < 8 {
			sleepMS(60)
		}
		if n == 0 {
			after()
			after = func() {}
		}
	}
	after()
	end()
}

// run runs the tool against the cluster.
func runC30(c *vt.Case, p C30Plan) error {
	defer exclusive()()
	k := &capCluster{plan: p, ns: p.Namespace, token: "t0ken", calls: map[string]int{}, hit: map[string]bool{}, deployed: p.Exists, labels: map[string]string{"app": capName}}
	if k.ns == "" {
		k.ns = "default"
	}
	if p.Mode == "real" {
		defer func() {
			k.deploying.Wait()
			for _, f := range k.cleanup {
				f()
			}
		}()
	} else {
		k.body = bytes.Repeat([]byte(p.Body), p.Repeat)
	}
	srv := httptest.NewUnstartedServer(k)
	srv.Config.ErrorLog = log.New(io.Discard, "", 0)
	if p.TLS {
		srv.TLS = &tls.Config{Certificates: []tls.Certificate{capCert()}, NextProtos: []string{"http/1.1"}}
		srv.StartTLS()
	} else {
		srv.Start()
	}
	defer srv.Close()
	defer srv.CloseClientConnections()
	scheme := "http"
	if p.TLS {
		scheme = "https"
	}
	_, port, _ := net.SplitHostPort(srv.Listener.Addr().String())
	proxied := false
	switch k.host = p.Host; k.host {
	case "":
		k.host = "127.0.0.1:" + port
	case "localhost":
		k.host = "localhost:" + port
	default:
		proxied = true
	}
	cluster := map[string]any{"server": scheme + "://" + k.host + p.Prefix}
	if p.TLS {
		cluster["certificate-authority-data"] = base64.StdEncoding.EncodeToString(capCA)
	}
	if proxied {
		proxy := httptest.NewUnstartedServer(capProxy{k, srv.Listener.Addr().String()})
		proxy.Config.ErrorLog = srv.Config.ErrorLog
		proxy.Start()
		defer proxy.Close()
		defer proxy.CloseClientConnections()
		cluster["proxy-url"] = proxy.URL
	}
	kctx := map[string]any{"cluster": "here", "user": "me"}
	if p.Namespace != "" {
		kctx["namespace"] = p.Namespace
	}
	config := map[string]any{
		"apiVersion": "v1", "kind": "Config", "current-context": "cur",
		"clusters": []any{
			map[string]any{"name": "away", "cluster": map[string]any{"server": "https://127.0.0.1:1"}},
			map[string]any{"name": "here", "cluster": cluster},
		},
		"users": []any{map[string]any{"name": "me", "user": map[string]any{"token": k.token}}},
		"contexts": []any{
			map[string]any{"name": "elsewhere", "context": map[string]any{"cluster": "away", "user": "me", "namespace": "wrong"}},
			map[string]any{"name": "cur", "context": kctx},
		},
	}
	dir, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "cap")
	if err != nil {
		vt.Abort("%v", err)
	}
	defer os.RemoveAll(dir)
	cfg, _ := json.Marshal(config)
	if err := os.WriteFile(filepath.Join(dir, "config"), cfg, 0o600); err != nil {
		vt.Abort("%v", err)
	}
	out := filepath.Join(dir, "capture.json")
	if p.Old {
		os.WriteFile(out, bytes.Repeat([]byte("old"), 1000), 0o600)
	}
	if p.Occupied && p.Mode != "real" {
		l, err := net.Listen("tcp4", "127.0.0.1:9090")
		if err != nil {
			vt.Abort("%v", err)
		}
		other := &http.Server{Handler: http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { io.WriteString(w, "something else") })}
		go other.Serve(l)
		defer other.Close()
	}

	var args []string
	if !p.Default {
		args = append(args, "-duration", fmt.Sprintf("%dms", p.Duration))
	}
	if p.Tag != "" {
		args = append(args, "-tag", p.Tag)
	}
	if p.Debug {
		args = append(args, "-debug")
	}
	switch p.Args {
	case "none":
	case "two":
		args = append(args, out, out+"2")
	case "duration":
		args[1] = "soon"
		args = append(args, out)
	case "directory":
		args = append(args, dir)
	case "full": // the disk
		args = append(args, "/dev/full")
	case "nowhere":
		args = append(args, filepath.Join(dir, "no", "capture.json"))
	default:
		args = append(args, out)
	}
	t := &proc{cmd: exec.Command(filepath.Join(os.Getenv("VERIF_BIN"), "vancap"), args...), done: make(chan struct{})}
	t.cmd.Stdout, t.cmd.Stderr = t, t
	t.cmd.Env = []string{"KUBECONFIG=" + filepath.Join(dir, "config"), "HOME=" + dir, "PATH=" + os.Getenv("PATH"), "GORACE=atexit_sleep_ms=0"}
	t.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := t.cmd.Start(); err != nil {
		vt.Abort("starting vancap: %v", err)
	}
	k.mu.Lock()
	k.signal = func() { t.cmd.Process.Signal(os.Interrupt) }
	k.mu.Unlock()
	go func() {
		t.cmd.Wait()
		close(t.done)
	}()
	if p.Kill > 0 {
		go func() {
			select {
			case <-t.done:
			case <-time.After(time.Duration(p.Kill) * time.Millisecond):
				k.sigint()
			}
		}()
	}
	secs := 60
	if p.NotReady > 5 || p.Default {
		secs = 240
	}
	limit := patience(secs)
	for ended := false; !ended; {
		select {
		case <-t.done:
			ended = true
		case <-time.After(10 * time.Millisecond):
			if limit() {
				t.stop()
				k.mu.Lock()
				defer k.mu.Unlock()
				return fmt.Errorf("vancap does not end; calls: %v; output:\n%s", k.log, t.tail())
			}
		}
	}
	for busy := true; busy; sleepMS(1) { // given up on, it happens all the same
		k.mu.Lock()
		busy = k.creating > 0
		k.mu.Unlock()
	}
	ok := t.cmd.ProcessState.Success()
	signaled := t.cmd.ProcessState.Sys().(syscall.WaitStatus).Signaled()
	k.mu.Lock()
	defer k.mu.Unlock()
	fail := func(format string, a ...any) error {
		return fmt.Errorf("%s; exit: %v; calls: %v; output:\n%s", fmt.Sprintf(format, a...), t.cmd.ProcessState, k.log, t.tail())
	}
	text := t.tail()
	if strings.Contains(text, "panic:") || strings.Contains(text, "fatal error:") || strings.Contains(text, "DATA RACE") {
		return fail("vancap crashed")
	}
	if k.bad != "" {
		return fail("%s", k.bad)
	}
	blind := false // it cannot find out that it created one
	for h := range k.hit {
		call, kind, _ := strings.Cut(h, " ")
		blind = blind || k.lost && call == "ready" && kind != "delay" && kind != "interrupted"
	}
	if k.created && k.deployed && (k.spoiled == 0 || k.spoiled < k.deletes) && !blind {
		return fail("the deployment it created was left behind")
	}
	if p.Exists && !k.created && !k.deployed {
		return fail("a deployment it did not create is gone")
	}
	if signaled && k.created {
		return fail("it was ended by the signal after it had created a deployment")
	}
	got, rerr := os.ReadFile(out)
	if ok {
		switch {
		case p.Args == "full" && len(k.body) == 0 && k.served:
			// nothing to write
			return nil
		case p.Args != "":
			return fail("it reports success for a command line like %s", p.Args)
		case !k.created:
			return fail("it reports success without having deployed anything")
		case k.captured.IsZero():
			return fail("it reports success without having asked for the capture")
		case !k.served:
			return fail("it reports success though the server did not send a complete capture (status %d, %s)", p.Status, p.Mode)
		case rerr != nil:
			return fail("it reports success without a file: %v", rerr)
		case !bytes.Equal(got, k.body):
			return fail("the file holds %d bytes %.60q, the capture %d bytes %.60q", len(got), got, len(k.body), k.body)
		case k.ready.IsZero():
			return fail("it asked for the capture without the deployment having been ready")
		case k.captured.Sub(k.ready) < time.Duration(p.Duration)*time.Millisecond:
			return fail("it asked for the capture %v after the deployment was ready, not %dms", k.captured.Sub(k.ready), p.Duration)
		}
	}
	// when it has to succeed
	harmless := p.Args == "" && p.Router && !p.Exists && !p.NoPods && (p.Status == 200 || p.Mode == "real") && p.Mode != "cut" && p.Mode != "short" && p.Mode != "drop" && p.Mode != "refused" && !p.Occupied && p.Kill == 0
	for h := range k.hit {
		call, kind, _ := strings.Cut(h, " ")
		switch {
		case kind == "delay", call == "delete":
		case call == "ready" && kind != "interrupt" && kind != "interrupted":
		case kind == "interrupted" && call == "capture":
			harmless = false
		default:
			harmless = false
		}
	}
	if harmless && !ok {
		return fail("it fails though nothing was wrong")
	}
	if k.created {
		c.NonTrivial()
	}
	c.ClassIf(ok, "captured")
	c.ClassIf(!ok && k.created, "failed after deploying")
	c.ClassIf(k.interrupt && k.created, "interrupted after deploying")
	c.ClassIf(ok && p.Mode == "real", "captured from the real server")
	c.ClassIf(proxied, "named host")
	c.ClassIf(p.Prefix != "", "path prefix")
	c.ClassIf(p.TLS, "tls")
	c.ClassIf(k.spoiled > 0, "deletion disturbed")
	c.ClassIf(k.lost, "response to the creation lost")
	c.ClassIf(p.Exists, "deployment exists")
	c.ClassIf(p.NoPods && !k.ready.IsZero(), "no pods")
	c.ClassIf(p.Occupied && !k.captured.IsZero(), "port occupied")
	c.ClassIf(!k.captured.IsZero() && !k.served, "incomplete capture")
	for h := range k.hit {
		c.Class("fault " + h)
	}
	return nil
}

// capProxy leads every host to the API server.
type capProxy struct {
	k    *capCluster
	addr string
}

func (p capProxy) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	if r.Method != http.MethodConnect {
		p.k.ServeHTTP(w, r)
		return
	}
	want := p.k.host
	if u, err := url.Parse("x://" + want); err == nil && u.Port() == "" {
		want += map[bool]string{true: ":443", false: ":80"}[p.k.plan.TLS]
	}
	if r.URL.Host != want && r.Host != want {
		p.k.complain("connection to %s instead of %s", r.Host, want)
		http.Error(w, "no such host", 502)
		return
	}
	up, err := net.Dial("tcp", p.addr)
	if err != nil {
		http.Error(w, "unreachable", 502)
		return
	}
	defer up.Close()
	c, buf, err := w.(http.Hijacker).Hijack()
	if err != nil {
		return
	}
	defer c.Close()
	io.WriteString(c, "HTTP/1.1 200 Connection established\r\n\r\n")
	done := make(chan struct{}, 2)
	go func() { io.Copy(up, buf); up.(*net.TCPConn).CloseWrite(); done <- struct{}{} }()
	go func() { io.Copy(c, up); c.(*net.TCPConn).CloseWrite(); done <- struct{}{} }()
	<-done
	<-done
}

var (
	capOnce sync.Once
	capCA   []byte
	capTLS  tls.Certificate
)

func capCert() tls.Certificate {
	capOnce.Do(func() {
		key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		if err != nil {
			vt.Abort("%v", err)
		}
		tmpl := &x509.Certificate{
			SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "cluster"},
			NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(24 * time.Hour),
			IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageDigitalSignature | x509.KeyUsageCertSign,
			DNSNames:    []string{"localhost", "hub.example.com", "sts.test", "kube", "p.h.t.s", "api.example.org", "https.example"},
			IPAddresses: []net.IP{net.IPv4(127, 0, 0, 1), net.IPv6loopback, net.IPv4(10, 1, 2, 3)},
		}
		der, err := x509.CreateCertificate(rand.Reader, tmpl, tmpl, &key.PublicKey, key)
		if err != nil {
			vt.Abort("%v", err)
		}
		capCA = pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der})
		capTLS = tls.Certificate{Certificate: [][]byte{der}, PrivateKey: key}
	})
	return capTLS
}

func TestC30(t *testing.T) {
	vt.Check(t, vt.Spec[C30Plan]{
		ID:   "C30",
		Rule: "a run of the built vancap against a simulated cluster (API server over http or https, by address, by name through a proxy, under a path; deployments, pods and the forwarded port of the pod) with faults and interrupts at any of its calls; the ledger of what was created and deleted, the exit status, and the written file are compared; non-trivial: a deployment was created",
		Gen:  genC30, Run: runC30, Quick: 400, Thorough: 6000, HangTicks: 60000, Trace: true, NoShrink: true,
	})
}

func TestC30_patient(t *testing.T) {
	vt.Check(t, vt.Spec[C30Plan]{
		ID:   "C30",
		Rule: "as TestC30 without faults, with deployments that are only ready when asked for the seventh to tenth time, or with the tool's own duration of 20 seconds; non-trivial: a deployment was created",
		Gen:  genC30Patient, Run: runC30, Quick: 24, Thorough: 240, HangTicks: 300000, Trace: true, NoShrink: true,
	})
}
