package main

import (
	"context"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"sort"
	"sync"
	"time"

	"github.com/go-logr/logr"
	"k8s.io/apimachinery/pkg/apis/meta/v1/unstructured"
	"k8s.io/apimachinery/pkg/runtime"
	"k8s.io/apimachinery/pkg/runtime/schema"
	"k8s.io/apimachinery/pkg/types"
	clientgoscheme "k8s.io/client-go/kubernetes/scheme"
	"k8s.io/klog/v2"
	ctrl "sigs.k8s.io/controller-runtime"
	"sigs.k8s.io/controller-runtime/pkg/config"
	"sigs.k8s.io/controller-runtime/pkg/log"
	metricsserver "sigs.k8s.io/controller-runtime/pkg/metrics/server"

	opv1a1 "github.com/l7mp/dcontroller/pkg/api/operator/v1alpha1"
	"github.com/l7mp/dcontroller/pkg/apiserver"
	"github.com/l7mp/dcontroller/pkg/cache"
	"github.com/l7mp/dcontroller/pkg/kubernetes/controllers"

	"verif/core"
	"verif/kapi"
	. "verif/vobj"
)

// patience is how long something that must come about eventually is waited for.
var patience = 40 * time.Second

var kubeKinds = []kapi.Kind{
	{Version: "v1", Kind: "ConfigMap", Resource: "configmaps", Namespaced: true},
	{Group: "test.io", Version: "v1", Kind: "Widget", Resource: "widgets", Namespaced: true},
	{Group: "dcontroller.io", Version: "v1alpha1", Kind: "Operator", Resource: "operators", Status: true},
}

var quiet sync.Once

// world is Kubernetes with the program running next to it, put together as main does.
type world struct {
	k      *kapi.Server
	ctx    context.Context
	cancel context.CancelFunc
	wg     sync.WaitGroup
	api    *cache.API
	c      *controllers.OpController
	as     *apiserver.APIServer
	base   string
	http   *http.Client
	startE chan error
	writes *writes
}

func newWorld() *world {
	quiet.Do(func() {
		klog.SetLogger(logr.Discard())
		log.SetLogger(logr.Discard())
	})
	return &world{k: kapi.New(kubeKinds...)}
}

// build makes the parts; run starts them.
func (w *world) build() {
	cfg := w.k.Config()
	scheme := runtime.NewScheme()
	_ = clientgoscheme.AddToScheme(scheme)
	_ = opv1a1.AddToScheme(scheme)
	var err error
	if w.api, err = cache.NewAPI(cfg, cache.APIOptions{}); err != nil {
		core.Abort("shared storage: %v", err)
	}
	skip := true
	if w.c, err = controllers.NewOpController(cfg, w.api.Cache, ctrl.Options{
		Scheme:                 scheme,
		Metrics:                metricsserver.Options{BindAddress: "0"},
		HealthProbeBindAddress: "0",
		Controller:             config.Controller{SkipNameValidation: &skip},
		Logger:                 logr.Discard(),
	}); err != nil {
		core.Abort("operator controller: %v", err)
	}
	for i := 0; ; i++ {
		ac, err := apiserver.NewDefaultConfig("127.0.0.1", 0, w.api.Client, true, false, logr.Discard())
		if err != nil {
			core.Abort("API server configuration: %v", err)
		}
		if w.as, err = apiserver.NewAPIServer(ac); err == nil {
			break
		}
		if i > 20 {
			core.Abort("API server: %v", err)
		}
	}
	w.base = "http://" + w.as.GetInsecureServerAddress()
	w.http = &http.Client{Transport: &http.Transport{MaxIdleConnsPerHost: 1}}
	w.startE = make(chan error, 1)
	w.ctx, w.cancel = context.WithCancel(context.Background())
	w.writes = &writes{seen: map[string]bool{}}
}

// open starts all but the operator controller.
func (w *world) open() {
	w.c.SetAPIServer(w.as)
	w.wg.Add(2)
	ctx := w.ctx
	go func() { defer w.wg.Done(); _ = w.as.Start(ctx) }()
	go func() { defer w.wg.Done(); _ = w.api.Cache.Start(ctx) }()
}

// run starts the operator controller.
func (w *world) run() {
	w.wg.Add(1)
	ctx := w.ctx
	c, e := w.c, w.startE
	go func() { defer w.wg.Done(); e <- c.Start(ctx) }()
}

// watchViews records what is written to the views.
func (w *world) watchViews(gvks ...schema.GroupVersionKind) {
	for _, g := range gvks {
		wi, err := w.vc().Watch(w.ctx, List(g))
		if err != nil {
			core.Abort("watch: %v", err)
		}
		w.wg.Add(1)
		ws := w.writes
		ctx := w.ctx
		go func() {
			defer w.wg.Done()
			defer wi.Stop()
			for {
				select {
				case e, ok := <-wi.ResultChan():
					if !ok {
						return
					}
					if o, ok := e.Object.(*unstructured.Unstructured); ok && e.Type != "DELETED" {
						ws.add(tagOf(o.Object))
					}
				case <-ctx.Done():
					return
				}
			}
		}()
	}
}

// writes is the set of tags written.
type writes struct {
	mu   sync.Mutex
	seen map[string]bool
}

func (w *writes) add(tag string) {
	w.mu.Lock()
	w.seen[tag] = true
	w.mu.Unlock()
}

// take gives the tags written since the last call.
func (w *writes) take() map[string]bool {
	w.mu.Lock()
	defer w.mu.Unlock()
	s := w.seen
	w.seen = map[string]bool{}
	return s
}

func (w *world) vc() cache.ViewCacheInterface { return w.api.GetCache().GetViewCache() }

// halt ends the program.
func (w *world) halt() error {
	w.cancel()
	w.http.CloseIdleConnections()
	done := make(chan struct{})
	go func() { w.wg.Wait(); close(done) }()
	select {
	case <-done:
		return nil
	case <-time.After(patience):
		return core.V("the program does not end when it is told to")
	}
}

func (w *world) destroy() error {
	err := w.halt()
	w.k.Stop()
	return err
}

// eventually waits until f gives no complaint, or returns the last complaint.
func (w *world) eventually(f func() string) string {
	deadline := time.Now().Add(patience)
	pause := time.Millisecond
	for {
		s := f()
		if s == "" || time.Now().After(deadline) {
			return s
		}
		select {
		case err := <-w.startE:
			w.startE <- err
			return fmt.Sprintf("the operator controller has stopped by itself: %v", err)
		case <-time.After(pause):
		}
		if pause < 20*time.Millisecond {
			pause += pause / 2
		}
	}
}

func (w *world) get(path string) (int, map[string]any) {
	r, err := w.http.Get(w.base + path)
	if err != nil {
		return 0, map[string]any{"err": fmt.Sprint(err)}
	}
	defer r.Body.Close()
	b, err := io.ReadAll(r.Body)
	if err != nil {
		return 0, map[string]any{"err": fmt.Sprint(err)}
	}
	var o map[string]any
	_ = json.Unmarshal(b, &o)
	if o == nil {
		o = map[string]any{"body": string(b)}
	}
	return r.StatusCode, o
}

// served gives the kinds the extension API server has for an operator.
func (w *world) served(op string) (kinds []string, ok bool) {
	code, o := w.get("/apis/" + op + ".view.dcontroller.io/v1alpha1")
	switch code {
	case 400, 404:
		return nil, true
	case 200:
		rs, _ := o["resources"].([]any)
		for _, r := range rs {
			m, _ := r.(map[string]any)
			k, _ := m["kind"].(string)
			kinds = append(kinds, k)
		}
		sort.Strings(kinds)
		return kinds, true
	}
	return nil, false
}

func (w *world) view(g schema.GroupVersionKind) (map[string]map[string]any, error) {
	l := List(g)
	if err := w.api.Client.List(context.Background(), l); err != nil {
		return nil, err
	}
	out := map[string]map[string]any{}
	for i := range l.Items {
		out[l.Items[i].GetName()] = l.Items[i].Object
	}
	return out, nil
}

func tagOf(o map[string]any) string {
	d, _ := o["data"].(map[string]any)
	t, _ := d["tag"].(string)
	return t
}

func configMap(name, val string) M {
	return M{"apiVersion": "v1", "kind": "ConfigMap", "metadata": M{"name": name, "namespace": "ns"}, "data": M{"val": val}}
}

func key(name string) types.NamespacedName { return types.NamespacedName{Namespace: "ns", Name: name} }
