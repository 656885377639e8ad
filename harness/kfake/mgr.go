package kfake

import (
	"context"
	"net/http"
	"sync"

	"github.com/go-logr/logr"
	"k8s.io/apimachinery/pkg/api/meta"
	"k8s.io/apimachinery/pkg/runtime"
	"k8s.io/apimachinery/pkg/runtime/schema"
	"k8s.io/client-go/rest"
	"sigs.k8s.io/controller-runtime/pkg/cache"
	"sigs.k8s.io/controller-runtime/pkg/client"
	"sigs.k8s.io/controller-runtime/pkg/config"
	"sigs.k8s.io/controller-runtime/pkg/manager"
)

// Mgr is a manager stub that records the runnables added to it.
type Mgr struct {
	manager.Manager
	C      client.Client
	Ca     cache.Cache
	Mapper meta.RESTMapper
	mu     sync.Mutex
	runs   []manager.Runnable
}

func (m *Mgr) GetClient() client.Client                { return m.C }
func (m *Mgr) GetAPIReader() client.Reader             { return m.C }
func (m *Mgr) GetCache() cache.Cache                   { return m.Ca }
func (m *Mgr) GetLogger() logr.Logger                  { return logr.Discard() }
func (m *Mgr) GetRESTMapper() meta.RESTMapper          { return m.Mapper }
func (m *Mgr) GetScheme() *runtime.Scheme              { return runtime.NewScheme() }
func (m *Mgr) GetConfig() *rest.Config                 { return &rest.Config{} }
func (m *Mgr) GetHTTPClient() *http.Client             { return http.DefaultClient }
func (m *Mgr) GetControllerOptions() config.Controller { return config.Controller{} }
func (m *Mgr) Start(ctx context.Context) error         { <-ctx.Done(); return nil }
func (m *Mgr) Elected() <-chan struct{} {
	c := make(chan struct{})
	close(c)
	return c
}
func (m *Mgr) Add(r manager.Runnable) error {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.runs = append(m.runs, r)
	return nil
}

// Runnables returns what has been added.
func (m *Mgr) Runnables() []manager.Runnable {
	m.mu.Lock()
	defer m.mu.Unlock()
	return append([]manager.Runnable{}, m.runs...)
}

// NewMapper knows the given kinds.
func NewMapper(gvks ...schema.GroupVersionKind) meta.RESTMapper {
	m := meta.NewDefaultRESTMapper(nil)
	for _, g := range gvks {
		m.Add(g, meta.RESTScopeNamespace)
	}
	return m
}
