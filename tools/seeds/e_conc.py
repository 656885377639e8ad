import importlib.util, os
_s = importlib.util.spec_from_file_location("d_view", os.path.join(os.path.dirname(os.path.abspath(__file__)), "d_view.py"))
_m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
CH = _m.VH.replace('"context"\n', '"context"\n\t"fmt"\n\t"sync"\n').replace("	_ = time.Second\n", "	_ = time.Second\n	_ = fmt.Sprint\n	_ sync.Mutex\n")
SEEDS = [
 dict(id="p17-first", prop="P17", pkg="pkg/cache",
  edits=[("pkg/cache/view_cache.go", '''	c.mu.Lock()
	defer c.mu.Unlock()

	if _, exists := c.caches[gvk]; exists {
		c.log.V(8).Info("refusing to register cache for GVK %s: cache already exists", "gvk", gvk)
		return nil
	}
''', '''	c.mu.RLock()
	_, exists := c.caches[gvk]
	c.mu.RUnlock()
	if exists {
		c.log.V(8).Info("refusing to register cache for GVK %s: cache already exists", "gvk", gvk)
		return nil
	}

	c.mu.Lock()
	defer c.mu.Unlock()
''')],
  test="CONC:" + '''
func TestZZDemo(t *testing.T) {
	for i := 0; i < 20000; i++ {
		vc := cache.NewViewCache(cache.CacheOptions{})
		var wg sync.WaitGroup
		start := make(chan struct{})
		for j := 0; j < 8; j++ {
			o := zview("n", fmt.Sprint("x", j), map[string]any{"a": "1"})
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				zmust(t, vc.Add(o))
			}()
		}
		close(start)
		wg.Wait()
		l := cache.NewViewObjectList("zop", "V")
		zmust(t, vc.List(zctx, l))
		if len(l.Items) != 8 {
			t.Fatalf("%d objects of 8 are left", len(l.Items))
		}
	}
}
''',
  needs="two users that use a view kind for the first time at the same time", breaks="two stores are made for the kind and what the first user wrote is lost"),
 dict(id="p17-remove", prop="P17", pkg="pkg/cache",
  edits=[("pkg/cache/delegating_view_cache.go", '''	d.mu.Lock()
	informer, exists := d.informers[gvk]
	if exists {
		delete(d.informers, gvk)
	}
	d.mu.Unlock()
''', '''	d.mu.RLock()
	informer, exists := d.informers[gvk]
	d.mu.RUnlock()
	if exists {
		delete(d.informers, gvk)
	}
''')],
  test="CONC:" + '''
func TestZZDemo(t *testing.T) {
	d := cache.NewDelegatingViewCache(cache.NewViewCache(cache.CacheOptions{}), cache.CacheOptions{})
	var wg sync.WaitGroup
	for j := 0; j < 8; j++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			o := object.NewViewObject("zop", fmt.Sprint("V", j))
			for i := 0; i < 50000; i++ {
				if _, err := d.GetInformer(zctx, o); err != nil {
					t.Error(err)
				}
				zmust(t, d.RemoveInformer(zctx, o))
			}
		}()
	}
	wg.Wait()
}
''',
  needs="an informer that is dropped while somebody else uses an informer of the same operator", breaks="the map of informers is changed without protection"),
 dict(id="p17-unregister", prop="P17", pkg="pkg/cache",
  edits=[("pkg/cache/view_cache.go", '''	c.mu.Lock()
	defer c.mu.Unlock()

	informers := c.delegatingInformers[gvk]
	for i, inf := range informers {
		if inf == informer {
			// Remove by replacing with last element and truncating
			c.delegatingInformers[gvk][i] = c.delegatingInformers[gvk][len(c.delegatingInformers[gvk])-1]
			c.delegatingInformers[gvk] = c.delegatingInformers[gvk][:len(c.delegatingInformers[gvk])-1]
			break
		}
	}

	return nil
''', '''	c.mu.RLock()
	index := -1
	for i, inf := range c.delegatingInformers[gvk] {
		if inf == informer {
			index = i
		}
	}
	c.mu.RUnlock()
	if index < 0 {
		return nil
	}

	c.mu.Lock()
	defer c.mu.Unlock()

	// Remove by replacing with last element and truncating
	if informers := c.delegatingInformers[gvk]; index < len(informers) {
		informers[index] = informers[len(informers)-1]
		c.delegatingInformers[gvk] = informers[:len(informers)-1]
	}

	return nil
''')],
  test="CONC:" + '''
func TestZZDemo(t *testing.T) {
	for i := 0; i < 20000; i++ {
		vc := cache.NewViewCache(cache.CacheOptions{})
		var wg sync.WaitGroup
		start := make(chan struct{})
		var mu sync.Mutex
		n := 0
		h := toolscache.ResourceEventHandlerFuncs{AddFunc: func(any) { mu.Lock(); n++; mu.Unlock() }}
		o := zview("n", "x", map[string]any{"a": "1"})
		for j := 0; j < 8; j++ {
			d := cache.NewDelegatingViewCache(vc, cache.CacheOptions{})
			inf, err := d.GetInformer(zctx, o)
			zmust(t, err)
			_, err = inf.AddEventHandler(h)
			zmust(t, err)
			if j == 0 {
				continue
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				zmust(t, d.RemoveInformer(zctx, o))
			}()
		}
		close(start)
		wg.Wait()
		zmust(t, vc.Add(o))
		mu.Lock()
		if n != 1 {
			t.Fatalf("%d operators out of 1 get the event", n)
		}
		mu.Unlock()
	}
}
''',
  needs="two operators that drop their informers of a kind at the same time", breaks="one that is dropped keeps getting events, or another one gets none any more"),
 dict(id="p17-shutdown", prop="P17", pkg="pkg/cache",
  edits=[("pkg/cache/delegating_view_cache.go", '''	d.mu.RLock()
	informersToUnregister := make(map[schema.GroupVersionKind]*ViewCacheInformer)
	for gvk, informer := range d.informers {
		informersToUnregister[gvk] = informer
	}
	d.mu.RUnlock()

	for gvk, informer := range informersToUnregister {
''', '''	d.mu.RLock()
	informersToUnregister := d.informers
	d.mu.RUnlock()

	for gvk, informer := range informersToUnregister {
''')],
  test="CONC:" + '''
func TestZZDemo(t *testing.T) {
	d := cache.NewDelegatingViewCache(cache.NewViewCache(cache.CacheOptions{}), cache.CacheOptions{})
	for j := 0; j < 100; j++ {
		_, err := d.GetInformer(zctx, object.NewViewObject("zop", fmt.Sprint("W", j)))
		zmust(t, err)
	}
	ctx, cancel := context.WithCancel(zctx)
	cancel()
	end := time.Now().Add(20 * time.Second)
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(2)
		go func() {
			defer wg.Done()
			o := object.NewViewObject("zop", fmt.Sprint("V", i))
			for time.Now().Before(end) {
				_, err := d.GetInformer(zctx, o)
				zmust(t, err)
				zmust(t, d.RemoveInformer(zctx, o))
			}
		}()
		go func() {
			defer wg.Done()
			for time.Now().Before(end) {
				zmust(t, d.Start(ctx))
			}
		}()
	}
	wg.Wait()
}
''',
  needs="an operator that stops while somebody asks its cache for an informer", breaks="the map of informers is iterated without protection"),
]
for _x in SEEDS:
    _x["test"] = _x["test"].replace("CONC:", CH).replace("PKG_test", "cache_test")
