package main

import (
	"context"
	"fmt"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/redis/go-redis/v9"
	"github.com/spf13/viper"
	"github.com/takenet/deckard"
	"github.com/takenet/deckard/internal/audit"
	"github.com/takenet/deckard/internal/config"
	"github.com/takenet/deckard/internal/dtime"
	"github.com/takenet/deckard/internal/queue"
	"github.com/takenet/deckard/internal/queue/cache"
	"github.com/takenet/deckard/internal/queue/message"
	"github.com/takenet/deckard/internal/queue/storage"
	"github.com/takenet/deckard/internal/service"
	"github.com/takenet/deckard/internal/zverif/fakemongo"
	"github.com/takenet/deckard/internal/zverif/fakeredis"
	"github.com/takenet/deckard/internal/zverif/vk"
	"go.uber.org/zap"
	"google.golang.org/grpc"
)

// ---- virtual clock ----

var clockMs atomic.Int64 // 0: real time

func vnow() int64 { return clockMs.Load() }

func initClock() {
	dtime.SetNowProvider(func() time.Time {
		ms := clockMs.Load()
		if ms == 0 {
			return time.Now()
		}
		return time.UnixMilli(ms)
	})
}

type noLog struct{}

func (noLog) Printf(context.Context, string, ...any) {}

var quietOnce sync.Once

func quiet() {
	quietOnce.Do(func() {
		zap.ReplaceGlobals(zap.NewNop())
		redis.SetLogger(noLog{})
		config.Configure()
		// the stand-ins are up: connecting fails soon or works
		config.StorageConnectionRetryAttempts.Set(3)
		config.StorageConnectionRetryDelay.Set("1s")
		config.CacheConnectionRetryAttempts.Set(3)
		config.CacheConnectionRetryDelay.Set("1s")
		initClock()
	})
}

// ---- recording auditor ----

type recAuditor struct {
	mu      sync.Mutex
	entries []audit.Entry
}

func (r *recAuditor) Store(_ context.Context, e audit.Entry) {
	r.mu.Lock()
	r.entries = append(r.entries, e)
	r.mu.Unlock()
}

func (r *recAuditor) take() []audit.Entry {
	r.mu.Lock()
	defer r.mu.Unlock()
	e := r.entries
	r.entries = nil
	return e
}

// ---- world: one instance on chosen back ends ----

// api is what a client sees.
type api interface {
	Add(context.Context, *deckard.AddRequest) (*deckard.AddResponse, error)
	Pull(context.Context, *deckard.PullRequest) (*deckard.PullResponse, error)
	Ack(context.Context, *deckard.AckRequest) (*deckard.AckResponse, error)
	Nack(context.Context, *deckard.AckRequest) (*deckard.AckResponse, error)
	Count(context.Context, *deckard.CountRequest) (*deckard.CountResponse, error)
	Remove(context.Context, *deckard.RemoveRequest) (*deckard.RemoveResponse, error)
	Flush(context.Context, *deckard.FlushRequest) (*deckard.FlushResponse, error)
	GetById(context.Context, *deckard.GetByIdRequest) (*deckard.GetByIdResponse, error)
	EditQueue(context.Context, *deckard.EditQueueRequest) (*deckard.EditQueueResponse, error)
	GetQueue(context.Context, *deckard.GetQueueRequest) (*deckard.GetQueueResponse, error)
}

type wireAPI struct{ c deckard.DeckardClient }

func (w wireAPI) Add(c context.Context, r *deckard.AddRequest) (*deckard.AddResponse, error) {
	return w.c.Add(c, r)
}
func (w wireAPI) Pull(c context.Context, r *deckard.PullRequest) (*deckard.PullResponse, error) {
	return w.c.Pull(c, r)
}
func (w wireAPI) Ack(c context.Context, r *deckard.AckRequest) (*deckard.AckResponse, error) {
	return w.c.Ack(c, r)
}
func (w wireAPI) Nack(c context.Context, r *deckard.AckRequest) (*deckard.AckResponse, error) {
	return w.c.Nack(c, r)
}
func (w wireAPI) Count(c context.Context, r *deckard.CountRequest) (*deckard.CountResponse, error) {
	return w.c.Count(c, r)
}
func (w wireAPI) Remove(c context.Context, r *deckard.RemoveRequest) (*deckard.RemoveResponse, error) {
	return w.c.Remove(c, r)
}
func (w wireAPI) Flush(c context.Context, r *deckard.FlushRequest) (*deckard.FlushResponse, error) {
	return w.c.Flush(c, r)
}
func (w wireAPI) GetById(c context.Context, r *deckard.GetByIdRequest) (*deckard.GetByIdResponse, error) {
	return w.c.GetById(c, r)
}
func (w wireAPI) EditQueue(c context.Context, r *deckard.EditQueueRequest) (*deckard.EditQueueResponse, error) {
	return w.c.EditQueue(c, r)
}
func (w wireAPI) GetQueue(c context.Context, r *deckard.GetQueueRequest) (*deckard.GetQueueResponse, error) {
	return w.c.GetQueue(c, r)
}

// Backends names the cache and storage of a world: "mm" memory/memory,
// "rm" Redis/memory, "cm" Redis cluster/memory, "mg" memory/MongoDB,
// "rg" Redis/MongoDB, "cg" Redis cluster/MongoDB.
type world struct {
	kind   string
	prefix string
	api    api
	svc    *service.Deckard
	q      *queue.Queue
	cfg    *queue.DefaultQueueConfigurationService
	st     storage.Storage
	ca     cache.Cache
	aud    audit.Auditor
	rec    *recAuditor
	redis  *fakeredis.Cluster
	mongo  *fakemongo.Server

	group []*world // instances sharing the back ends, this one first
	first *world   // the first of the group

	conn    *grpc.ClientConn
	opts    worldOpts
	lag     *atomic.Uint64
	closers []func()
}

func (w *world) close() {
	for i := len(w.closers) - 1; i >= 0; i-- {
		w.closers[i]()
	}
	w.closers = nil
}

func (w *world) memStorage() bool { return w.kind[1] == 'm' }

type worldOpts struct {
	kind   string
	prefix string
	aud    audit.Auditor // nil: recording auditor
	// share back ends with an existing world (a restarted or second instance)
	redis *fakeredis.Cluster
	mongo *fakemongo.Server
	lag   *atomic.Uint64
	repl  bool // MongoDB is a replica set whose secondary lags, instead of one server behind a wrapper that simulates it
	wrapS func(storage.Storage) storage.Storage
	wrapC func(cache.Cache) cache.Cache
}

func setConf(k string, v any) { viper.Set(k, v) }

// connect creates a back end. The stand-ins answer, so a service that can not use them can not keep any promise.
func connect[T any](what string, o worldOpts, f func() (T, error)) (t T) {
	type res struct {
		t   T
		err error
	}
	ch := make(chan res, 1)
	go func() {
		t, err := f()
		ch <- res{t, err}
	}()
	select {
	case r := <-ch:
		if r.err != nil {
			vk.Broken("cannot-start", map[string]any{"kind": o.kind}, "the service cannot use a running %s: %v", what, r.err)
		}
		return r.t
	case <-time.After(150 * time.Second):
		vk.Broken("cannot-start", map[string]any{"kind": o.kind}, "the service is not connected to a running %s after 150 s", what)
	}
	return
}

// replyDocs bounds the documents in one batch of a MongoDB cursor, as large documents would; 0: by their size alone.
var replyDocs = 0

func newWorld(o worldOpts) (w *world, err error) {
	quiet()
	ctx := context.Background()
	w = &world{kind: o.kind, prefix: o.prefix, opts: o, lag: o.lag}
	if w.lag == nil {
		w.lag = &atomic.Uint64{}
	}
	defer func() {
		if err != nil {
			w.close()
		}
	}()
	switch o.kind[0] {
	case 'm':
		w.ca = cache.NewMemoryCache()
	case 'r', 'c':
		nodes := 1
		if o.kind[0] == 'c' {
			nodes = 3
		}
		w.redis = o.redis
		if w.redis == nil {
			w.redis, err = fakeredis.Start(nodes)
			if err != nil {
				return w, fmt.Errorf("fake redis: %w", err)
			}
			w.closers = append(w.closers, w.redis.Close)
		}
		config.CacheUri.Set(patient(w.redis.URI()))
		config.RedisClusterMode.Set(nodes > 1)
		config.CachePrefix.Set(o.prefix)
		w.ca = connect("Redis", o, func() (cache.Cache, error) { return cache.CreateCache(ctx, cache.REDIS) })
		ca := w.ca
		w.closers = append(w.closers, func() { _ = ca.Close(ctx) })
	}
	switch o.kind[1] {
	case 'm':
		w.st = storage.NewMemoryStorage(ctx)
	case 'g':
		w.mongo = o.mongo
		if w.mongo == nil {
			if o.repl {
				w.mongo, err = fakemongo.StartReplicaSet()
			} else {
				w.mongo, err = fakemongo.Start()
			}
			if err != nil {
				return w, fmt.Errorf("fake mongo: %w", err)
			}
			w.mongo.SetReply(replyDocs)
			w.closers = append(w.closers, w.mongo.Close)
		}
		config.StorageUri.Set(w.mongo.URI())
		w.st = connect("MongoDB", o, func() (storage.Storage, error) { return storage.CreateStorage(ctx, storage.MONGODB) })
		st := w.st
		w.closers = append(w.closers, func() { _ = st.Close(ctx) })
	}
	if w.mongo == nil || !w.mongo.Replicated() {
		w.st = &lagStorage{Storage: w.st, lag: w.lag}
	} else {
		lag := w.lag
		w.mongo.SetLag(func(id string) bool { l := lag.Load(); return l != 0 && missed(l, id) })
	}
	if o.wrapS != nil {
		w.st = o.wrapS(w.st)
	}
	if o.wrapC != nil {
		w.ca = o.wrapC(w.ca)
	}
	w.aud = o.aud
	if w.aud == nil {
		w.rec = &recAuditor{}
		w.aud = w.rec
	}
	w.cfg = queue.NewQueueConfigurationService(ctx, w.st)
	w.q = queue.NewQueue(w.aud, w.st, w.cfg, w.ca)
	w.svc = service.NewDeckardInstance(w.q, w.cfg, o.kind == "mm")
	w.api = w.svc
	return w, nil
}

// listen puts a real gRPC connection between the client and the service.
func (w *world) listen() error {
	var srv *grpc.Server
	var err error
	for i := 0; i < 20; i++ {
		port := freePort()
		config.GrpcPort.Set(port)
		srv, err = w.svc.ServeGRPCServer(context.Background())
		if err != nil {
			continue
		}
		conn, err := dial(port)
		if err != nil {
			srv.Stop()
			return err
		}
		w.conn = conn
		w.api = wireAPI{deckard.NewDeckardClient(conn)}
		w.closers = append(w.closers, func() { _ = conn.Close(); srv.Stop() })
		return nil
	}
	return err
}

// lagStorage is a storage whose ordinary reads may come from a replica that lags behind:
// while lag is set, reads by id miss about half of the messages unless they are repeated on the primary.
type lagStorage struct {
	storage.Storage
	lag *atomic.Uint64
}

func (s *lagStorage) Find(c context.Context, o *storage.FindOptions) ([]message.Message, error) {
	l, err := s.Storage.Find(c, o)
	lag := s.lag.Load()
	if lag == 0 || err != nil || o.Retry || o.InternalFilter == nil || o.InternalFilter.Ids == nil {
		return l, err
	}
	out := make([]message.Message, 0, len(l))
	for i := range l {
		if !missed(lag, l[i].ID) {
			out = append(out, l[i])
		}
	}
	return out, nil
}

func missed(lag uint64, id string) bool {
	for _, b := range []byte(id) {
		lag = (lag ^ uint64(b)) * 1099511628211
	}
	return lag>>33&1 != 0
}

// patient lets Redis commands take long: on a busy machine the default of three seconds may pass.
func patient(uri string) string {
	sep := "?"
	if strings.Contains(uri, "?") {
		sep = "&"
	}
	return uri + sep + "read_timeout=60s&write_timeout=60s&dial_timeout=60s"
}
