package main

import (
	"fmt"
	"math/rand/v2"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/takenet/deckard/internal/config"
	"github.com/takenet/deckard/internal/zverif/vk"
)

// What the documentation and the configuration reference promise: variable
// names, aliases and defaults.
type setting struct {
	key  config.ConfigKey
	env  []string // main variable first, then the aliases in order
	kind string   // s, b, i, d
	def  string
}

var settings = []setting{
	{config.AuditEnabled, []string{"DECKARD_AUDIT_ENABLED"}, "b", "false"},
	{config.DebugEnabled, []string{"DECKARD_DEBUG"}, "b", "false"},
	{config.LogType, []string{"DECKARD_LOG_TYPE"}, "s", "json"},
	{config.ElasticAddress, []string{"DECKARD_ELASTIC_ADDRESS"}, "s", "http://localhost:9200/"},
	{config.ElasticPassword, []string{"DECKARD_ELASTIC_PASSWORD"}, "s", ""},
	{config.ElasticUser, []string{"DECKARD_ELASTIC_USER"}, "s", ""},
	{config.CacheType, []string{"DECKARD_CACHE_TYPE"}, "s", "MEMORY"},
	{config.CacheUri, []string{"DECKARD_CACHE_URI", "DECKARD_REDIS_URI"}, "s", ""},
	{config.CacheConnectionRetryEnabled, []string{"DECKARD_CACHE_CONNECTION_RETRY_ENABLED"}, "b", "true"},
	{config.CacheConnectionRetryAttempts, []string{"DECKARD_CACHE_CONNECTION_RETRY_ATTEMPTS"}, "i", "10"},
	{config.CacheConnectionRetryDelay, []string{"DECKARD_CACHE_CONNECTION_RETRY_DELAY"}, "d", "5s"},
	{config.CachePrefix, []string{"DECKARD_CACHE_PREFIX"}, "s", "deckard_v1"},
	{config.RedisClusterMode, []string{"DECKARD_REDIS_CLUSTER_MODE"}, "b", "false"},
	{config.HousekeeperEnabled, []string{"DECKARD_HOUSEKEEPER_ENABLED"}, "b", "true"},
	{config.HousekeeperTaskTimeoutDelay, []string{"DECKARD_HOUSEKEEPER_TASK_TIMEOUT_DELAY"}, "d", "1s"},
	{config.HousekeeperTaskUnlockDelay, []string{"DECKARD_HOUSEKEEPER_TASK_UNLOCK_DELAY"}, "d", "1s"},
	{config.HousekeeperTaskUpdateDelay, []string{"DECKARD_HOUSEKEEPER_TASK_UPDATE_DELAY"}, "d", "1s"},
	{config.HousekeeperTaskTTLDelay, []string{"DECKARD_HOUSEKEEPER_TASK_TTL_DELAY"}, "d", "1s"},
	{config.HousekeeperTaskMaxElementsDelay, []string{"DECKARD_HOUSEKEEPER_TASK_MAX_ELEMENTS_DELAY"}, "d", "1s"},
	{config.HousekeeperTaskMetricsDelay, []string{"DECKARD_HOUSEKEEPER_TASK_METRICS_DELAY"}, "d", "60s"},
	{config.MetricsEnabled, []string{"DECKARD_METRICS_ENABLED"}, "b", "true"},
	{config.MetricsPort, []string{"DECKARD_METRICS_PORT"}, "i", "22022"},
	{config.MetricsPath, []string{"DECKARD_METRICS_PATH"}, "s", "/metrics"},
	{config.MetricsHistogramBuckets, []string{"DECKARD_METRICS_HISTOGRAM_BUCKETS"}, "s", "0,1,2,5,10,15,20,30,35,50,100,200,400,600,800,1000,1500,2000,5000,10000"},
	{config.MetricsOpenMetricsEnabled, []string{"DECKARD_METRICS_OPENMETRICS_ENABLED"}, "b", "true"},
	{config.GrpcEnabled, []string{"DECKARD_GRPC_ENABLED"}, "b", "true"},
	{config.GrpcPort, []string{"DECKARD_GRPC_PORT"}, "i", "8081"},
	{config.GrpcServerKeepaliveTime, []string{"DECKARD_GRPC_SERVER_KEEPALIVE_TIME"}, "d", ""},
	{config.GrpcServerKeepaliveTimeout, []string{"DECKARD_GRPC_SERVER_KEEPALIVE_TIMEOUT"}, "d", ""},
	{config.GrpcServerMaxConnectionIdle, []string{"DECKARD_GRPC_SERVER_MAX_CONNECTION_IDLE"}, "d", ""},
	{config.GrpcServerMaxConnectionAge, []string{"DECKARD_GRPC_SERVER_MAX_CONNECTION_AGE"}, "d", ""},
	{config.GrpcServerMaxConnectionAgeGrace, []string{"DECKARD_GRPC_SERVER_MAX_CONNECTION_AGE_GRACE"}, "d", ""},
	{config.GrpcServerMaxRecvMsgSize, []string{"DECKARD_GRPC_SERVER_MAX_RECV_MSG_SIZE"}, "i", "4194304"},
	{config.GrpcServerMaxSendMsgSize, []string{"DECKARD_GRPC_SERVER_MAX_SEND_MSG_SIZE"}, "i", "4194304"},
	{config.TlsServerCertFilePaths, []string{"DECKARD_TLS_SERVER_CERT_FILE_PATHS"}, "s", ""},
	{config.TlsServerKeyFilePaths, []string{"DECKARD_TLS_SERVER_KEY_FILE_PATHS"}, "s", ""},
	{config.TlsClientCertFilePaths, []string{"DECKARD_TLS_CLIENT_CERT_FILE_PATHS"}, "s", ""},
	{config.TlsClientAuthType, []string{"DECKARD_TLS_CLIENT_AUTH_TYPE"}, "s", "NoClientCert"},
	{config.StorageType, []string{"DECKARD_STORAGE_TYPE"}, "s", "MEMORY"},
	{config.StorageUri, []string{"DECKARD_STORAGE_URI", "DECKARD_MONGO_URI", "DECKARD_MONGODB_URI"}, "s", ""},
	{config.StorageConnectionRetryEnabled, []string{"DECKARD_STORAGE_CONNECTION_RETRY_ENABLED"}, "b", "true"},
	{config.StorageConnectionRetryAttempts, []string{"DECKARD_STORAGE_CONNECTION_RETRY_ATTEMPTS"}, "i", "10"},
	{config.StorageConnectionRetryDelay, []string{"DECKARD_STORAGE_CONNECTION_RETRY_DELAY"}, "d", "5s"},
	{config.MongoDatabase, []string{"DECKARD_MONGO_DATABASE", "DECKARD_MONGODB_DATABASE"}, "s", "deckard"},
	{config.MongoCollection, []string{"DECKARD_MONGO_COLLECTION", "DECKARD_MONGODB_COLLECTION"}, "s", "queue"},
	{config.MongoQueueConfigurationCollection, []string{"DECKARD_MONGO_QUEUE_CONFIGURATION_COLLECTION", "DECKARD_MONGODB_QUEUE_CONFIGURATION_COLLECTION"}, "s", "queue_configuration"},
}

func read(k config.ConfigKey, kind string) string {
	switch kind {
	case "b":
		return strconv.FormatBool(k.GetBool())
	case "i":
		return strconv.Itoa(k.GetInt())
	case "d":
		return k.GetDuration().String()
	}
	return k.Get()
}

func canon(kind, v string) (string, bool) {
	switch kind {
	case "b":
		b, err := strconv.ParseBool(v)
		return strconv.FormatBool(b), err == nil
	case "i":
		n, err := strconv.Atoi(v)
		return strconv.Itoa(n), err == nil
	case "d":
		d, err := time.ParseDuration(v)
		return d.String(), err == nil
	}
	return v, true
}

func defOf(s setting) string {
	if s.def == "" {
		switch s.kind {
		case "b":
			return "false"
		case "i":
			return "0"
		case "d":
			return "0s"
		}
		return ""
	}
	v, _ := canon(s.kind, s.def)
	return v
}

func randValue(r *rand.Rand, kind string) string {
	switch kind {
	case "b":
		return []string{"true", "false", "1", "0", "TRUE", "False", "t", "f", "yes!", "maybe"}[r.IntN(10)]
	case "i":
		if r.IntN(6) == 0 {
			return []string{"abc", "12x", "eleven"}[r.IntN(3)]
		}
		return strconv.Itoa(r.IntN(100000) + 1)
	case "d":
		if r.IntN(6) == 0 {
			return []string{"bad", "5 lightyears", "s"}[r.IntN(3)]
		}
		u := []string{"ms", "s", "m", "h"}[r.IntN(4)]
		return strconv.Itoa(r.IntN(900)+1) + u
	}
	alpha := "abcXYZ019-_.:/@?=&, "
	n := r.IntN(14) + 1
	var b strings.Builder
	b.WriteByte('v')
	for i := 0; i < n; i++ {
		b.WriteByte(alpha[r.IntN(len(alpha))])
	}
	b.WriteByte('z')
	return b.String()
}

func clearEnv() {
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		u := strings.ToUpper(k)
		if strings.HasPrefix(u, "DECKARD") || u == "DEBUG" || u == "LOG_TYPE" {
			_ = os.Unsetenv(k)
		}
	}
	for _, s := range settings {
		for _, e := range s.env {
			_ = os.Unsetenv(strings.TrimPrefix(e, "DECKARD_"))
		}
	}
}

func init() {
	vk.Register(&vk.Check{
		Prop:   "C22",
		Rule:   "a case is one random assignment of environment variables (main names, aliases, unprefixed decoys, invalid values) and programmatic overrides over all documented settings, resolved through the real configuration package; non-trivial: at least one setting resolved to a non-default value or an invalid value was ignored; distinct by the resolved assignment",
		QuickS: 8, ThoroughS: 60,
		Run: runConfig,
	})
}

func runConfig(c *vk.Ctx) {
	for i := 0; i < c.N(6000, 60000) && !c.Over(); i++ {
		configCase(c, i)
	}
	clearEnv()
	// concurrent first use: every reader sees the fully configured values
	for i := 0; i < c.N(300, 3000) && !c.Past(1.2); i++ {
		_ = os.Setenv("DECKARD_GRPC_PORT", strconv.Itoa(9000+i))
		var wg sync.WaitGroup
		config.Configure(true)
		for g := 0; g < 4; g++ {
			wg.Add(1)
			go func() { defer wg.Done(); config.Configure() }()
		}
		wg.Wait()
		if got := config.GrpcPort.GetInt(); got != 9000+i {
			c.Violation("concurrent", i, "DECKARD_GRPC_PORT=%d resolved to %d after concurrent configuration", 9000+i, got)
		}
		c.Eval(1)
	}
	clearEnv()
}

func configCase(c *vk.Ctx, i int) {
	r := c.Rand(uint64(i))
	clearEnv()
	env := map[string]string{}
	want := make([]string, len(settings))
	dens := []int{1, 2, 5, 12}[r.IntN(4)]
	nontrivial, hid := false, 0
	for j, s := range settings {
		want[j] = defOf(s)
		resolved := false
		for k, e := range s.env {
			if r.IntN(dens) != 0 {
				if r.IntN(8) == 0 && s.key != config.DebugEnabled && s.key != config.LogType { // decoy: no prefix
					env[strings.TrimPrefix(e, "DECKARD_")] = randValue(r, s.kind)
				}
				continue
			}
			v := randValue(r, s.kind)
			switch r.IntN(12) {
			case 0:
				v = "" // set but empty counts as not set
			case 1:
				v = s.def // the documented default does not hide an alias
			}
			env[e] = v
			if v == "" {
				continue
			}
			cv, ok := canon(s.kind, v)
			if !ok {
				nontrivial = true
				continue // cannot be parsed: never overrides
			}
			if cv == defOf(s) {
				if k < len(s.env)-1 {
					hid++
				}
				continue
			}
			if !resolved {
				want[j], resolved, nontrivial = cv, true, true
			}
		}
	}
	for k, v := range env {
		_ = os.Setenv(k, v)
	}
	kase := map[string]any{"i": i, "env": env}
	c.Guard("Configure", kase, func() { config.Configure(true) })
	if r.IntN(3) == 0 { // configuring again without a reset changes nothing
		config.Configure()
	}
	c.Count("variables with the default before another spelling", int64(hid))
	var sig []string
	for j, s := range settings {
		got := read(s.key, s.kind)
		c.Count("settings read", 1)
		if got != want[j] {
			c.Violation("resolve:"+s.env[0], kase, "%s resolved to %q, want %q (environment %v)", s.env[0], got, want[j], pick(env, s.env))
			return
		}
		if want[j] != defOf(s) {
			sig = append(sig, fmt.Sprint(j, want[j]))
		}
	}
	// programmatic override wins over everything, for every spelling
	for n := 0; n < 3; n++ {
		j := r.IntN(len(settings))
		s := settings[j]
		var v string
		for {
			v = randValue(r, s.kind)
			cv, ok := canon(s.kind, v)
			if ok {
				v = cv
				break
			}
		}
		if r.IntN(3) == 0 && (s.def != "" || s.kind == "s") { // also back to the documented default
			v = defOf(s)
			c.Count("settings set to the default by the program", 1)
		}
		x, _ := strconv.Atoi(v)
		b, _ := strconv.ParseBool(v)
		d, _ := time.ParseDuration(v)
		text := r.IntN(3) == 0
		switch {
		case s.kind == "b" && !text:
			s.key.Set(b)
		case s.kind == "i" && !text:
			s.key.Set(x)
		case s.kind == "d" && !text:
			s.key.Set(d)
		default:
			s.key.Set(v)
		}
		if got := read(s.key, s.kind); got != v {
			c.Violation("override:"+s.env[0], kase, "%s set to %q reads %q", s.env[0], v, got)
			return
		}
	}
	// a reset drops overrides and re-reads the environment
	config.Configure(true)
	for j, s := range settings {
		if got := read(s.key, s.kind); got != want[j] {
			c.Violation("reset:"+s.env[0], kase, "%s is %q after a reset, want %q", s.env[0], got, want[j])
			return
		}
	}
	c.Eval(1)
	if nontrivial {
		sort.Strings(sig)
		c.Distinct(strings.Join(sig, "|"))
	}
	if i < 2 {
		c.Sample(kase)
	}
}

func pick(env map[string]string, keys []string) map[string]string {
	m := map[string]string{}
	for _, k := range keys {
		if v, ok := env[k]; ok {
			m[k] = v
		}
	}
	return m
}
