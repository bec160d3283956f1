package redisotel

import "github.com/redis/go-redis/v9"

type TracingOption interface{ tracing() }
type MetricsOption interface{ metrics() }

func InstrumentTracing(_ redis.UniversalClient, _ ...TracingOption) error { return nil }
func InstrumentMetrics(_ redis.UniversalClient, _ ...MetricsOption) error { return nil }
