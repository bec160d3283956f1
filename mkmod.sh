#!/bin/bash
# mkmod.sh OUTDIR: writes OUTDIR/go.mod and go.sum, /repo's plus the offline stand-ins.
set -e
out=$1; repo=${2:-/repo}; here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$out"
cp "$repo/go.mod" "$out/go.mod"; cp "$repo/go.sum" "$out/go.sum"
S=$here/stubs
cat >> "$out/go.mod" <<X

replace (
	go.opentelemetry.io/otel => $S/otel
	go.opentelemetry.io/otel/sdk => $S/sdk
	go.opentelemetry.io/otel/sdk/metric => $S/sdkmetric
	go.opentelemetry.io/otel/exporters/prometheus => $S/promexp
	go.opentelemetry.io/otel/exporters/otlp/otlptrace => $S/otlptrace
	go.opentelemetry.io/otel/exporters/otlp/otlptrace/otlptracegrpc => $S/otlptracegrpc
	go.opentelemetry.io/contrib/instrumentation/google.golang.org/grpc/otelgrpc => $S/otelgrpc
	go.opentelemetry.io/contrib/instrumentation/go.mongodb.org/mongo-driver/v2/mongo/otelmongo => $S/otelmongo
	github.com/redis/go-redis/extra/redisotel/v9 => $S/redisotel
)
X
