module go.opentelemetry.io/contrib/instrumentation/google.golang.org/grpc/otelgrpc

go 1.25.0

require google.golang.org/grpc v1.82.0

require (
	go.opentelemetry.io/otel v1.44.1-0.20260626205805-41ff5ed18bec
	go.opentelemetry.io/otel/trace v1.44.1-0.20260625150014-c84013202f01
)
