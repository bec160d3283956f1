module go.opentelemetry.io/otel

go 1.25.0

require (
	go.opentelemetry.io/otel/metric v1.44.1-0.20260625150014-c84013202f01
	go.opentelemetry.io/otel/trace v1.44.1-0.20260625150014-c84013202f01
)
