module go.opentelemetry.io/otel/sdk/metric

go 1.25.0

require (
	go.opentelemetry.io/otel v1.44.1-0.20260626205805-41ff5ed18bec
	go.opentelemetry.io/otel/metric v1.44.1-0.20260625150014-c84013202f01
	go.opentelemetry.io/otel/sdk v1.44.1-0.20260625150014-c84013202f01
)
