module go.opentelemetry.io/otel/exporters/prometheus

go 1.25.0

require (
	github.com/prometheus/client_golang v1.23.2
	go.opentelemetry.io/otel/sdk/metric v1.44.1-0.20260625150014-c84013202f01
)
