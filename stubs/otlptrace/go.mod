module go.opentelemetry.io/otel/exporters/otlp/otlptrace

go 1.25.0

require go.opentelemetry.io/otel/sdk v1.44.1-0.20260625150014-c84013202f01
