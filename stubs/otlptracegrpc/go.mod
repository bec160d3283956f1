module go.opentelemetry.io/otel/exporters/otlp/otlptrace/otlptracegrpc

go 1.25.0

require go.opentelemetry.io/otel/exporters/otlp/otlptrace v1.44.0
