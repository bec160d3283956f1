package semconv

import "go.opentelemetry.io/otel/attribute"

const SchemaURL = "https://opentelemetry.io/schemas/1.24.0"

const (
	ServiceNameKey            = attribute.Key("service.name")
	ServiceVersionKey         = attribute.Key("service.version")
	ServiceNamespaceKey       = attribute.Key("service.namespace")
	ServiceInstanceIDKey      = attribute.Key("service.instance.id")
	DeploymentEnvironmentKey  = attribute.Key("deployment.environment")
	HostNameKey               = attribute.Key("host.name")
	ExceptionTypeKey          = attribute.Key("exception.type")
	ExceptionMessageKey       = attribute.Key("exception.message")
	ExceptionStacktraceKey    = attribute.Key("exception.stacktrace")
	HTTPResponseStatusCodeKey = attribute.Key("http.response.status_code")
	ExceptionEventName        = "exception"
)

func ServiceName(v string) attribute.KeyValue         { return ServiceNameKey.String(v) }
func ServiceVersion(v string) attribute.KeyValue      { return ServiceVersionKey.String(v) }
func ExceptionType(v string) attribute.KeyValue       { return ExceptionTypeKey.String(v) }
func ExceptionMessage(v string) attribute.KeyValue    { return ExceptionMessageKey.String(v) }
func ExceptionStacktrace(v string) attribute.KeyValue { return ExceptionStacktraceKey.String(v) }
func HTTPResponseStatusCode(v int) attribute.KeyValue { return HTTPResponseStatusCodeKey.Int(v) }
