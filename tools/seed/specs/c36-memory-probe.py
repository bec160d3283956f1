id='c36-memory-probe'; prop='C36'; bin=True
needs='a release whose cache and storage are both MEMORY'
breaks='the service never reports itself as serving when nothing but memory is used, so Kubernetes restarts its containers for ever'
edits=[('internal/service/deckard_service.go','''		d.healthServer.SetServingStatus(
			"",
			grpchealth.HealthCheckResponse_SERVING,
		)

		serveErr''','''		overall := grpchealth.HealthCheckResponse_NOT_SERVING
		if !d.memoryInstance {
			overall = grpchealth.HealthCheckResponse_SERVING
		}

		d.healthServer.SetServingStatus("", overall)

		serveErr''')]
demo='''
package zdemo

import (
	"testing"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials/insecure"
	"google.golang.org/grpc/health/grpc_health_v1"
)

func TestDemo(t *testing.T) {
	p := boot(t, "DECKARD_CACHE_TYPE=MEMORY", "DECKARD_STORAGE_TYPE=MEMORY")
	c, err := grpc.NewClient(p.addr, grpc.WithTransportCredentials(insecure.NewCredentials()))
	if err != nil {
		t.Fatal(err)
	}
	defer c.Close()
	for end := time.Now().Add(20 * time.Second); ; time.Sleep(50 * time.Millisecond) {
		r, err := grpc_health_v1.NewHealthClient(c).Check(ctx, &grpc_health_v1.HealthCheckRequest{})
		if err == nil && r.Status == grpc_health_v1.HealthCheckResponse_SERVING {
			return
		}
		if time.Now().After(end) {
			t.Fatal("the probe never succeeds: ", r, err)
		}
	}
}
'''
