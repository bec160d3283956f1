id='c33-one-size'; prop='C33'; bin=True
needs='a larger limit for sent than for received gRPC messages'
breaks='the limit of received messages is raised to the one configured for sent ones'
edits=[('internal/service/deckard_service.go','grpc.MaxRecvMsgSize(maxMsgRecvSize)','grpc.MaxRecvMsgSize(max(maxMsgRecvSize, maxMsgSendSize))')]
demo='''
package zdemo

import (
	"strings"
	"testing"

	"github.com/takenet/deckard"
)

func TestDemo(t *testing.T) {
	p := boot(t, "DECKARD_CACHE_TYPE=MEMORY", "DECKARD_STORAGE_TYPE=MEMORY", "DECKARD_GRPC_SERVER_MAX_RECV_MSG_SIZE=100000", "DECKARD_GRPC_SERVER_MAX_SEND_MSG_SIZE=1000000")
	a := m("a", 1, 0)
	a.Queue, a.StringPayload = "q", strings.Repeat("x", 50000)
	if _, err := p.cl.Add(ctx, &deckard.AddRequest{Messages: []*deckard.AddMessage{a}}); err != nil {
		t.Fatal(err)
	}
	a.StringPayload = strings.Repeat("x", 500000)
	if _, err := p.cl.Add(ctx, &deckard.AddRequest{Messages: []*deckard.AddMessage{a}}); err == nil {
		t.Fatal("a request above the configured size was accepted")
	}
}
'''
