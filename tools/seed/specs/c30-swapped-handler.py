id='c30-swapped-handler'; prop='C30'
needs='a server with a unary interceptor (the one of the running service has none)'
breaks='a nack that passes an interceptor runs the handler of acks'
edits=[('deckard_service_grpc.pb.go','		return srv.(DeckardServer).Nack(ctx, req.(*AckRequest))','		return srv.(DeckardServer).Ack(ctx, req.(*AckRequest))')]
demo='''
package zdemo

import (
	"context"
	"net"
	"testing"

	"github.com/takenet/deckard"
	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials/insecure"
)

type srv struct {
	deckard.UnimplementedDeckardServer
	got string
}

func (s *srv) Ack(context.Context, *deckard.AckRequest) (*deckard.AckResponse, error) {
	s.got = "ack"
	return &deckard.AckResponse{}, nil
}

func (s *srv) Nack(context.Context, *deckard.AckRequest) (*deckard.AckResponse, error) {
	s.got = "nack"
	return &deckard.AckResponse{}, nil
}

func TestDemo(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	g := grpc.NewServer(grpc.UnaryInterceptor(func(c context.Context, r any, _ *grpc.UnaryServerInfo, h grpc.UnaryHandler) (any, error) { return h(c, r) }))
	s := &srv{}
	deckard.RegisterDeckardServer(g, s)
	go g.Serve(l)
	defer g.Stop()
	c, err := grpc.NewClient(l.Addr().String(), grpc.WithTransportCredentials(insecure.NewCredentials()))
	if err != nil {
		t.Fatal(err)
	}
	defer c.Close()
	if _, err := deckard.NewDeckardClient(c).Nack(ctx, &deckard.AckRequest{}); err != nil || s.got != "nack" {
		t.Fatal(s.got, err)
	}
}
'''
