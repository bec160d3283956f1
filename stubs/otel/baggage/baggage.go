package baggage

import "context"

type Baggage struct{}

func ContextWithBaggage(ctx context.Context, _ Baggage) context.Context { return ctx }
func ContextWithoutBaggage(ctx context.Context) context.Context         { return ctx }
func FromContext(context.Context) Baggage                               { return Baggage{} }
