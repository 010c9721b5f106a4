package main

import (
	"context"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"net"
	"time"

	"github.com/jaegertracing/jaeger/proto-gen/api_v3"
	common "github.com/jaegertracing/jaeger/proto-gen/otel/common/v1"
	resource "github.com/jaegertracing/jaeger/proto-gen/otel/resource/v1"
	trace "github.com/jaegertracing/jaeger/proto-gen/otel/trace/v1"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
)

type JSpan struct {
	Trace  string                 `json:"trace"`
	ID     string                 `json:"id"`
	Parent string                 `json:"parent"`
	Name   string                 `json:"name"`
	Start  uint64                 `json:"start"`
	End    uint64                 `json:"end"`
	Attrs  map[string]interface{} `json:"attrs"`
}

type JGroup struct {
	Service    *string   `json:"service"`
	NoResource bool      `json:"noresource"`
	Extra      bool      `json:"extra"` // other resource attributes before service.name
	Libs       [][]JSpan `json:"libs"`
}

type JChunk struct {
	At     int64    `json:"at"`  // unix seconds at which the trace is found
	At2    int64    `json:"at2"` // second instant at which the trace is found (0: none)
	Groups []JGroup `json:"groups"`
}

type JaegerSpec struct {
	Chunks    []JChunk `json:"chunks"`
	FailAfter int      `json:"failafter"` // with a fault "err": chunks sent before the error
}

type jaegerStand struct {
	l   net.Listener
	srv *grpc.Server
	rec *Rec
	api_v3.QueryServiceServer
}

func (s *jaegerStand) Addr() string { return s.l.Addr().String() }
func (s *jaegerStand) Close()       { s.srv.Stop() }

func startJaeger(rec *Rec) (Stand, error) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return nil, err
	}
	s := &jaegerStand{l: l, rec: rec, srv: grpc.NewServer()}
	api_v3.RegisterQueryServiceServer(s.srv, s)
	go s.srv.Serve(l)
	return s, nil
}

func (s *jaegerStand) GetServices(ctx context.Context, r *api_v3.GetServicesRequest) (*api_v3.GetServicesResponse, error) {
	i, _ := s.rec.begin(Event{Kind: "other", Text: "GetServices"})
	s.rec.end(i, "ok", true)
	return &api_v3.GetServicesResponse{}, nil
}

func anyValue(v interface{}) *common.AnyValue {
	switch x := v.(type) {
	case nil:
		return &common.AnyValue{} // an attribute without a value
	case string:
		return &common.AnyValue{Value: &common.AnyValue_StringValue{StringValue: x}}
	case bool:
		return &common.AnyValue{Value: &common.AnyValue_BoolValue{BoolValue: x}}
	case float64:
		if x == float64(int64(x)) {
			return &common.AnyValue{Value: &common.AnyValue_IntValue{IntValue: int64(x)}}
		}
		return &common.AnyValue{Value: &common.AnyValue_DoubleValue{DoubleValue: x}}
	case []interface{}:
		a := &common.ArrayValue{}
		for _, e := range x {
			a.Values = append(a.Values, anyValue(e))
		}
		return &common.AnyValue{Value: &common.AnyValue_ArrayValue{ArrayValue: a}}
	case map[string]interface{}:
		if b, ok := x["bytes"].(string); ok {
			return &common.AnyValue{Value: &common.AnyValue_BytesValue{BytesValue: []byte(b)}}
		}
		a := &common.KeyValueList{}
		for k, e := range x {
			a.Values = append(a.Values, &common.KeyValue{Key: k, Value: anyValue(e)})
		}
		return &common.AnyValue{Value: &common.AnyValue_KvlistValue{KvlistValue: a}}
	}
	return &common.AnyValue{Value: &common.AnyValue_StringValue{StringValue: ""}}
}

func unhex(s string) []byte {
	b, _ := hex.DecodeString(s)
	if len(b) == 0 {
		return nil
	}
	return b
}

func (s *jaegerStand) chunk(c *JChunk) *api_v3.SpansResponseChunk {
	res := &api_v3.SpansResponseChunk{}
	for _, g := range c.Groups {
		rs := &trace.ResourceSpans{}
		if !g.NoResource {
			rs.Resource = &resource.Resource{}
			if g.Extra {
				rs.Resource.Attributes = append(rs.Resource.Attributes,
					&common.KeyValue{Key: "service.namespace", Value: anyValue("ns")},
					&common.KeyValue{Key: "host.name", Value: anyValue("h")})
			}
			if g.Service != nil {
				rs.Resource.Attributes = append(rs.Resource.Attributes, &common.KeyValue{Key: "service.name", Value: anyValue(*g.Service)})
			}
			if g.Extra {
				rs.Resource.Attributes = append(rs.Resource.Attributes, &common.KeyValue{Key: "service.version", Value: anyValue("v")})
			}
		}
		for _, lib := range g.Libs {
			ls := &trace.InstrumentationLibrarySpans{}
			for _, sp := range lib {
				ps := &trace.Span{
					TraceId: unhex(sp.Trace), SpanId: unhex(sp.ID), ParentSpanId: unhex(sp.Parent),
					Name: sp.Name, StartTimeUnixNano: sp.Start, EndTimeUnixNano: sp.End,
				}
				for k, v := range sp.Attrs {
					ps.Attributes = append(ps.Attributes, &common.KeyValue{Key: k, Value: anyValue(v)})
				}
				ls.Spans = append(ls.Spans, ps)
			}
			rs.InstrumentationLibrarySpans = append(rs.InstrumentationLibrarySpans, ls)
		}
		res.ResourceSpans = append(res.ResourceSpans, rs)
	}
	return res
}

func (s *jaegerStand) FindTraces(req *api_v3.FindTracesRequest, stream api_v3.QueryService_FindTracesServer) error {
	q := req.GetQuery()
	body, _ := json.Marshal(map[string]interface{}{
		"service": q.GetServiceName(), "min_s": q.GetStartTimeMin().GetSeconds(), "min_n": q.GetStartTimeMin().GetNanos(),
		"max_s": q.GetStartTimeMax().GetSeconds(), "max_n": q.GetStartTimeMax().GetNanos(),
		"num": q.GetNumTraces(), "dmin_s": q.GetDurationMin().GetSeconds(), "dmin_n": q.GetDurationMin().GetNanos(),
		"dmax_s": q.GetDurationMax().GetSeconds(), "op": q.GetOperationName(), "nattr": len(q.GetAttributes()),
	})
	i, f := s.rec.begin(Event{Kind: "find", Body: body})
	if f != nil && f.Ms > 0 {
		time.Sleep(time.Duration(f.Ms) * time.Millisecond)
	}
	var out []*JChunk
	lo, hi := q.GetStartTimeMin().GetSeconds(), q.GetStartTimeMax().GetSeconds()
	for k := range s.rec.sc.Server.Jaeger.Chunks {
		c := &s.rec.sc.Server.Jaeger.Chunks[k]
		in := func(t int64) bool { return t >= lo && t < hi }
		if in(c.At) || c.At2 != 0 && in(c.At2) {
			out = append(out, c)
		}
	}
	if f != nil && f.Mode != "" {
		for k := 0; k < s.rec.sc.Server.Jaeger.FailAfter && k < len(out); k++ {
			stream.Send(s.chunk(out[k]))
		}
		s.rec.end(i, "err", false)
		if f.Mode == "close" {
			s.srv.Stop()
			return fmt.Errorf("closed")
		}
		return status.Error(codes.Internal, "stand-in error")
	}
	for _, c := range out {
		if err := stream.Send(s.chunk(c)); err != nil {
			return err
		}
	}
	s.rec.end(i, "ok", true)
	return nil
}
