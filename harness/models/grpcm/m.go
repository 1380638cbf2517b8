// Package grpcm models gRPC connections: a message goes over as its encoding,
// an error as its code and text.
package grpcm

import (
	"context"
	"crypto/tls"
	"errors"
	"net"
	"strings"

	"gosymharness/models/tlsm"

	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/credentials"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
)

type service struct {
	desc *grpc.ServiceDesc
	impl any
}

var (
	targets  = map[*grpc.ClientConn]string{}
	services = map[*grpc.Server][]service{}
	serving  = map[string]*grpc.Server{}
	secure   = map[*grpc.Server]*tls.Config{}
	trusts   = map[*grpc.ClientConn]*tls.Config{}
)

type serverCreds struct {
	grpc.EmptyServerOption
	cfg *tls.Config
}

type dialCreds struct {
	grpc.EmptyDialOption
	cfg *tls.Config
}

// Creds models grpc.Creds.
func Creds(c credentials.TransportCredentials) grpc.ServerOption {
	return &serverCreds{cfg: tlsm.Config(c)}
}

// WithTransportCredentials models grpc.WithTransportCredentials.
func WithTransportCredentials(c credentials.TransportCredentials) grpc.DialOption {
	return &dialCreds{cfg: tlsm.Config(c)}
}

// WithInsecure models grpc.WithInsecure.
func WithInsecure() grpc.DialOption { return &dialCreds{} }

// NewServer models grpc.NewServer.
func NewServer(opts ...grpc.ServerOption) *grpc.Server {
	s := &grpc.Server{}
	for _, o := range opts {
		if c, ok := o.(*serverCreds); ok {
			secure[s] = c.cfg
		}
	}
	return s
}

// RegisterService models (*grpc.Server).RegisterService.
func RegisterService(s *grpc.Server, desc *grpc.ServiceDesc, impl any) {
	services[s] = append(services[s], service{desc, impl})
}

// Serve models (*grpc.Server).Serve.
func Serve(s *grpc.Server, l net.Listener) error {
	serving[l.(*tlsm.Listener).Address] = s
	if c := l.(*tlsm.Listener).Cfg; c != nil {
		secure[s] = c
	}
	select {}
}

// Dial models grpc.Dial and grpc.NewClient.
func Dial(target string, opts ...grpc.DialOption) (*grpc.ClientConn, error) {
	set := false
	c := &grpc.ClientConn{}
	for _, o := range opts {
		if d, ok := o.(*dialCreds); ok {
			set = true
			trusts[c] = d.cfg
		}
	}
	if !set {
		return nil, errors.New("grpc: no transport security set")
	}
	targets[c] = target
	return c, nil
}

func ended(err error) error {
	if errors.Is(err, context.DeadlineExceeded) {
		return status.Error(codes.DeadlineExceeded, err.Error())
	}
	return status.Error(codes.Canceled, err.Error())
}

// served runs the handler, unless the context ends first.
func served(ctx context.Context, f func() (any, error)) (any, error) {
	if ctx.Done() == nil {
		return f()
	}
	type result struct {
		r   any
		err error
	}
	c := make(chan result, 1)
	go func() {
		r, err := f()
		c <- result{r, err}
	}()
	select {
	case x := <-c:
		return x.r, x.err
	case <-ctx.Done():
		return nil, ended(ctx.Err())
	}
}

// Invoke models (*grpc.ClientConn).Invoke.
func Invoke(c *grpc.ClientConn, ctx context.Context, method string, args, reply any, opts ...grpc.CallOption) error {
	if err := ctx.Err(); err != nil {
		return ended(err)
	}
	s := serving[targets[c]]
	if s == nil {
		return status.Error(codes.Unavailable, "connection refused")
	}
	host := "localhost"
	if !strings.HasPrefix(targets[c], "unix:") {
		host = targets[c][:strings.LastIndex(targets[c], ":")]
	}
	if !tlsm.Works(trusts[c], host, secure[s]) {
		return status.Error(codes.Unavailable, "connection error")
	}
	wire, err := proto.Marshal(args.(proto.Message))
	if err != nil {
		return status.Error(codes.Internal, err.Error())
	}
	i := strings.LastIndex(method, "/")
	for _, x := range services[s] {
		if "/"+x.desc.ServiceName != method[:i] {
			continue
		}
		for _, m := range x.desc.Methods {
			if m.MethodName != method[i+1:] {
				continue
			}
			r, err := served(ctx, func() (any, error) {
				return m.Handler(x.impl, context.Background(), func(v any) error { return proto.Unmarshal(wire, v.(proto.Message)) }, nil)
			})
			if err != nil {
				if st, ok := status.FromError(err); ok {
					return status.Error(st.Code(), st.Message())
				}
				return status.Error(codes.Unknown, err.Error())
			}
			back, err := proto.Marshal(r.(proto.Message))
			if err != nil {
				return status.Error(codes.Internal, err.Error())
			}
			return proto.Unmarshal(back, reply.(proto.Message))
		}
	}
	return status.Error(codes.Unimplemented, "unknown method "+method)
}
