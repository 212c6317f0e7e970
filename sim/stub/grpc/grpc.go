// Package grpc stands in for google.golang.org/grpc: calls go over the simulated
// network (simverif/netsim). The message is marshalled when the call is made, as
// the real client does.
package grpc

import (
	"context"
	"errors"
	"time"

	"github.com/golang/protobuf/proto"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"

	"simverif/netsim"
	"simverif/rt"
	"simverif/stub/credentials"
)

const (
	SupportPackageIsVersion3 = true
	SupportPackageIsVersion4 = true
	SupportPackageIsVersion5 = true
	Version                  = "1.25.1"
)

type dialOptions struct {
	insecure bool
	creds    credentials.TransportCredentials
	block    bool
	timeout  time.Duration
	unary    []UnaryClientInterceptor
}

// DialOption configures a connection.
type DialOption interface{ apply(*dialOptions) }

type optFunc func(*dialOptions)

func (f optFunc) apply(o *dialOptions) { f(o) }

func WithInsecure() DialOption { return optFunc(func(o *dialOptions) { o.insecure = true }) }
func WithTransportCredentials(c credentials.TransportCredentials) DialOption {
	return optFunc(func(o *dialOptions) { o.creds = c })
}
func WithBlock() DialOption { return optFunc(func(o *dialOptions) { o.block = true }) }
func WithTimeout(d time.Duration) DialOption {
	return optFunc(func(o *dialOptions) { o.timeout = d })
}
func WithUnaryInterceptor(f UnaryClientInterceptor) DialOption {
	return optFunc(func(o *dialOptions) { o.unary = append(o.unary, f) })
}
func WithUserAgent(string) DialOption                 { return optFunc(func(*dialOptions) {}) }
func WithBackoffMaxDelay(time.Duration) DialOption    { return optFunc(func(*dialOptions) {}) }
func FailOnNonTempDialError(bool) DialOption          { return optFunc(func(*dialOptions) {}) }
func WithDefaultCallOptions(...CallOption) DialOption { return optFunc(func(*dialOptions) {}) }
func WithAuthority(string) DialOption                 { return optFunc(func(*dialOptions) {}) }
func WithDisableRetry() DialOption                    { return optFunc(func(*dialOptions) {}) }
func WithPerRPCCredentials(credentials.PerRPCCredentials) DialOption {
	return optFunc(func(*dialOptions) {})
}

// CallOption configures a call.
type CallOption interface{ call(*callInfo) }

type callInfo struct{ waitForReady bool }

type callFunc func(*callInfo)

func (f callFunc) call(c *callInfo) { f(c) }

func WaitForReady(b bool) CallOption    { return callFunc(func(c *callInfo) { c.waitForReady = b }) }
func FailFast(b bool) CallOption        { return WaitForReady(!b) }
func MaxCallRecvMsgSize(int) CallOption { return callFunc(func(*callInfo) {}) }
func MaxCallSendMsgSize(int) CallOption { return callFunc(func(*callInfo) {}) }
func UseCompressor(string) CallOption   { return callFunc(func(*callInfo) {}) }

// UnaryInvoker and UnaryClientInterceptor are as in grpc.
type UnaryInvoker func(ctx context.Context, method string, req, reply interface{}, cc *ClientConn, opts ...CallOption) error
type UnaryClientInterceptor func(ctx context.Context, method string, req, reply interface{}, cc *ClientConn, invoker UnaryInvoker, opts ...CallOption) error

// ClientConn is a connection to a server.
type ClientConn struct {
	target string
	opts   dialOptions
	closed bool
}

var (
	errNoSecurity        = errors.New("grpc: no transport security set (use grpc.WithInsecure() explicitly or set credentials)")
	errConflict          = errors.New("grpc: transport credentials are set for an insecure connection (grpc.WithTransportCredentials() and grpc.WithInsecure() are both called)")
	ErrClientConnClosing = status.Error(codes.Canceled, "grpc: the client connection is closing")
	ErrClientConnTimeout = errors.New("grpc: timed out when dialing")
)

func Dial(target string, opts ...DialOption) (*ClientConn, error) {
	return DialContext(context.Background(), target, opts...)
}

func DialContext(ctx context.Context, target string, opts ...DialOption) (*ClientConn, error) {
	rt.Sync("dial", nil)
	c := &ClientConn{target: target}
	for _, o := range opts {
		o.apply(&c.opts)
	}
	if !c.opts.insecure && c.opts.creds == nil {
		return nil, errNoSecurity
	}
	if c.opts.insecure && c.opts.creds != nil {
		return nil, errConflict
	}
	return c, nil
}

func (c *ClientConn) Close() error {
	rt.Sync("conn.close", nil)
	if c.closed {
		return ErrClientConnClosing
	}
	c.closed = true
	return nil
}

func (c *ClientConn) Target() string { return c.target }

func (c *ClientConn) Invoke(ctx context.Context, method string, args, reply interface{}, opts ...CallOption) error {
	if len(c.opts.unary) > 0 {
		return c.opts.unary[len(c.opts.unary)-1](ctx, method, args, reply, c, func(ctx context.Context, m string, a, r interface{}, cc *ClientConn, o ...CallOption) error {
			return cc.invoke(ctx, m, a, r, o...)
		}, opts...)
	}
	return c.invoke(ctx, method, args, reply, opts...)
}

func (c *ClientConn) invoke(ctx context.Context, method string, args, reply interface{}, opts ...CallOption) error {
	rt.Sync("invoke", nil)
	if c.closed {
		return ErrClientConnClosing
	}
	if ctx.Err() != nil {
		return ctxErr(ctx)
	}
	raw, err := proto.Marshal(args.(proto.Message))
	if err != nil {
		return status.Errorf(codes.Internal, "grpc: error while marshaling: %v", err)
	}
	ci := &callInfo{}
	for _, o := range opts {
		o.call(ci)
	}
	secure := c.opts.creds != nil
	skip := false
	if secure {
		if cfg := credentials.Config(c.opts.creds); cfg != nil {
			skip = cfg.InsecureSkipVerify
		}
	}
	var rej netsim.Rejected
	for {
		ok, err := netsim.N().Call(c.target, method, secure, skip, raw, ctx.Done())
		switch {
		case err == nil:
			b, merr := proto.Marshal(&ack{Success: ok})
			if merr != nil {
				panic(merr)
			}
			return proto.Unmarshal(b, reply.(proto.Message))
		case errors.Is(err, netsim.ErrCtx):
			return ctxErr(ctx)
		case errors.As(err, &rej):
			return status.Error(rej.Code, err.Error())
		}
		if !ci.waitForReady {
			return status.Error(codes.Unavailable, err.Error())
		}
		tm := rt.NewTimer(time.Second)
		if rt.Select(false, rt.RecvCase(tm.C), rt.RecvCase(ctx.Done())) == 1 {
			return ctxErr(ctx)
		}
	}
}

func ctxErr(ctx context.Context) error {
	if ctx.Err() == context.DeadlineExceeded {
		return status.Error(codes.DeadlineExceeded, ctx.Err().Error())
	}
	return status.Error(codes.Canceled, "context canceled")
}

// ack is wire-compatible with the acknowledgement message.
type ack struct {
	Success bool `protobuf:"varint,1,opt,name=success,proto3"`
}

func (m *ack) Reset()         { *m = ack{} }
func (m *ack) String() string { return proto.CompactTextString(m) }
func (*ack) ProtoMessage()    {}

// --- server side: types only -----------------------------------------------------

type Server struct{}

func (s *Server) RegisterService(sd *ServiceDesc, ss interface{}) {}

type UnaryServerInfo struct {
	Server     interface{}
	FullMethod string
}
type UnaryHandler func(ctx context.Context, req interface{}) (interface{}, error)
type UnaryServerInterceptor func(ctx context.Context, req interface{}, info *UnaryServerInfo, handler UnaryHandler) (resp interface{}, err error)
type methodHandler func(srv interface{}, ctx context.Context, dec func(interface{}) error, interceptor UnaryServerInterceptor) (interface{}, error)
type MethodDesc struct {
	MethodName string
	Handler    methodHandler
}
type StreamDesc struct {
	StreamName    string
	ServerStreams bool
	ClientStreams bool
}
type ServiceDesc struct {
	ServiceName string
	HandlerType interface{}
	Methods     []MethodDesc
	Streams     []StreamDesc
	Metadata    interface{}
}
