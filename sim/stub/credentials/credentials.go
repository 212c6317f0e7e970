// Package credentials stands in for google.golang.org/grpc/credentials.
package credentials

import (
	"crypto/tls"
	"crypto/x509"
)

// ProtocolInfo describes a transport.
type ProtocolInfo struct {
	ProtocolVersion  string
	SecurityProtocol string
	SecurityVersion  string
	ServerName       string
}

// TransportCredentials secure a connection.
type TransportCredentials interface {
	Info() ProtocolInfo
	Clone() TransportCredentials
	OverrideServerName(string) error
}

// PerRPCCredentials attach to each call.
type PerRPCCredentials interface{ RequireTransportSecurity() bool }

type creds struct{ cfg *tls.Config }

func (c *creds) Info() ProtocolInfo {
	return ProtocolInfo{SecurityProtocol: "tls", SecurityVersion: "1.2", ServerName: c.cfg.ServerName}
}
func (c *creds) Clone() TransportCredentials       { return &creds{c.cfg.Clone()} }
func (c *creds) OverrideServerName(s string) error { c.cfg.ServerName = s; return nil }

// Config returns the TLS configuration behind t.
func Config(t TransportCredentials) *tls.Config {
	if c, ok := t.(*creds); ok {
		return c.cfg
	}
	return nil
}

func NewTLS(c *tls.Config) TransportCredentials {
	if c == nil {
		c = &tls.Config{}
	}
	return &creds{c.Clone()}
}

func NewClientTLSFromCert(cp *x509.CertPool, serverName string) TransportCredentials {
	return NewTLS(&tls.Config{ServerName: serverName, RootCAs: cp})
}
