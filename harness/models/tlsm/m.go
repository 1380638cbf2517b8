// Package tlsm models files, TLS with certificates that are known beforehand,
// and HTTP servers: what listens where, and who can talk to it.
package tlsm

import (
	"crypto/tls"
	"crypto/x509"
	"encoding/pem"
	"errors"
	"io/fs"
	"net"
	"net/http"
	"os"
	"strings"

	"google.golang.org/grpc/credentials"
	"google.golang.org/protobuf/proto"
)

// Files are the files there are.
var Files = map[string][]byte{}

// ReadFile models os.ReadFile.
func ReadFile(name string) ([]byte, error) {
	b, ok := Files[name]
	if !ok {
		return nil, &fs.PathError{Op: "open", Path: name, Err: os.ErrNotExist}
	}
	return append([]byte(nil), b...), nil
}

type info struct {
	fs.FileInfo
	name string
}

func (i *info) Name() string      { return i.name[strings.LastIndex(i.name, "/")+1:] }
func (i *info) Size() int64       { return int64(len(Files[i.name])) }
func (i *info) Mode() fs.FileMode { return 0600 }
func (i *info) IsDir() bool       { return false }

// Stat models os.Stat.
func Stat(name string) (fs.FileInfo, error) {
	if _, ok := Files[name]; !ok {
		return nil, &fs.PathError{Op: "stat", Path: name, Err: os.ErrNotExist}
	}
	return &info{name: name}, nil
}

// Known are the certificates there are, by their encoding, each with the encoding of its key.
var (
	Known = map[string]*x509.Certificate{}
	Keys  = map[string]string{}
	pools = map[*x509.CertPool]map[string]bool{}
)

// ParseCertificate models x509.ParseCertificate.
func ParseCertificate(der []byte) (*x509.Certificate, error) {
	c := Known[string(der)]
	if c == nil {
		return nil, errors.New("x509: malformed certificate")
	}
	return c, nil
}

// NewCertPool models x509.NewCertPool, and SystemCertPool an empty one of the system.
func NewCertPool() *x509.CertPool { return &x509.CertPool{} }

// SystemCertPool models x509.SystemCertPool.
func SystemCertPool() (*x509.CertPool, error) { return &x509.CertPool{}, nil }

// AddCert models (*x509.CertPool).AddCert.
func AddCert(p *x509.CertPool, c *x509.Certificate) {
	if c == nil {
		panic("adding nil Certificate to CertPool")
	}
	if pools[p] == nil {
		pools[p] = map[string]bool{}
	}
	pools[p][string(c.Raw)] = true
}

// AppendCertsFromPEM models (*x509.CertPool).AppendCertsFromPEM.
func AppendCertsFromPEM(p *x509.CertPool, b []byte) bool {
	ok := false
	for len(b) > 0 {
		var block *pem.Block
		block, b = pem.Decode(b)
		if block == nil {
			break
		}
		if block.Type != "CERTIFICATE" || len(block.Headers) != 0 {
			continue
		}
		c, err := ParseCertificate(block.Bytes)
		if err != nil {
			continue
		}
		AddCert(p, c)
		ok = true
	}
	return ok
}

// X509KeyPair models tls.X509KeyPair.
func X509KeyPair(cert, key []byte) (tls.Certificate, error) {
	var none tls.Certificate
	c, _ := pem.Decode(cert)
	k, _ := pem.Decode(key)
	if c == nil || c.Type != "CERTIFICATE" || k == nil || k.Type != "PRIVATE KEY" {
		return none, errors.New("tls: failed to find any PEM data")
	}
	if Known[string(c.Bytes)] == nil {
		return none, errors.New("x509: malformed certificate")
	}
	if Keys[string(c.Bytes)] != string(k.Bytes) {
		return none, errors.New("tls: private key does not match public key")
	}
	return tls.Certificate{Certificate: [][]byte{c.Bytes}}, nil
}

// LoadX509KeyPair models tls.LoadX509KeyPair.
func LoadX509KeyPair(cert, key string) (tls.Certificate, error) {
	c, err := ReadFile(cert)
	if err != nil {
		return tls.Certificate{}, err
	}
	k, err := ReadFile(key)
	if err != nil {
		return tls.Certificate{}, err
	}
	return X509KeyPair(c, k)
}

// Works says whether a client comes through to a server; nil is without TLS.
func Works(client *tls.Config, host string, server *tls.Config) bool {
	if client == nil || server == nil {
		return client == nil && server == nil
	}
	if len(server.Certificates) == 0 || server.ClientAuth >= tls.RequireAnyClientCert {
		return false
	}
	raw := server.Certificates[0].Certificate
	if client.VerifyPeerCertificate != nil && client.VerifyPeerCertificate(raw, nil) != nil {
		return false
	}
	if client.InsecureSkipVerify {
		return true
	}
	if client.RootCAs == nil || !pools[client.RootCAs][string(raw[0])] {
		return false
	}
	if client.ServerName != "" {
		host = client.ServerName
	}
	return host == "localhost" || host == "127.0.0.1" // the names in all of them
}

// Creds are the credentials of one end of a gRPC connection.
type Creds struct {
	credentials.TransportCredentials
	Cfg *tls.Config // nil without TLS
}

// Config gives the TLS configuration of credentials.
func Config(c credentials.TransportCredentials) *tls.Config {
	if x, ok := c.(*Creds); ok {
		return x.Cfg
	}
	panic("not modelled: these credentials")
}

// NewTLS models credentials.NewTLS.
func NewTLS(c *tls.Config) credentials.TransportCredentials {
	if c == nil {
		c = &tls.Config{}
	}
	return &Creds{Cfg: c}
}

// Insecure models insecure.NewCredentials.
func Insecure() credentials.TransportCredentials { return &Creds{} }

// Listener is a place where something listens.
type Listener struct {
	net.Listener
	Address string
	Cfg     *tls.Config
}

// Close models its closing.
func (l *Listener) Close() error { return nil }

// Listen models net.Listen.
func Listen(network, address string) (net.Listener, error) {
	if network == "unix" {
		address = "unix:" + address
	}
	return &Listener{Address: address}, nil
}

// NewListener models tls.NewListener.
func NewListener(l net.Listener, c *tls.Config) net.Listener {
	return &Listener{Address: l.(*Listener).Address, Cfg: c}
}

// ListenTLS models tls.Listen.
func ListenTLS(network, address string, c *tls.Config) (net.Listener, error) {
	l, _ := Listen(network, address)
	return NewListener(l, c), nil
}

// Site is what an HTTP server serves.
type Site struct {
	Handler http.Handler
	Cfg     *tls.Config
}

// Sites are the HTTP servers there are, by their address.
var Sites = map[string]*Site{}

func serve(address string, h http.Handler, c *tls.Config) error {
	Sites[address] = &Site{h, c}
	select {}
}

// ListenAndServe models http.ListenAndServe.
func ListenAndServe(address string, h http.Handler) error { return serve(address, h, nil) }

// ListenAndServeTLS models http.ListenAndServeTLS.
func ListenAndServeTLS(address, cert, key string, h http.Handler) error {
	c, err := LoadX509KeyPair(cert, key)
	if err != nil {
		return err
	}
	return serve(address, h, &tls.Config{Certificates: []tls.Certificate{c}})
}

// ServerListenAndServe models (*http.Server).ListenAndServe.
func ServerListenAndServe(s *http.Server) error { return serve(s.Addr, s.Handler, nil) }

func serverConfig(s *http.Server, cert, key string) (*tls.Config, error) {
	cfg := &tls.Config{}
	if s.TLSConfig != nil {
		cfg.Certificates, cfg.ClientAuth = s.TLSConfig.Certificates, s.TLSConfig.ClientAuth
	}
	if len(cfg.Certificates) > 0 && cert == "" && key == "" {
		return cfg, nil
	}
	c, err := LoadX509KeyPair(cert, key)
	if err != nil {
		return nil, err
	}
	cfg.Certificates = []tls.Certificate{c}
	return cfg, nil
}

// ServerListenAndServeTLS models (*http.Server).ListenAndServeTLS.
func ServerListenAndServeTLS(s *http.Server, cert, key string) error {
	c, err := serverConfig(s, cert, key)
	if err != nil {
		return err
	}
	return serve(s.Addr, s.Handler, c)
}

// ServerServe models (*http.Server).Serve.
func ServerServe(s *http.Server, l net.Listener) error {
	x := l.(*Listener)
	return serve(x.Address, s.Handler, x.Cfg)
}

// ServerServeTLS models (*http.Server).ServeTLS.
func ServerServeTLS(s *http.Server, l net.Listener, cert, key string) error {
	c, err := serverConfig(s, cert, key)
	if err != nil {
		return err
	}
	return serve(l.(*Listener).Address, s.Handler, c)
}

// Texts are the text forms of messages that there are.
var Texts = map[string]proto.Message{}

// UnmarshalText models prototext.Unmarshal.
func UnmarshalText(b []byte, m proto.Message) error {
	x := Texts[string(b)]
	if x == nil {
		return errors.New("proto: syntax error")
	}
	w, err := proto.Marshal(x)
	if err != nil {
		return err
	}
	return proto.Unmarshal(w, m)
}

// Alias gives an address under which another is reached.
var Alias = map[string]string{}

// OpenURL models the launch of a browser.
func OpenURL(url string) error { return errors.New("no browser") }
