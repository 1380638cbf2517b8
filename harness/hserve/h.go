// Package hserve holds harnesses for the servers as they are configured, and for
// the clients that connect to them.
package hserve

import (
	"context"
	"crypto/tls"
	"crypto/x509"
	"encoding/pem"
	"errors"
	"net"
	"net/http"
	"os"
	"strings"
	"time"

	"gosymharness/gen/vdbserver"
	"gosymharness/hrest"
	"gosymharness/models/boltm"
	_ "gosymharness/models/grpcm"
	"gosymharness/models/tlsm"
	"gosymharness/symrt"

	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/server/grpc"
	"github.com/continusec/verifiabledatastructures/server/httprest"
	"google.golang.org/protobuf/encoding/prototext"
)

// scene is where a server is to run: its files and its addresses.
type scene struct {
	dir, bind, sock, tcp string
}

func newScene() *scene {
	s := &scene{dir: "/scene", bind: "127.0.0.1:8001", tcp: "127.0.0.1:8002"}
	if symrt.Symbolic() {
		for _, x := range [][2]string{{certA, keyA}, {certB, keyB}} {
			c, _ := pem.Decode([]byte(x[0]))
			k, _ := pem.Decode([]byte(x[1]))
			tlsm.Known[string(c.Bytes)] = &x509.Certificate{Raw: c.Bytes}
			tlsm.Keys[string(c.Bytes)] = string(k.Bytes)
		}
	} else {
		d, err := os.MkdirTemp("", "serve")
		if err != nil {
			panic(err)
		}
		s.dir, s.bind, s.tcp = d, free(), free()
	}
	s.sock = s.dir + "/s"
	return s
}

func (s *scene) done() {
	if !symrt.Symbolic() {
		os.RemoveAll(s.dir)
	}
}

// free is an address where nothing listens.
func free() string {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	defer l.Close()
	return l.Addr().String()
}

func (s *scene) file(name, content string) string {
	path := s.dir + "/" + name
	if symrt.Symbolic() {
		tlsm.Files[path] = []byte(content)
	} else if err := os.WriteFile(path, []byte(content), 0600); err != nil {
		panic(err)
	}
	return path
}

// The states that the certificate and the key of the configuration can be in.
const (
	paired = iota
	noCert
	noKey
	otherKey
	brokenCert
	unnamedCert
	unnamedKey
	unnamed
	nStates
)

// certificate writes the files that the configuration names.
func (s *scene) certificate(conf *pb.ServerConfig, state int) {
	conf.ServerCertPath, conf.ServerKeyPath = s.dir+"/cert", s.dir+"/key"
	switch state {
	case noCert:
	case brokenCert:
		s.file("cert", "not a certificate")
	default:
		s.file("cert", certA)
	}
	switch state {
	case noKey:
	case otherKey:
		s.file("key", keyB)
	default:
		s.file("key", keyA)
	}
	if state == unnamedCert || state == unnamed {
		conf.ServerCertPath = ""
	}
	if state == unnamedKey || state == unnamed {
		conf.ServerKeyPath = ""
	}
}

// started waits until something listens there, but not for long.
func (s *scene) started(network, address string) {
	if symrt.Symbolic() {
		symrt.Settle()
		return
	}
	for i := 0; i < 60; i++ {
		if c, err := net.Dial(network, address); err == nil {
			c.Close()
			return
		}
		time.Sleep(10 * time.Millisecond)
	}
}

// service counts what reaches it.
type service struct {
	pb.UnimplementedVerifiableDataStructuresServiceServer
	n int
}

func (s *service) LogTreeHash(context.Context, *pb.LogTreeHashRequest) (*pb.LogTreeHashResponse, error) {
	s.n++
	return &pb.LogTreeHashResponse{TreeSize: 42, RootHash: []byte("root")}, nil
}

var (
	errNobody = errors.New("connection refused")
	errTLS    = errors.New("connection error")
)

// site is the way to the HTTP server there.
type site struct {
	address string
	cfg     *tls.Config
}

func (w *site) RoundTrip(r *http.Request) (*http.Response, error) {
	s := tlsm.Sites[w.address]
	if a, ok := tlsm.Alias[w.address]; ok {
		s = tlsm.Sites[a]
	}
	if s == nil {
		return nil, errNobody
	}
	cfg := w.cfg
	if r.URL.Scheme == "http" {
		cfg = nil
	}
	if !tlsm.Works(cfg, "127.0.0.1", s.Cfg) {
		return nil, errTLS
	}
	return hrest.Carry(s.Handler).RoundTrip(r)
}

// overRest is a client of the HTTP server there; pool says whom it trusts over TLS.
func overRest(address string, secure bool, trusted string) pb.VerifiableDataStructuresServiceServer {
	cfg := &tls.Config{RootCAs: x509.NewCertPool()}
	cfg.RootCAs.AppendCertsFromPEM([]byte(trusted))
	url := "http://" + address
	if secure {
		url = "https://" + address
	}
	var t http.RoundTripper = &site{address, cfg}
	if !symrt.Symbolic() {
		t = &http.Transport{TLSClientConfig: cfg}
	}
	return (&httprest.Client{BaseURL: url, HTTPClient: &http.Client{Transport: t}}).MustDial()
}

// ask is whether a request is answered, as the service does.
func ask(c pb.VerifiableDataStructuresServiceServer) bool {
	r, err := c.LogTreeHash(context.Background(), &pb.LogTreeHashRequest{Log: &pb.LogRef{Account: &pb.AccountRef{Id: "1", ApiKey: "key"}, Name: "log", LogType: pb.LogType_STRUCT_TYPE_LOG}})
	if err != nil {
		return false
	}
	symrt.Assert(r.TreeSize == 42 && string(r.RootHash) == "root", "the client answers with something other than the service gave")
	return true
}

// expect judges one request of a client.
func expect(s *service, c pb.VerifiableDataStructuresServiceServer, want bool, who string) {
	n := s.n
	got := ask(c)
	if want {
		symrt.Assert(got && s.n == n+1, "the server does not serve "+who)
	} else {
		symrt.Assert(!got && s.n == n, "a request comes through of "+who)
	}
}

// Rest is the HTTP server: whatever the configuration says of certificates, it
// serves without TLS only if told to, and otherwise only with its certificate.
func Rest() {
	sc := newScene()
	defer sc.done()
	conf := &pb.ServerConfig{RestListenBind: sc.bind, InsecureServerForTesting: symrt.Bool("insecure")}
	state := symrt.Choose("state", nStates)
	sc.certificate(conf, state)
	insecure := conf.InsecureServerForTesting
	s := &service{}
	ended := make(chan error, 1)
	go func() { ended <- httprest.StartServer(conf, s) }()
	sc.started("tcp", sc.bind)
	var over, failed bool
	select {
	case err := <-ended:
		over, failed = true, err != nil
	default:
	}
	secure := !insecure && state == paired
	if insecure || secure {
		symrt.Reach("serving")
		symrt.Assert(!over, "the server ends, though it is configured right")
	} else {
		symrt.Reach("refusing")
		symrt.Assert(over && failed, "the server does not report that it can not serve with this certificate")
	}
	expect(s, overRest(sc.bind, false, ""), insecure, "a client without TLS")
	expect(s, overRest(sc.bind, true, certA), secure, "a client that trusts the server's certificate")
	expect(s, overRest(sc.bind, true, certB), false, "a client that trusts another certificate")
}

// The certificates that a gRPC client is given.
const (
	givenNone = iota
	givenPem
	givenOther
	givenDer
	givenOtherDer
	givenBoth
	givenAny
	nGiven
)

func der(p string) []byte {
	b, _ := pem.Decode([]byte(p))
	return b.Bytes
}

// Grpc is the gRPC server and its client: as Rest, and the client comes through
// to a server with TLS only if it was given the server's certificate.
func Grpc() {
	sc := newScene()
	defer sc.done()
	conf := &pb.ServerConfig{GrpcListenProtocol: "unix", GrpcListenBind: sc.sock, InsecureServerForTesting: symrt.Bool("insecure")}
	address := "unix:" + sc.sock
	if symrt.Bool("tcp") {
		conf.GrpcListenProtocol, conf.GrpcListenBind, address = "tcp", sc.tcp, sc.tcp
	}
	state := symrt.Choose("state", nStates)
	sc.certificate(conf, state)
	insecure := conf.InsecureServerForTesting
	secure := !insecure && state == paired
	s := &service{}
	if !insecure && !secure {
		symrt.MayExit()
	}
	go grpc.StartServer(conf, s)
	sc.started(conf.GrpcListenProtocol, conf.GrpcListenBind)
	if insecure || secure {
		symrt.Reach("serving")
	}

	cl := &grpc.Client{Address: address, NoGrpcSecurity: symrt.Bool("plain")}
	given := symrt.Choose("given", nGiven)
	switch given {
	case givenPem:
		cl.CertDer = []byte(certA)
	case givenOther:
		cl.CertDer = []byte(certB)
	case givenDer:
		cl.CertDer = der(certA)
	case givenOtherDer:
		cl.CertDer = der(certB)
	case givenBoth:
		cl.CertDer = []byte(certB + certA)
	case givenAny:
		cl.CertDer = symrt.Bytes("cert", int(symrt.Param("bytes", 4)))
	}
	c, err := cl.Dial()
	if cl.NoGrpcSecurity {
		symrt.Assert(err == nil, "a client that is told to do without TLS does not dial")
		expect(s, c, insecure, "a client without TLS")
		return
	}
	if given == givenAny {
		symrt.Reach("garbage")
		symrt.Assert(err != nil, "a client dials with a certificate that is none")
		return
	}
	symrt.Assert(err == nil, "a client does not dial with a certificate")
	switch given {
	case givenPem, givenDer, givenBoth:
		expect(s, c, secure, "a client that trusts the server's certificate")
	case givenOther, givenOtherDer:
		expect(s, c, false, "a client that trusts another certificate")
	default:
		expect(s, c, false, "a client that trusts the system's certificates only")
	}
}

func entry(c pb.VerifiableDataStructuresServiceServer, account, key, name, data string) error {
	_, err := c.LogAddEntry(context.Background(), &pb.LogAddEntryRequest{Log: &pb.LogRef{Account: &pb.AccountRef{Id: account, ApiKey: key}, Name: name, LogType: pb.LogType_STRUCT_TYPE_LOG}, Value: &pb.LeafData{LeafInput: []byte(data)}})
	return err
}

func size(c pb.VerifiableDataStructuresServiceServer, account, key, name string) int64 {
	r, err := c.LogTreeHash(context.Background(), &pb.LogTreeHashRequest{Log: &pb.LogRef{Account: &pb.AccountRef{Id: account, ApiKey: key}, Name: name, LogType: pb.LogType_STRUCT_TYPE_LOG}})
	if err != nil {
		return -1
	}
	return r.TreeSize
}

// Command is the server command with a configuration file: it serves what the
// file says, to whom it says, and keeps the data where it says.
func Command() {
	sc := newScene()
	defer sc.done()
	conf := &pb.ServerConfig{
		RestListenBind: sc.bind, GrpcListenProtocol: "unix", GrpcListenBind: sc.sock,
		RestServer: symrt.Bool("rest"), GrpcServer: symrt.Bool("grpc"), InsecureServerForTesting: symrt.Bool("insecure"),
		BoltDbPath: sc.dir + "/data",
		Accounts: []*pb.ResourceAccount{{Id: "1", Policy: []*pb.AccessPolicy{
			{ApiKey: "writer", NameMatch: "*", Permissions: []pb.Permission{pb.Permission_PERM_LOG_RAW_ADD}},
			{ApiKey: "reader", NameMatch: "log", Permissions: []pb.Permission{pb.Permission_PERM_LOG_READ_HASH}},
		}}},
	}
	accounts := symrt.Bool("accounts")
	if !accounts {
		conf.Accounts = nil
	}
	sc.certificate(conf, paired)
	if symrt.Symbolic() {
		tlsm.Texts["conf"] = conf
		sc.file("conf", "conf")
	} else {
		if err := os.Mkdir(conf.BoltDbPath, 0700); err != nil {
			panic(err)
		}
		b, err := prototext.Marshal(conf)
		if err != nil {
			panic(err)
		}
		sc.file("conf", string(b))
	}
	os.Args = []string{"vdbserver", sc.dir + "/conf"}
	go vdbserver.Main()
	if conf.RestServer {
		sc.started("tcp", sc.bind)
	}
	if conf.GrpcServer {
		sc.started("unix", sc.sock)
	}
	if !conf.RestServer && !conf.GrpcServer {
		symrt.Settle()
	}

	plain, secure := overRest(sc.bind, false, ""), overRest(sc.bind, true, certA)
	dial := func(c *grpc.Client) pb.VerifiableDataStructuresServiceServer {
		c.Address = "unix:" + sc.sock
		rv, err := c.Dial()
		symrt.Assert(err == nil, "a client does not dial")
		return rv
	}
	plainG, secureG := dial(&grpc.Client{NoGrpcSecurity: true}), dial(&grpc.Client{CertDer: []byte(certA)})
	n := int64(0)
	add := func(c pb.VerifiableDataStructuresServiceServer, want bool, what string) {
		err := entry(c, "1", "writer", "log", what)
		if want && !accounts {
			symrt.Reach("no accounts")
			symrt.Assert(err != nil && size(c, "1", "reader", "log") == -1, what+" permits something to an account that is not in the configuration")
		} else if want {
			symrt.Assert(err == nil, what+" does not serve, though configured")
			n++
			symrt.Assert(size(c, "1", "reader", "log") == n, what+" does not serve the log as it is")
			symrt.Assert(entry(c, "1", "reader", "log", "other") != nil, what+" permits what the accounts of the configuration do not")
			symrt.Assert(entry(c, "1", "other", "log", "other") != nil, what+" permits a key that is not in the configuration")
			symrt.Assert(entry(c, "2", "writer", "log", "other") != nil, what+" permits an account that is not in the configuration")
			symrt.Assert(size(c, "1", "reader", "logs") == -1, what+" permits a name that is not in the configuration")
			symrt.Assert(size(c, "1", "reader", "log") == n, what+" does what it refuses")
			symrt.Reach("served")
		} else {
			symrt.Assert(err != nil, what+" serves, though not configured")
		}
	}
	ins := conf.InsecureServerForTesting
	add(plain, conf.RestServer && ins, "HTTP without TLS")
	add(secure, conf.RestServer && !ins, "HTTP with TLS")
	add(plainG, conf.GrpcServer && ins, "gRPC without TLS")
	add(secureG, conf.GrpcServer && !ins, "gRPC with TLS")
	if n > 0 {
		kept := 0
		if symrt.Symbolic() {
			for _, f := range boltm.Names() {
				if strings.HasPrefix(f, conf.BoltDbPath+"/") {
					kept++
				}
			}
		} else {
			fs, err := os.ReadDir(conf.BoltDbPath)
			if err != nil {
				panic(err)
			}
			kept = len(fs)
		}
		symrt.Assert(kept > 0, "the data is not kept where the configuration says")
	}
}

// Demo is the server command without a file: it serves HTTP to whoever asks, and
// says nothing of what was not put there.
func Demo() {
	const addr = "localhost:8092"
	if symrt.Symbolic() {
		tlsm.Alias[addr] = ":8092"
	} else {
		os.Setenv("PATH", "") // no browser
	}
	os.Args = []string{"vdbserver"}
	if symrt.Bool("more") {
		os.Args = append(os.Args, "conf", "conf")
	}
	go vdbserver.Main()
	symrt.Settle()
	if !symrt.Symbolic() {
		(&scene{}).started("tcp", addr)
	}
	c := overRest(addr, false, "")
	who := []string{"1", "44", "0"}[symrt.Choose("account", 3)]
	key := []string{"", "key"}[symrt.Choose("key", 2)]
	symrt.Assert(size(c, who, key, "log") == 0, "the demonstration does not serve an empty log")
	symrt.Assert(entry(c, who, key, "log", "entry") == nil, "the demonstration does not take an entry")
	symrt.Assert(size(c, who, "other", "log") == 1, "the demonstration does not serve the log as it is")
	symrt.Assert(size(c, "2", key, "log") == 0 && size(c, who, key, "other") == 0, "the demonstration mixes up logs")
	symrt.Reach("served")
}
