package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const harnessMod = "gosymharness"

// load builds the SSA program of the harness module.
func load(dir string, repoMod string, patterns []string) (*Prog, error) {
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax,
		Dir:  dir,
		Env:  os.Environ(),
	}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		if len(errs) > 20 {
			errs = errs[:20]
		}
		return nil, fmt.Errorf("%s", strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	p := &Prog{ssa: prog, fns: map[*ssa.Function]*cfn{}, meths: map[string]*ssa.Function{}, built: map[*ssa.Package]bool{}, repo: repoMod, notes: map[string]string{}}
	p.pkgs = map[string]*ssa.Package{}
	for _, sp := range prog.AllPackages() {
		p.pkgs[sp.Pkg.Path()] = sp
	}
	named := func(pkg, name string) types.Type {
		sp := p.pkgs[pkg]
		if sp == nil {
			return nil
		}
		o := sp.Pkg.Scope().Lookup(name)
		if o == nil {
			return nil
		}
		return o.Type()
	}
	p.errorString = named("errors", "errorString")
	p.wrapError = named("fmt", "wrapError")
	p.timeType = named("time", "Time")
	p.rtErr = types.NewNamed(types.NewTypeName(0, nil, "runtimeError", nil), types.Typ[types.String], nil)
	// the run time error type has an Error method as far as type switches care
	sig := types.NewSignatureType(types.NewVar(0, nil, "", p.rtErr), nil, nil, nil, types.NewTuple(types.NewVar(0, nil, "", types.Typ[types.String])), false)
	p.rtErr.(*types.Named).AddMethod(types.NewFunc(0, nil, "Error", sig))
	p.loadRedirects()
	return p, nil
}

// redirects come from functions in the harness' models packages whose doc-free
// naming is given by the table variable below.
var redirectTable = map[string]string{
	"encoding/json.NewEncoder":                                   harnessMod + "/models/httpm.NewEncoder",
	"(*encoding/json.Encoder).Encode":                            harnessMod + "/models/httpm.Encode",
	"net/http.DetectContentType":                                 harnessMod + "/models/httpm.DetectContentType",
	"context.WithValue":                                          harnessMod + "/models.WithValue",
	"(*sync.Pool).Get":                                           harnessMod + "/models.PoolGet",
	"(*sync.Pool).Put":                                           harnessMod + "/models.PoolPut",
	"(*net/http.Client).Do":                                      harnessMod + "/models/httpm.Do",
	"github.com/pkg/browser.OpenURL":                             harnessMod + "/models/tlsm.OpenURL",
	"net.Listen":                                                 harnessMod + "/models/tlsm.Listen",
	"os.Stat":                                                    harnessMod + "/models/tlsm.Stat",
	"os.ReadFile":                                                harnessMod + "/models/tlsm.ReadFile",
	"crypto/x509.ParseCertificate":                               harnessMod + "/models/tlsm.ParseCertificate",
	"crypto/x509.NewCertPool":                                    harnessMod + "/models/tlsm.NewCertPool",
	"crypto/x509.SystemCertPool":                                 harnessMod + "/models/tlsm.SystemCertPool",
	"(*crypto/x509.CertPool).AddCert":                            harnessMod + "/models/tlsm.AddCert",
	"(*crypto/x509.CertPool).AppendCertsFromPEM":                 harnessMod + "/models/tlsm.AppendCertsFromPEM",
	"crypto/tls.X509KeyPair":                                     harnessMod + "/models/tlsm.X509KeyPair",
	"crypto/tls.LoadX509KeyPair":                                 harnessMod + "/models/tlsm.LoadX509KeyPair",
	"google.golang.org/grpc/credentials.NewTLS":                  harnessMod + "/models/tlsm.NewTLS",
	"google.golang.org/grpc/credentials/insecure.NewCredentials": harnessMod + "/models/tlsm.Insecure",
	"crypto/tls.NewListener":                                     harnessMod + "/models/tlsm.NewListener",
	"crypto/tls.Listen":                                          harnessMod + "/models/tlsm.ListenTLS",
	"net/http.ListenAndServe":                                    harnessMod + "/models/tlsm.ListenAndServe",
	"net/http.ListenAndServeTLS":                                 harnessMod + "/models/tlsm.ListenAndServeTLS",
	"(*net/http.Server).ListenAndServe":                          harnessMod + "/models/tlsm.ServerListenAndServe",
	"(*net/http.Server).ListenAndServeTLS":                       harnessMod + "/models/tlsm.ServerListenAndServeTLS",
	"(*net/http.Server).Serve":                                   harnessMod + "/models/tlsm.ServerServe",
	"(*net/http.Server).ServeTLS":                                harnessMod + "/models/tlsm.ServerServeTLS",
	"google.golang.org/protobuf/encoding/prototext.Unmarshal":    harnessMod + "/models/tlsm.UnmarshalText",
	"google.golang.org/grpc.Creds":                               harnessMod + "/models/grpcm.Creds",
	"google.golang.org/grpc.WithInsecure":                        harnessMod + "/models/grpcm.WithInsecure",
	"google.golang.org/grpc.WithTransportCredentials":            harnessMod + "/models/grpcm.WithTransportCredentials",
	"google.golang.org/grpc.Dial":                                harnessMod + "/models/grpcm.Dial",
	"google.golang.org/grpc.NewClient":                           harnessMod + "/models/grpcm.Dial",
	"google.golang.org/grpc.NewServer":                           harnessMod + "/models/grpcm.NewServer",
	"(*google.golang.org/grpc.Server).RegisterService":           harnessMod + "/models/grpcm.RegisterService",
	"(*google.golang.org/grpc.Server).Serve":                     harnessMod + "/models/grpcm.Serve",
	"(*google.golang.org/grpc.ClientConn).Invoke":                harnessMod + "/models/grpcm.Invoke",
	"go.etcd.io/bbolt.Open":                                      harnessMod + "/models/boltm.Open",
	"(*go.etcd.io/bbolt.DB).Close":                               harnessMod + "/models/boltm.Close",
	"(*go.etcd.io/bbolt.DB).Begin":                               harnessMod + "/models/boltm.Begin",
	"(*go.etcd.io/bbolt.DB).Batch":                               harnessMod + "/models/boltm.Batch",
	"(*go.etcd.io/bbolt.DB).View":                                harnessMod + "/models/boltm.View",
	"(*go.etcd.io/bbolt.DB).Update":                              harnessMod + "/models/boltm.Update",
	"(*go.etcd.io/bbolt.Tx).Commit":                              harnessMod + "/models/boltm.Commit",
	"(*go.etcd.io/bbolt.Tx).Rollback":                            harnessMod + "/models/boltm.Rollback",
	"(*go.etcd.io/bbolt.Tx).Bucket":                              harnessMod + "/models/boltm.Bucket",
	"(*go.etcd.io/bbolt.Tx).CreateBucket":                        harnessMod + "/models/boltm.CreateBucket",
	"(*go.etcd.io/bbolt.Tx).CreateBucketIfNotExists":             harnessMod + "/models/boltm.CreateBucketIfNotExists",
	"(*go.etcd.io/bbolt.Tx).DeleteBucket":                        harnessMod + "/models/boltm.DeleteBucket",
	"(*go.etcd.io/bbolt.Bucket).Get":                             harnessMod + "/models/boltm.Get",
	"(*go.etcd.io/bbolt.Bucket).Put":                             harnessMod + "/models/boltm.Put",
	"(*go.etcd.io/bbolt.Bucket).Delete":                          harnessMod + "/models/boltm.Delete",
	"github.com/dgraph-io/badger.DefaultOptions":                 harnessMod + "/models/badgerm.DefaultOptions",
	"github.com/dgraph-io/badger.Open":                           harnessMod + "/models/badgerm.Open",
	"(*github.com/dgraph-io/badger.DB).Close":                    harnessMod + "/models/badgerm.Close",
	"(*github.com/dgraph-io/badger.DB).NewTransaction":           harnessMod + "/models/badgerm.NewTransaction",
	"(*github.com/dgraph-io/badger.DB).View":                     harnessMod + "/models/badgerm.View",
	"(*github.com/dgraph-io/badger.DB).Update":                   harnessMod + "/models/badgerm.Update",
	"(*github.com/dgraph-io/badger.Txn).Commit":                  harnessMod + "/models/badgerm.Commit",
	"(*github.com/dgraph-io/badger.Txn).Discard":                 harnessMod + "/models/badgerm.Discard",
	"(*github.com/dgraph-io/badger.Txn).Get":                     harnessMod + "/models/badgerm.Get",
	"(*github.com/dgraph-io/badger.Txn).Set":                     harnessMod + "/models/badgerm.Set",
	"(*github.com/dgraph-io/badger.Txn).SetEntry":                harnessMod + "/models/badgerm.SetEntry",
	"(*github.com/dgraph-io/badger.Txn).Delete":                  harnessMod + "/models/badgerm.Delete",
	"(*github.com/dgraph-io/badger.Item).Value":                  harnessMod + "/models/badgerm.Value",
	"(*github.com/dgraph-io/badger.Item).ValueCopy":              harnessMod + "/models/badgerm.ValueCopy",
	"(*github.com/jackc/pgx/v5/pgxpool.Conn).Begin":              harnessMod + "/models/pgm.Begin",
	"(*github.com/jackc/pgx/v5/pgxpool.Conn).BeginTx":            harnessMod + "/models/pgm.BeginTx",
	"(*github.com/jackc/pgx/v5/pgxpool.Conn).Exec":               harnessMod + "/models/pgm.Exec",
	"(*github.com/jackc/pgx/v5/pgxpool.Conn).QueryRow":           harnessMod + "/models/pgm.QueryRow",
	"crypto/sha256.New":                                          harnessMod + "/models.SHA256New",
	"unicode/utf8.DecodeRune":                                    harnessMod + "/models.DecodeRune",
	"unicode/utf8.DecodeRuneInString":                            harnessMod + "/models.DecodeRuneInString",
}

func (p *Prog) loadRedirects() {
	p.redirs = map[string]*ssa.Function{}
	for n, to := range redirectTable {
		i := strings.LastIndex(to, ".")
		sp := p.pkgs[to[:i]]
		if sp == nil {
			continue
		}
		if f := sp.Func(to[i+1:]); f != nil {
			p.redirs[n] = f
		}
	}
}

func (p *Prog) redirect(n string) *ssa.Function { return p.redirs[n] }

func (p *Prog) note(k, v string) {
	p.nmu.Lock()
	p.notes[k] = v
	p.nmu.Unlock()
}

func (p *Prog) isRepo(f *ssa.Function) bool {
	pk := f.Pkg
	if pk == nil && f.Parent() != nil {
		pk = f.Parent().Pkg
	}
	if pk == nil && f.Origin() != nil {
		pk = f.Origin().Pkg
	}
	return pk != nil && strings.HasPrefix(pk.Pkg.Path(), p.repo)
}

// wantInit says which package initialisers are interpreted.
func (p *Prog) wantInit(path string) bool {
	if strings.HasPrefix(path, p.repo) || strings.HasPrefix(path, harnessMod) {
		return true
	}
	switch path {
	case "runtime", "reflect", "syscall", "os", "internal/cpu", "time", "crypto/internal/fips140deps", "net", "internal/godebug":
		return false
	}
	return true
}
