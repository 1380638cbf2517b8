package hrest

import (
	"os"
	"time"

	_ "gosymharness/models/grpcm"
	"gosymharness/symrt"

	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/server/grpc"
)

// done removes what a harness leaves.
var done = func() {}

// overGrpc gives a client of a gRPC server of the service. Symbolically the two
// meet in a model of gRPC, natively at a socket in a directory of their own.
func overGrpc(s pb.VerifiableDataStructuresServiceServer) pb.VerifiableDataStructuresServiceServer {
	dir := "/none"
	if !symrt.Symbolic() {
		d, err := os.MkdirTemp("", "verif")
		bad(err, "directory of the harness")
		dir = d
		done = func() { os.RemoveAll(d) }
	}
	sock := dir + "/s"
	serve := func() {
		grpc.StartServer(&pb.ServerConfig{InsecureServerForTesting: true, GrpcListenProtocol: "unix", GrpcListenBind: sock}, s)
	}
	go serve()
	if symrt.Symbolic() {
		symrt.Settle()
	} else {
		for i := 0; i < 500; i++ {
			if _, err := os.Stat(sock); err == nil {
				break
			}
			time.Sleep(10 * time.Millisecond)
		}
	}
	c, err := (&grpc.Client{NoGrpcSecurity: true, Address: "unix:" + sock}).Dial()
	bad(err, "dialing")
	return c
}
