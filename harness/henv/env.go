// Package henv builds the services under test.
package henv

import (
	"context"
	"io"

	"github.com/continusec/verifiabledatastructures/mutator/instant"
	"github.com/continusec/verifiabledatastructures/oracle/policy"
	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/storage/memory"
	"github.com/continusec/verifiabledatastructures/verifiable"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"

	"gosymharness/symrt"
)

// Ctx is used for every call.
var Ctx = context.Background()

// Memory is a service over the in-memory store that applies mutations at once.
func Memory() *verifiable.Client {
	st := &memory.TransientStorage{}
	return Over(st, &instant.Mutator{Writer: st})
}

// Over is a service over the given store and mutator, open to all.
func Over(st verifiable.StorageReader, m verifiable.MutatorService) *verifiable.Client {
	return &verifiable.Client{Service: (&verifiable.Service{Mutator: m, AccessPolicy: policy.Open, Reader: st}).MustCreate()}
}

// Acc is the reference used by raw requests.
func Acc() *pb.AccountRef { return &pb.AccountRef{Id: "acct", ApiKey: "key"} }

// refusals are how a server may fail: with any of the errors that a client knows.
var refusals = []error{nil, verifiable.ErrNotFound, verifiable.ErrInvalidRange, verifiable.ErrVerificationFailed, verifiable.ErrNotAuthorized, verifiable.ErrInternalError, status.Error(codes.NotFound, "no"), io.EOF, context.Canceled}

// Refusal is nil or one of the errors a server may answer with.
func Refusal(name string) error { return refusals[symrt.Choose(name, len(refusals))] }
