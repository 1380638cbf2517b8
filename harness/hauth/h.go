// Package hauth holds harnesses for access control.
package hauth

import (
	"context"
	"errors"

	"gosymharness/henv"
	"gosymharness/symrt"

	"github.com/continusec/verifiabledatastructures/oracle/policy"
	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/verifiable"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
)

// text is arbitrary ASCII text of up to max characters.
func text(name string, max int) string {
	b := symrt.Bytes(name, symrt.Choose(name+"len", max+1))
	for _, c := range b {
		symrt.Assume(symrt.And(c >= ' ', c < 0x7f))
	}
	return string(b)
}

// glob is the meaning of a name pattern: '*' stands for any text and '?' for
// any character but '/', other characters for themselves.
func glob(p, s string) bool {
	if p == "" {
		return s == ""
	}
	if p[0] == '[' { // malformed, matches nothing
		return false
	}
	if p[0] == '*' {
		if glob(p[1:], s) {
			return true
		}
		return s != "" && s[0] != '/' && glob(p, s[1:])
	}
	if s == "" {
		return false
	}
	if p[0] == '?' {
		return s[0] != '/' && glob(p[1:], s[1:])
	}
	return p[0] == s[0] && glob(p[1:], s[1:])
}

type line struct {
	key, name string
	perms     []pb.Permission
	fields    []string
}

// Policy: a static policy allows what a line of the account allows, with the
// fields of the first such line, and denies everything else.
func Policy() {
	nl := int(symrt.Param("lines", 2))
	var accs []*pb.ResourceAccount
	var lines [][]*line
	na := int(symrt.Param("accounts", 2))
	for a := 0; a < na; a++ {
		acc := &pb.ResourceAccount{Id: text("acc", int(symrt.Param("acc", 1)))}
		var ls []*line
		for i := 0; i < nl; i++ {
			l := &line{key: text("key", int(symrt.Param("key", 1)))}
			l.name = text("name", int(symrt.Param("pattern", 1)))
			for i := 0; i < len(l.name); i++ {
				symrt.Assume(symrt.And(l.name[i] != '[', l.name[i] != '\\'))
			}
			if symrt.Param("listed", 0) == 1 {
				l.name = []string{"*", "a", "?", "a*", "", "["}[symrt.Choose("listed", 6)]
			}
			for j := symrt.Choose("perms", int(symrt.Param("perms", 1))+1); j > 0; j-- {
				l.perms = append(l.perms, pb.Permission(symrt.Int32("perm")))
			}
			l.fields = [][]string{{}, {"*"}, {"a", "b"}}[(a*nl+i)%3]
			ls = append(ls, l)
			acc.Policy = append(acc.Policy, &pb.AccessPolicy{ApiKey: l.key, NameMatch: l.name, Permissions: l.perms, AllowedFields: l.fields})
		}
		accs = append(accs, acc)
		lines = append(lines, ls)
	}
	who, key, obj, perm := text("who", int(symrt.Param("acc", 1))), text("rkey", int(symrt.Param("rkey", 1))), text("obj", int(symrt.Param("name", 2))), pb.Permission(symrt.Int32("rperm"))
	am, err := (&policy.Static{Policy: accs}).VerifyAllowed(henv.Ctx, who, key, obj, perm)
	var want *line
	for a := range lines {
		if want != nil || accs[a].Id != who {
			continue
		}
		for _, l := range lines[a] {
			has := false
			for _, p := range l.perms {
				has = symrt.Or(has, p == perm, p == pb.Permission_PERM_ALL_PERMISSIONS)
			}
			if want == nil && has && (l.key == "*" || l.key != "" && l.key == key) && glob(l.name, obj) {
				want = l
			}
		}
	}
	if want == nil {
		symrt.Assert(err != nil && am == nil, "access without a line that allows it")
		symrt.Reach("denied")
		return
	}
	symrt.Assert(err == nil && am != nil, "access denied although a line allows it")
	filter := ""
	for i, f := range want.fields {
		if i > 0 {
			filter += ","
		}
		filter += f
	}
	symrt.Assert(am.FieldFilter == filter, "the fields are those of the line that allows the access")
	symrt.Reach("allowed")
}

// Open: the open policy allows everything.
func Open() {
	am, err := policy.Open.VerifyAllowed(henv.Ctx, text("who", 1), text("key", 1), text("obj", 1), pb.Permission(symrt.Int32("perm")))
	symrt.Assert(err == nil && am.FieldFilter == verifiable.AllFields, "the open policy allows everything")
	symrt.Reach("checked")
}

// guard is an oracle, store and mutator in one that note what happens when.
type guard struct {
	acc, key, name string
	perm           pb.Permission
	asked          int
	allow          bool
	touched        bool
	early          bool
}

var errStop = errors.New("stop here")

func (g *guard) VerifyAllowed(ctx context.Context, account, apiKey, objectName string, perm pb.Permission) (*verifiable.AccessModifier, error) {
	g.asked++
	g.acc, g.key, g.name, g.perm = account, apiKey, objectName, perm
	if !g.allow {
		return nil, verifiable.ErrNotAuthorized
	}
	return &verifiable.AccessModifier{FieldFilter: verifiable.AllFields}, nil
}

func (g *guard) touch() {
	g.touched = true
	if g.asked == 0 {
		g.early = true
	}
}

func (g *guard) ExecuteReadOnly(ctx context.Context, ns []byte, f func(ctx context.Context, db verifiable.KeyReader) error) error {
	g.touch()
	return errStop
}

func (g *guard) ExecuteUpdate(ctx context.Context, ns []byte, f func(ctx context.Context, db verifiable.KeyWriter) error) error {
	g.touch()
	return errStop
}

func (g *guard) QueueMutation(ctx context.Context, ns []byte, mut *pb.Mutation) error {
	g.touch()
	return errStop
}

// Operations: every operation asks for the permission that goes with it, for
// the account, key and name of the request, before it touches any data.
func Operations() {
	g := &guard{allow: symrt.Choose("allow", 2) == 1}
	svc := (&verifiable.Service{Mutator: g, AccessPolicy: g, Reader: g}).MustCreate()
	acc := &pb.AccountRef{Id: text("acc", 1), ApiKey: text("key", 1)}
	name := text("name", 1)
	lt := pb.LogType(symrt.Int32("type"))
	log := &pb.LogRef{Account: acc, Name: name, LogType: lt}
	m := &pb.MapRef{Account: acc, Name: name}
	byType := func(user, mut, th pb.Permission) pb.Permission {
		switch lt {
		case pb.LogType_STRUCT_TYPE_LOG:
			return user
		case pb.LogType_STRUCT_TYPE_MUTATION_LOG:
			return mut
		case pb.LogType_STRUCT_TYPE_TREEHEAD_LOG:
			return th
		}
		return pb.Permission_PERM_NONE
	}
	const none = pb.Permission_PERM_NONE
	var want pb.Permission // none: the operation is never allowed
	var err error
	a, b := symrt.Int64("a"), symrt.Int64("b")
	switch symrt.Choose("op", 8) {
	case 0:
		want = byType(pb.Permission_PERM_LOG_RAW_ADD, none, none)
		_, err = svc.LogAddEntry(henv.Ctx, &pb.LogAddEntryRequest{Log: log, Value: &pb.LeafData{LeafInput: []byte("x")}})
	case 1:
		want = byType(pb.Permission_PERM_LOG_READ_ENTRY, pb.Permission_PERM_MAP_MUTATION_READ_ENTRY, pb.Permission_PERM_MAP_MUTATION_READ_HASH)
		_, err = svc.LogFetchEntries(henv.Ctx, &pb.LogFetchEntriesRequest{Log: log, First: a, Last: b})
	case 2:
		want = byType(pb.Permission_PERM_LOG_READ_HASH, pb.Permission_PERM_MAP_MUTATION_READ_HASH, pb.Permission_PERM_MAP_MUTATION_READ_HASH)
		_, err = svc.LogTreeHash(henv.Ctx, &pb.LogTreeHashRequest{Log: log, TreeSize: a})
	case 3:
		want = byType(pb.Permission_PERM_LOG_READ_HASH, pb.Permission_PERM_MAP_MUTATION_READ_HASH, pb.Permission_PERM_MAP_MUTATION_READ_HASH)
		_, err = svc.LogConsistencyProof(henv.Ctx, &pb.LogConsistencyProofRequest{Log: log, FromSize: a, TreeSize: b})
	case 4:
		want = byType(pb.Permission_PERM_LOG_PROVE_INCLUSION, pb.Permission_PERM_MAP_MUTATION_READ_HASH, pb.Permission_PERM_MAP_MUTATION_READ_HASH)
		req := &pb.LogInclusionProofRequest{Log: log, LeafIndex: a, TreeSize: b}
		if symrt.Choose("byhash", 2) == 1 {
			req.MtlHash = symrt.Hash("h")
		}
		_, err = svc.LogInclusionProof(henv.Ctx, req)
	case 5:
		want = pb.Permission_PERM_MAP_SET_VALUE
		_, err = svc.MapSetValue(henv.Ctx, &pb.MapSetValueRequest{Map: m, Mutation: &pb.MapMutation{Action: "set", Key: []byte("k"), Value: &pb.LeafData{LeafInput: []byte("x")}}})
	case 6:
		want = pb.Permission_PERM_MAP_GET_VALUE
		_, err = svc.MapGetValue(henv.Ctx, &pb.MapGetValueRequest{Map: m, Key: []byte("k"), TreeSize: a})
	case 7:
		want = pb.Permission_PERM_MAP_GET_VALUE
		_, err = svc.MapTreeHash(henv.Ctx, &pb.MapTreeHashRequest{Map: m, TreeSize: a})
	}
	symrt.Assert(err != nil, "an operation succeeds without data")
	symrt.Assert(!g.early, "data is touched before access is checked")
	if g.touched {
		symrt.Assert(want != none && g.allow, "data is touched without access")
		symrt.Reach("allowed")
	}
	if want == none || !g.allow {
		symrt.Assert(status.Code(err) == codes.PermissionDenied, "no access is reported as something else")
		symrt.Reach("denied")
	}
	if g.asked > 0 {
		symrt.Assert(g.acc == acc.Id && g.key == acc.ApiKey && g.name == name, "access is checked for another account, key or object")
		symrt.Assert(g.perm == want, "access is checked for another permission")
	} else {
		symrt.Assert(want == none, "access is not checked")
	}
}
