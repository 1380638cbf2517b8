package main

import (
	"crypto/sha256"
	"encoding/base64"
	"encoding/hex"
	"errors"
	"fmt"
	"strings"
)

var errInfeasible = errors.New("infeasible")

// extract fills v.Inputs with concrete values of the current (satisfiable) path.
func (e *Exec) extract(v *Violation) error {
	e.flushPC()
	s := e.sol
	s.Push()
	defer s.Pop()
	var terms []*Term
	for _, in := range e.inputs {
		if in.t != nil {
			terms = append(terms, in.t)
		}
		terms = append(terms, in.ts...)
	}
	for _, t := range terms {
		s.axioms(t)
		s.ref(t)
	}
	hs := s.scopeHTerms()
	// HByte terms in use need hbits values
	for _, t := range hs {
		s.ref(t)
	}
	// all subterm scalars of H terms must be referenced before the check
	for _, t := range hs {
		for _, a := range t.args {
			s.ref(a)
		}
	}
	switch s.Check() {
	case Unsat:
		return errInfeasible
	case Unknown:
		return errors.New("solver unknown")
	}
	m := &model{e: e, val: map[*Term]string{}, conc: map[*Term]string{}, busy: map[string]bool{}, class: map[string][]*Term{}, cls: map[string]string{}}
	hv, err := s.Values(hs)
	if err != nil {
		return err
	}
	for i, t := range hs {
		m.val[t] = hv[i]
		m.class[hv[i]] = append(m.class[hv[i]], t)
	}
	for _, in := range e.inputs {
		switch in.Kind {
		case "int":
			if in.conc != nil {
				in.Val = fmt.Sprint(int64(*in.conc))
				break
			}
			u, err := m.scalar(in.t)
			if err != nil {
				return err
			}
			in.Val = fmt.Sprint(sext(u, in.t.s.w))
		case "bool":
			u, err := m.scalar(in.t)
			if err != nil {
				return err
			}
			in.Val = fmt.Sprint(u)
		case "bytes":
			var sb strings.Builder
			for _, t := range in.ts {
				u, err := m.scalar(t)
				if err != nil {
					return err
				}
				fmt.Fprintf(&sb, "%02x", u)
			}
			in.Val = sb.String()
		case "hash":
			d, err := m.digest(in.t)
			if err != nil {
				return err
			}
			in.Val = hex.EncodeToString([]byte(d))
		}
		c := *in
		v.Inputs = append(v.Inputs, &c)
	}
	return nil
}

type model struct {
	e     *Exec
	val   map[*Term]string
	class map[string][]*Term
	cls   map[string]string // class value -> concrete digest
	conc  map[*Term]string
	busy  map[string]bool
	fresh int
}

func (m *model) scalar(t *Term) (uint64, error) {
	if t.isConst() {
		return t.c, nil
	}
	vs, err := m.e.sol.Values([]*Term{t})
	if err != nil {
		return 0, err
	}
	u, ok := parseBV(vs[0])
	if !ok {
		return 0, errors.New("model value " + vs[0])
	}
	return u, nil
}

// digest gives a concrete 32 byte value of an H term in the model.
func (m *model) digest(t *Term) (string, error) {
	if t.op == OpHConst {
		return t.name, nil
	}
	v, ok := m.val[t]
	if !ok {
		vs, err := m.e.sol.Values([]*Term{t})
		if err != nil {
			return "", err
		}
		v = vs[0]
		m.val[t] = v
	}
	if d, ok := m.cls[v]; ok {
		return d, nil
	}
	if m.busy[v] {
		return "", errors.New("cyclic hash model")
	}
	m.busy[v] = true
	defer delete(m.busy, v)
	members := append([]*Term{t}, m.class[v]...)
	for _, x := range members {
		if x.op == OpHConst {
			m.cls[v] = x.name
			return x.name, nil
		}
	}
	for _, x := range members {
		if x.op == OpSha {
			var sb strings.Builder
			for _, k := range m.e.ctx.shaInput(x) {
				switch {
				case k.t == nil:
					sb.WriteString(k.cs)
				case k.t.s.k == SH:
					d, err := m.digest(k.t)
					if err != nil {
						return "", err
					}
					if k.b64 {
						d = base64.StdEncoding.EncodeToString([]byte(d))
					}
					sb.WriteString(d)
				default:
					u, err := m.scalar(k.t)
					if err != nil {
						return "", err
					}
					for i := k.length() - 1; i >= 0; i-- {
						sb.WriteByte(byte(u >> (8 * uint(i))))
					}
				}
			}
			d := sha256.Sum256([]byte(sb.String()))
			m.cls[v] = string(d[:])
			return string(d[:]), nil
		}
	}
	for _, x := range members {
		if x.op == OpEnc {
			return "", errors.New("the model equates an input with an opaque encoding")
		}
	}
	// an otherwise unconstrained value: honour byte constraints
	m.fresh++
	fd := sha256.Sum256([]byte(fmt.Sprintf("fresh hash %d", m.fresh)))
	d := string(fd[:])
	b := []byte(d)
	for _, x := range members {
		for i := 0; i < 32; i++ {
			hb := m.e.ctx.HByte(x, i)
			if hb.isConst() || m.e.sol.defined[hb.id] {
				u, err := m.scalar(hb)
				if err != nil {
					return "", err
				}
				b[i] = byte(u)
			}
		}
	}
	d = string(b)
	m.cls[v] = d
	return d, nil
}
