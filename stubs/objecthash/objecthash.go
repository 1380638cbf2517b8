// Package objecthash is a stand-in for github.com/continusec/objecthash, which is
// not available in this sandbox.  It implements the same published algorithm (type
// tagged SHA-256 over canonical JSON-like values, with redactable <nonce,value>
// tuples and "***REDACTED*** Hash: <hex>" markers) for the functions the repository
// uses.  It is part of the trusted base of the checks, see DESIGN.md.
package objecthash

import (
	"bytes"
	"crypto/rand"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"errors"
	"math"
	"sort"
	"strconv"
	"strings"
)

const (
	StdRedactionPrefix = "***REDACTED*** Hash: "
)

var (
	ErrUnrecognizedObjectType = errors.New("unrecognized object type")
	ErrCannotNormalizeFloat   = errors.New("cannot normalize float")
	ErrNotRedactable          = errors.New("not redactable")
)

func hash(t string, b []byte) []byte {
	h := sha256.New()
	h.Write([]byte(t))
	h.Write(b)
	return h.Sum(nil)
}

func floatNormalize(f float64) (string, error) {
	if math.IsNaN(f) {
		return "NaN", nil
	}
	if math.IsInf(f, 1) {
		return "Infinity", nil
	}
	if math.IsInf(f, -1) {
		return "-Infinity", nil
	}
	if f == 0 {
		return "+0:", nil
	}
	s := "+"
	if f < 0 {
		s = "-"
		f = -f
	}
	e := 0
	for f > 1 {
		f /= 2
		e++
	}
	for f <= .5 {
		f *= 2
		e--
	}
	s += strconv.Itoa(e) + ":"
	if f > 1 || f <= .5 {
		return "", ErrCannotNormalizeFloat
	}
	for f != 0 {
		if f >= 1 {
			s += "1"
			f--
		} else {
			s += "0"
		}
		if f >= 1 || len(s) >= 1000 {
			return "", ErrCannotNormalizeFloat
		}
		f *= 2
	}
	return s, nil
}

// ObjectHashWithRedaction returns the object hash, treating strings with the given
// prefix as the hash of the value that was there.
func ObjectHashWithRedaction(o interface{}, prefix string) ([]byte, error) {
	switch v := o.(type) {
	case nil:
		return hash("n", nil), nil
	case bool:
		if v {
			return hash("b", []byte("1")), nil
		}
		return hash("b", []byte("0")), nil
	case float64:
		s, err := floatNormalize(v)
		if err != nil {
			return nil, err
		}
		return hash("f", []byte(s)), nil
	case string:
		if len(prefix) != 0 && strings.HasPrefix(v, prefix) {
			return hex.DecodeString(v[len(prefix):])
		}
		return hash("u", []byte(v)), nil
	case []interface{}:
		var b []byte
		for _, x := range v {
			h, err := ObjectHashWithRedaction(x, prefix)
			if err != nil {
				return nil, err
			}
			b = append(b, h...)
		}
		return hash("l", b), nil
	case map[string]interface{}:
		items := make([][]byte, 0, len(v))
		for k, x := range v {
			hk, err := ObjectHashWithRedaction(k, "")
			if err != nil {
				return nil, err
			}
			hv, err := ObjectHashWithRedaction(x, prefix)
			if err != nil {
				return nil, err
			}
			items = append(items, append(append([]byte{}, hk...), hv...))
		}
		sort.Slice(items, func(i, j int) bool { return bytes.Compare(items[i], items[j]) < 0 })
		return hash("d", bytes.Join(items, nil)), nil
	}
	return nil, ErrUnrecognizedObjectType
}

// ObjectHash returns the object hash with no redaction.
func ObjectHash(o interface{}) ([]byte, error) { return ObjectHashWithRedaction(o, "") }

// ObjectHashWithStdRedaction uses the standard prefix.
func ObjectHashWithStdRedaction(o interface{}) ([]byte, error) {
	return ObjectHashWithRedaction(o, StdRedactionPrefix)
}

// CommonJSONHash parses JSON and returns its object hash.
func CommonJSONHash(j []byte) ([]byte, error) {
	var o interface{}
	if err := json.Unmarshal(j, &o); err != nil {
		return nil, err
	}
	return ObjectHash(o)
}

func nonce() (string, error) {
	b := make([]byte, 32)
	if _, err := rand.Read(b); err != nil {
		return "", err
	}
	return hex.EncodeToString(b), nil
}

// Redactable wraps every map value in a <nonce, value> tuple.
func Redactable(o interface{}) (interface{}, error) {
	switch v := o.(type) {
	case []interface{}:
		rv := make([]interface{}, len(v))
		for i, x := range v {
			r, err := Redactable(x)
			if err != nil {
				return nil, err
			}
			rv[i] = r
		}
		return rv, nil
	case map[string]interface{}:
		rv := make(map[string]interface{}, len(v))
		for k, x := range v {
			r, err := Redactable(x)
			if err != nil {
				return nil, err
			}
			n, err := nonce()
			if err != nil {
				return nil, err
			}
			rv[k] = []interface{}{n, r}
		}
		return rv, nil
	}
	return o, nil
}

// UnredactableWithStdPrefix sheds redacted fields and unwraps tuples.
func UnredactableWithStdPrefix(o interface{}) (interface{}, error) {
	switch v := o.(type) {
	case []interface{}:
		rv := make([]interface{}, len(v))
		for i, x := range v {
			r, err := UnredactableWithStdPrefix(x)
			if err != nil {
				return nil, err
			}
			rv[i] = r
		}
		return rv, nil
	case map[string]interface{}:
		rv := make(map[string]interface{}, len(v))
		for k, x := range v {
			switch y := x.(type) {
			case string:
				if !strings.HasPrefix(y, StdRedactionPrefix) {
					return nil, ErrNotRedactable
				}
			case []interface{}:
				if len(y) != 2 {
					return nil, ErrNotRedactable
				}
				r, err := UnredactableWithStdPrefix(y[1])
				if err != nil {
					return nil, err
				}
				rv[k] = r
			default:
				return nil, ErrNotRedactable
			}
		}
		return rv, nil
	}
	return o, nil
}

// Filtered keeps the comma separated fields and replaces the values of all others
// with the redaction marker.
func Filtered(o interface{}, fields string) (interface{}, error) {
	if fields == "*" {
		return o, nil
	}
	m, ok := o.(map[string]interface{})
	if !ok {
		return nil, ErrNotRedactable
	}
	keep := make(map[string]bool)
	for _, f := range strings.Split(fields, ",") {
		keep[f] = true
	}
	rv := make(map[string]interface{}, len(m))
	for k, x := range m {
		if keep[k] {
			rv[k] = x
			continue
		}
		h, err := ObjectHashWithStdRedaction(x)
		if err != nil {
			return nil, err
		}
		rv[k] = StdRedactionPrefix + hex.EncodeToString(h)
	}
	return rv, nil
}
