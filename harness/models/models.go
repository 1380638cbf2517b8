// Package models holds Go models of library functions that the engine
// substitutes for the real ones (see redirectTable in the engine).
package models

import (
	"context"
	"crypto/sha256"
	"hash"
	"sync"
)

type sha struct{ buf []byte }

func (s *sha) Write(p []byte) (int, error) {
	s.buf = append(s.buf, p...)
	return len(p), nil
}

func (s *sha) Sum(b []byte) []byte {
	d := sha256.Sum256(s.buf)
	return append(b, d[:]...)
}

func (s *sha) Reset()         { s.buf = nil }
func (s *sha) Size() int      { return 32 }
func (s *sha) BlockSize() int { return 64 }

// SHA256New models crypto/sha256.New.
func SHA256New() hash.Hash { return &sha{buf: make([]byte, 0, 80)} }

// decode is utf8.DecodeRune without table lookups.
func decode(n int, at func(int) byte) (rune, int) {
	if n == 0 {
		return 0xfffd, 0
	}
	b := at(0)
	if b < 0x80 {
		return rune(b), 1
	}
	if b < 0xc2 || b > 0xf4 || n < 2 {
		return 0xfffd, 1
	}
	c := at(1)
	if b < 0xe0 {
		if c&0xc0 != 0x80 {
			return 0xfffd, 1
		}
		return rune(b&0x1f)<<6 | rune(c&0x3f), 2
	}
	lo, hi := byte(0x80), byte(0xbf)
	switch b {
	case 0xe0:
		lo = 0xa0
	case 0xed:
		hi = 0x9f
	case 0xf0:
		lo = 0x90
	case 0xf4:
		hi = 0x8f
	}
	if c < lo || c > hi || n < 3 {
		return 0xfffd, 1
	}
	d := at(2)
	if d&0xc0 != 0x80 {
		return 0xfffd, 1
	}
	if b < 0xf0 {
		return rune(b&0x0f)<<12 | rune(c&0x3f)<<6 | rune(d&0x3f), 3
	}
	if n < 4 {
		return 0xfffd, 1
	}
	x := at(3)
	if x&0xc0 != 0x80 {
		return 0xfffd, 1
	}
	return rune(b&0x07)<<18 | rune(c&0x3f)<<12 | rune(d&0x3f)<<6 | rune(x&0x3f), 4
}

// DecodeRune models utf8.DecodeRune.
func DecodeRune(p []byte) (rune, int) { return decode(len(p), func(i int) byte { return p[i] }) }

// DecodeRuneInString models utf8.DecodeRuneInString.
func DecodeRuneInString(s string) (rune, int) {
	return decode(len(s), func(i int) byte { return s[i] })
}

// PoolGet models (*sync.Pool).Get: nothing is ever kept.
func PoolGet(p *sync.Pool) any {
	if p.New != nil {
		return p.New()
	}
	return nil
}

// PoolPut models (*sync.Pool).Put.
func PoolPut(p *sync.Pool, x any) {}

type valueCtx struct {
	context.Context
	k, v any
}

func (c *valueCtx) Value(k any) any {
	if c.k == k {
		return c.v
	}
	return c.Context.Value(k)
}

// WithValue models context.WithValue.
func WithValue(parent context.Context, k, v any) context.Context {
	return &valueCtx{parent, k, v}
}
