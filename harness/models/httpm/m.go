// Package httpm models the HTTP client of the standard library, as far as it
// talks to a transport given to it.
package httpm

import (
	"encoding/json"
	"errors"
	"io"
	"net/http"
)

// Do models (*http.Client).Do without cookies, timeouts and referers.
func Do(c *http.Client, req *http.Request) (*http.Response, error) {
	for n := 0; n < 10; n++ {
		resp, err := c.Transport.RoundTrip(req)
		if err != nil {
			return nil, err
		}
		keep := false
		switch resp.StatusCode {
		case 301, 302, 303:
		case 307, 308:
			keep = true
		default:
			return resp, nil
		}
		loc := resp.Header.Get("Location")
		if loc == "" {
			return resp, nil
		}
		u, err := req.URL.Parse(loc)
		if err != nil {
			return nil, err
		}
		next := (&http.Request{Method: req.Method, URL: u, Header: req.Header, Host: u.Host}).WithContext(req.Context())
		if keep {
			if next.Body, err = req.GetBody(); err != nil {
				return nil, err
			}
			next.GetBody = req.GetBody
		} else if req.Method != "GET" && req.Method != "HEAD" {
			next.Method = "GET"
		}
		req = next
	}
	return nil, errors.New("stopped after 10 redirects")
}

var encoders = map[*json.Encoder]io.Writer{}

// NewEncoder models json.NewEncoder.
func NewEncoder(w io.Writer) *json.Encoder {
	e := &json.Encoder{}
	encoders[e] = w
	return e
}

// Encode models (*json.Encoder).Encode.
func Encode(e *json.Encoder, v any) error {
	b, err := json.Marshal(v)
	if err != nil {
		return err
	}
	_, err = encoders[e].Write(append(b, '\n'))
	return err
}

// DetectContentType models http.DetectContentType, whose result nothing here uses.
func DetectContentType(b []byte) string { return "application/octet-stream" }
