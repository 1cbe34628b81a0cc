// Serves the documents that the generator fetches from files named in the
// environment: there is no network here.
package main

import (
	"bytes"
	"fmt"
	"io"
	"net/http"
	"os"
	"strings"
)

type verifTransport struct{}

func (verifTransport) RoundTrip(req *http.Request) (*http.Response, error) {
	file := os.Getenv("VERIF_SCHEMA")
	if strings.HasSuffix(req.URL.Path, "/package.json") {
		file = os.Getenv("VERIF_PACKAGE")
	} else if !strings.HasSuffix(req.URL.Path, "/debugProtocol.json") {
		return nil, fmt.Errorf("unexpected URL %v", req.URL)
	}
	data, err := os.ReadFile(file)
	if err != nil {
		return nil, err
	}
	return &http.Response{
		Status:        "200 OK",
		StatusCode:    200,
		Proto:         "HTTP/1.1",
		ProtoMajor:    1,
		ProtoMinor:    1,
		Header:        http.Header{"Content-Type": []string{"application/json"}},
		Body:          io.NopCloser(bytes.NewReader(data)),
		ContentLength: int64(len(data)),
		Request:       req,
	}, nil
}

func init() { http.DefaultTransport = verifTransport{} }
