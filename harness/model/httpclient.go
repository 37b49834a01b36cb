package model

import "net/http"

// Peer plays the server of the HTTP client model.
var Peer func(c *http.Client, req *http.Request) (*http.Response, error)

func ClientDo(c *http.Client, req *http.Request) (*http.Response, error) {
	return Peer(c, req)
}
