// Package vhttp stands in for the HTTP client of package net/http.
package vhttp

import (
	"io"
	"net/http"
	"net/url"
	"strings"
	"time"

	"vsim/simnet"
)

type Client struct {
	Transport     http.RoundTripper
	CheckRedirect func(req *http.Request, via []*http.Request) error
	Jar           http.CookieJar
	Timeout       time.Duration
}

var DefaultClient = &Client{}

func (c *Client) Do(req *http.Request) (*http.Response, error) {
	var ht time.Duration
	switch t := c.Transport.(type) {
	case nil:
	case *http.Transport:
		ht = t.ResponseHeaderTimeout
	default:
		_ = t
	}
	return simnet.Do(req, c.Timeout, ht)
}

func (c *Client) Get(u string) (*http.Response, error) {
	req, err := http.NewRequest("GET", u, nil)
	if err != nil {
		return nil, err
	}
	return c.Do(req)
}

func (c *Client) Head(u string) (*http.Response, error) {
	req, err := http.NewRequest("HEAD", u, nil)
	if err != nil {
		return nil, err
	}
	return c.Do(req)
}

func (c *Client) Post(u, ct string, body io.Reader) (*http.Response, error) {
	req, err := http.NewRequest("POST", u, body)
	if err != nil {
		return nil, err
	}
	req.Header.Set("Content-Type", ct)
	return c.Do(req)
}

func (c *Client) PostForm(u string, data url.Values) (*http.Response, error) {
	return c.Post(u, "application/x-www-form-urlencoded", strings.NewReader(data.Encode()))
}

func (c *Client) CloseIdleConnections() {}

func Get(u string) (*http.Response, error)  { return DefaultClient.Get(u) }
func Head(u string) (*http.Response, error) { return DefaultClient.Head(u) }
func Post(u, ct string, body io.Reader) (*http.Response, error) {
	return DefaultClient.Post(u, ct, body)
}
func PostForm(u string, data url.Values) (*http.Response, error) {
	return DefaultClient.PostForm(u, data)
}
