// Package prelude holds models, in Go, of standard-library objects that the
// engine executes instead of the originals: hashes (contract: an ideal
// function of the written bytes) and the http helpers (contract: what
// net/http documents). Native replays use the originals.
package prelude

import (
	"hash"
	"html"
	"net/http"
	"strings"
)

type symHash struct {
	name string
	mac  bool
	key  string
	data string
}

func NewHash(name string) hash.Hash      { return &symHash{name: name} }
func NewHMAC(name, key string) hash.Hash { return &symHash{name: name, mac: true, key: key} }

func (h *symHash) Write(p []byte) (int, error) {
	h.data += string(p)
	return len(p), nil
}
func (h *symHash) Sum(b []byte) []byte {
	return append(b, []byte(sum(h.name, h.mac, h.key, h.data))...)
}
func (h *symHash) Reset() { h.data = "" }
func (h *symHash) Size() int {
	switch h.name {
	case "sha1":
		return 20
	case "sha256":
		return 32
	case "sha384":
		return 48
	}
	return 64
}
func (h *symHash) BlockSize() int {
	if h.name == "sha384" || h.name == "sha512" {
		return 128
	}
	return 64
}

func sum(name string, mac bool, key, data string) string { return "" }

// Redirect models http.Redirect for absolute URLs.
func Redirect(w http.ResponseWriter, r *http.Request, url string, code int) {
	h := w.Header()
	_, hadCT := h["Content-Type"]
	h.Set("Location", url)
	if !hadCT && (r.Method == "GET" || r.Method == "HEAD") {
		h.Set("Content-Type", "text/html; charset=utf-8")
	}
	w.WriteHeader(code)
	if !hadCT && r.Method == "GET" {
		text := "Found"
		if code != 302 {
			text = http.StatusText(code)
		}
		w.Write([]byte("<a href=\"" + html.EscapeString(url) + "\">" + text + "</a>.\n\n"))
	}
}

// Error models http.Error.
func Error(w http.ResponseWriter, msg string, code int) {
	h := w.Header()
	h.Del("Content-Length")
	h.Set("Content-Type", "text/plain; charset=utf-8")
	h.Set("X-Content-Type-Options", "nosniff")
	w.WriteHeader(code)
	w.Write([]byte(msg + "\n"))
}

var _ = strings.ToLower
