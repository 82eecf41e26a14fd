package goval

import (
	"bufio"
	"bytes"
	"compress/gzip"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"fmt"
	"math/big"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"strings"
	"time"

	"verif/harness/cli"
	"verif/harness/rt"
)

// Proxy stands in for the web: all requests of a command go to its handler.
type Proxy struct {
	Env []string
	l   net.Listener
}

// Hangup, as the status of an Answer, closes the connection without a response; Hang never answers.
const (
	Hangup = -1
	Hang   = -2
)

// Answer of a handler.
type Answer struct {
	Status int
	Type   string
	Body   []byte
	Cut    int // if positive, the connection closes this many bytes before the end of the body
	// Form of the transfer: "gzip" compresses if the request allows it (as the Stack Exchange API and Wikipedia do),
	// "chunked" sends chunks; "gzip chunked" does both.
	Form string
}

// Forms of Answers.
var Forms = []string{"", "gzip", "chunked", "gzip chunked"}

// head and body of an answer to a request
func (a Answer) encode(req *http.Request) (string, []byte) {
	head, body := "", a.Body
	if strings.Contains(a.Form, "gzip") && strings.Contains(req.Header.Get("Accept-Encoding"), "gzip") && len(body) > 0 {
		var b bytes.Buffer
		z := gzip.NewWriter(&b)
		z.Write(body)
		z.Close()
		head, body = "Content-Encoding: gzip\r\n", b.Bytes()
	}
	if !strings.Contains(a.Form, "chunked") || len(body) == 0 {
		return fmt.Sprintf("%sContent-Length: %d\r\n", head, len(body)), body
	}
	var b bytes.Buffer
	for i := 0; len(body) > 0; i++ {
		n := min([]int{1, 100, 5000, 3}[i%4], len(body))
		fmt.Fprintf(&b, "%x\r\n%s\r\n", n, body[:n])
		body = body[n:]
	}
	b.WriteString("0\r\n\r\n")
	return head + "Transfer-Encoding: chunked\r\n", b.Bytes()
}

// NewProxy listens for requests; for those with TLS, with a certificate for the host.
func NewProxy(dir, host string, handler func(*http.Request) Answer) *Proxy {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	rt.Must(err)
	url := "http://" + l.Addr().String()
	certs, empty := filepath.Join(dir, "ca.pem"), filepath.Join(dir, "empty")
	rt.Must(os.MkdirAll(empty, 0o755))
	pemCert, cert := certificate(host)
	rt.Must(os.WriteFile(certs, pemCert, 0o644))
	p := &Proxy{l: l, Env: []string{"HTTP_PROXY=" + url, "HTTPS_PROXY=" + url, "http_proxy=" + url, "https_proxy=" + url, "NO_PROXY=", "no_proxy=", "SSL_CERT_FILE=" + certs, "SSL_CERT_DIR=" + empty}}
	go func() {
		for {
			conn, err := l.Accept()
			if err != nil {
				return
			}
			go serve(conn, host, cert, handler)
		}
	}()
	return p
}

// Close stops listening.
func (p *Proxy) Close() { p.l.Close() }

func serve(conn net.Conn, host string, cert tls.Certificate, handler func(*http.Request) Answer) {
	defer conn.Close()
	conn.SetDeadline(time.Now().Add(time.Minute))
	r := bufio.NewReader(conn)
	for {
		req, err := http.ReadRequest(r)
		if err != nil {
			return
		}
		if req.Method == "CONNECT" {
			fmt.Fprintf(conn, "HTTP/1.1 200 OK\r\n\r\n")
			t := tls.Server(conn, &tls.Config{Certificates: []tls.Certificate{cert}})
			defer t.Close()
			conn, r = t, bufio.NewReader(t)
			continue
		}
		a := handler(req)
		switch a.Status {
		case Hangup:
			return
		case Hang:
			r.ReadByte()
			return
		}
		head, body := a.encode(req)
		fmt.Fprintf(conn, "HTTP/1.1 %d %s\r\nContent-Type: %s\r\n%sConnection: close\r\n\r\n", a.Status, http.StatusText(a.Status), a.Type, head)
		if a.Cut > 0 {
			body = body[:max(0, len(body)-max(a.Cut*len(body)/len(a.Body), 9))]
		}
		conn.Write(body)
		return
	}
}

var cached struct {
	host string
	pem  []byte
	cert tls.Certificate
}

func certificate(host string) ([]byte, tls.Certificate) {
	if cached.host == host {
		return cached.pem, cached.cert
	}
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	rt.Must(err)
	now := time.Now()
	tmpl := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: host}, DNSNames: []string{host}, NotBefore: now.Add(-48 * time.Hour), NotAfter: now.Add(480 * time.Hour),
		IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageDigitalSignature | x509.KeyUsageCertSign, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}}
	der, err := x509.CreateCertificate(rand.Reader, tmpl, tmpl, &key.PublicKey, key)
	rt.Must(err)
	cached.host = host
	cached.pem = pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der})
	cached.cert = tls.Certificate{Certificate: [][]byte{der}, PrivateKey: key}
	return cached.pem, cached.cert
}

// State of generated.go before a run.
var States = []string{"none", "old", "longer"}

// Prepare puts generated.go in a state, and returns its content.
func Prepare(dir, state string) []byte {
	var old []byte
	switch state {
	case "old":
		old = []byte("package old\n")
	case "longer":
		old = make([]byte, 400000)
		for i := range old {
			old[i] = "package old // \n"[i%16]
		}
	default:
		return nil
	}
	rt.Must(os.WriteFile(filepath.Join(dir, "generated.go"), old, 0o644))
	return old
}

// Succeeded checks a run that should have written the mappings.
func Succeeded(dir, pkg string, result cli.Result, want map[string]string) error {
	if result.Code != 0 {
		return fmt.Errorf("failed: %v", result)
	}
	source, err := os.ReadFile(filepath.Join(dir, "generated.go"))
	if err != nil {
		return fmt.Errorf("no generated.go: %v", err)
	}
	name, got, err := Mappings(source)
	if err != nil {
		return fmt.Errorf("generated.go %v", err)
	}
	if name != pkg {
		return fmt.Errorf("generated.go is of package %s", name)
	}
	if err := Differ(got, want); err != nil {
		return fmt.Errorf("generated.go %v", err)
	}
	return nil
}

// Failed checks a run that should have failed, without touching generated.go.
func Failed(dir string, result cli.Result, old []byte) error {
	if result.Code == 0 {
		return fmt.Errorf("expected failure: %v", result)
	}
	if len(bytes.TrimSpace(result.Stderr)) == 0 {
		return fmt.Errorf("failed without a message")
	}
	got, err := os.ReadFile(filepath.Join(dir, "generated.go"))
	if old == nil {
		if err == nil {
			return fmt.Errorf("failed, but left a generated.go: %s", cli.Short(got))
		}
		return nil
	}
	if err != nil || string(got) != string(old) {
		return fmt.Errorf("failed, but changed generated.go: %s, %v", cli.Short(got), err)
	}
	return nil
}

// Blocked puts a directory in the place of generated.go.
func Blocked(dir string) {
	os.RemoveAll(filepath.Join(dir, "generated.go"))
	rt.Must(os.Mkdir(filepath.Join(dir, "generated.go"), 0o755))
}

// FailedWriting checks a run that could not write generated.go, or not completely: unless all of it fitted, it
// should have said so.
func FailedWriting(dir, pkg string, blocked bool, result cli.Result, want map[string]string) error {
	if result.Code == 0 && !blocked {
		return Succeeded(dir, pkg, result, want)
	}
	if result.Code == 0 {
		return fmt.Errorf("generated.go cannot be written, but no failure: %v", result)
	}
	if len(bytes.TrimSpace(result.Stderr)) == 0 {
		return fmt.Errorf("failed without a message: %v", result)
	}
	return nil
}
