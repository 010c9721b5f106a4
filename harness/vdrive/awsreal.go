package main

import (
	"bufio"
	"bytes"
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/sha256"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/hex"
	"encoding/pem"
	"io"
	"math/big"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"time"

	"github.com/aws/aws-sdk-go-v2/aws"
	v4 "github.com/aws/aws-sdk-go-v2/aws/signer/v4"
)

// awsReal stands for AWS itself: a proxy every connection of gr goes through, ending TLS with certificates of its own
// authority, which gr is told to trust by AWS_CA_BUNDLE.
type awsReal struct {
	rec  *Rec
	l    net.Listener
	mock *awsStand // with --use-mock: the stand-in at localhost:8080 serves, the proxy only watches
}

var caOnce sync.Once
var caKey *ecdsa.PrivateKey
var caCert *x509.Certificate
var caPem []byte
var hostMu sync.Mutex
var hostCerts = map[string]*tls.Certificate{}

func makeCA() {
	caKey, _ = ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	t := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "stand-in"}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(240 * time.Hour),
		IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign}
	der, _ := x509.CreateCertificate(rand.Reader, t, t, &caKey.PublicKey, caKey)
	caCert, _ = x509.ParseCertificate(der)
	caPem = pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der})
}

func certFor(host string) *tls.Certificate {
	hostMu.Lock()
	defer hostMu.Unlock()
	if c := hostCerts[host]; c != nil {
		return c
	}
	k, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	t := &x509.Certificate{SerialNumber: big.NewInt(int64(len(hostCerts) + 2)), Subject: pkix.Name{CommonName: "host"}, DNSNames: []string{host}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(240 * time.Hour)}
	der, err := x509.CreateCertificate(rand.Reader, t, caCert, &k.PublicKey, caKey)
	if err != nil {
		return nil
	}
	c := &tls.Certificate{Certificate: [][]byte{der}, PrivateKey: k}
	hostCerts[host] = c
	return c
}

func startAwsReal(rec *Rec, mock bool) (Stand, error) {
	caOnce.Do(makeCA)
	s := &awsReal{rec: rec}
	if mock {
		m, err := startAws(rec)
		if err != nil {
			return nil, err
		}
		s.mock = m.(*awsStand)
	}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return nil, err
	}
	s.l = l
	f := filepath.Join(filepath.Dir(rec.dir), "ca-"+filepath.Base(rec.dir)+".pem")
	if err := os.WriteFile(f, caPem, 0644); err != nil {
		return nil, err
	}
	env := map[string]string{}
	for k, v := range rec.sc.Env {
		env[k] = v
	}
	env["HTTPS_PROXY"] = "http://" + l.Addr().String()
	env["HTTP_PROXY"] = "http://" + l.Addr().String()
	env["AWS_CA_BUNDLE"] = f
	env["AWS_EC2_METADATA_DISABLED"] = "true"
	sc := *rec.sc
	sc.Env = env
	rec.sc = &sc
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go s.conn(c)
		}
	}()
	return s, nil
}

func (s *awsReal) Addr() string { return s.l.Addr().String() }
func (s *awsReal) Close() {
	s.l.Close()
	if s.mock != nil {
		s.mock.Close()
	}
	os.Remove(filepath.Join(filepath.Dir(s.rec.dir), "ca-"+filepath.Base(s.rec.dir)+".pem"))
}

func (s *awsReal) elsewhere(host string) {
	i, _ := s.rec.begin(Event{Kind: "elsewhere", Path: host})
	s.rec.end(i, "err", false)
}

func (s *awsReal) conn(c net.Conn) {
	defer c.Close()
	br := bufio.NewReader(c)
	r, err := http.ReadRequest(br)
	if err != nil {
		return
	}
	host, port, _ := net.SplitHostPort(r.Host)
	if r.Method != "CONNECT" || port != "443" || s.mock != nil {
		s.elsewhere(r.Host)
		io.WriteString(c, "HTTP/1.1 502 Bad Gateway\r\nContent-Length: 0\r\nConnection: close\r\n\r\n")
		return
	}
	cert := certFor(host)
	if cert == nil {
		s.elsewhere(r.Host)
		return
	}
	io.WriteString(c, "HTTP/1.1 200 OK\r\n\r\n")
	tc := tls.Server(c, &tls.Config{Certificates: []tls.Certificate{*cert}})
	if err := tc.Handshake(); err != nil {
		return
	}
	done := make(chan struct{})
	srv := &http.Server{Handler: http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		body, _ := io.ReadAll(r.Body)
		serveAws(w, r, body, s.rec, signedBy(r, body, host, s.rec.sc.Server.Password))
	})}
	srv.ConnState = func(_ net.Conn, st http.ConnState) {
		if st == http.StateClosed || st == http.StateHijacked {
			select {
			case <-done:
			default:
				close(done)
			}
		}
	}
	srv.Serve(&oneConn{c: tc, done: done})
}

type oneConn struct {
	c    net.Conn
	done chan struct{}
}

func (o *oneConn) Accept() (net.Conn, error) {
	if c := o.c; c != nil {
		o.c = nil
		return c, nil
	}
	<-o.done
	return nil, io.EOF
}
func (o *oneConn) Close() error   { return nil }
func (o *oneConn) Addr() net.Addr { return &net.TCPAddr{} }

var reAuth = regexp.MustCompile(`^AWS4-HMAC-SHA256 Credential=([^/]+)/(\d+)/([^/]+)/([^/]+)/aws4_request, SignedHeaders=([^,]+), Signature=([0-9a-f]+)$`)

// signedBy says who signed a request, for which region and service, and whether the signature is that of the secret.
func signedBy(r *http.Request, body []byte, host, secret string) Event {
	ev := Event{Path: r.Host, RawPath: r.RequestURI, Params: map[string]string{"conn": host, "token": r.Header.Get("X-Amz-Security-Token")}, Pass: "none"}
	m := reAuth.FindStringSubmatch(r.Header.Get("Authorization"))
	if m == nil {
		return ev
	}
	ev.User, ev.Params["region"], ev.Params["service"], ev.Pass = m[1], m[3], m[4], "wrong"
	at, err := time.Parse("20060102T150405Z", r.Header.Get("X-Amz-Date"))
	if err != nil {
		return ev
	}
	q, err := http.NewRequest(r.Method, "https://"+r.Host+r.RequestURI, bytes.NewReader(body))
	if err != nil {
		return ev
	}
	for _, h := range strings.Split(m[5], ";") {
		if h != "host" && h != "content-length" && h != "x-amz-security-token" && h != "x-amz-date" {
			for _, v := range r.Header.Values(h) {
				q.Header.Add(h, v)
			}
		}
	}
	sum := sha256.Sum256(body)
	cr := aws.Credentials{AccessKeyID: m[1], SecretAccessKey: secret, SessionToken: r.Header.Get("X-Amz-Security-Token")}
	if err := v4.NewSigner().SignHTTP(context.Background(), cr, q, hex.EncodeToString(sum[:]), m[4], m[3], at); err != nil {
		return ev
	}
	if n := reAuth.FindStringSubmatch(q.Header.Get("Authorization")); n != nil && n[6] == m[6] {
		ev.Pass = "right"
	}
	return ev
}
