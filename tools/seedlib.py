import sys
import os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mkseed import seed
only=sys.argv[1:]
def S(id,*a,**k):
    if only and id not in only: return
    print(id, seed(id,*a,**k))

HEAD='''package strip

import (
	"net/http"
	"net/http/httptest"
	"testing"
)

func verifDo(s *Strip, method, path string) *httptest.ResponseRecorder {
	rec := httptest.NewRecorder()
	req, _ := http.NewRequest(method, path, nil)
	s.ServeHTTP(rec, req)
	return rec
}
'''
PROV='''package strip_test

import (
	"errors"
	"net/http"
	"net/http/httptest"
	"testing"
	"time"

	"github.com/wujiu2020/strip/sessions"
)

var errVerif = errors.New("store failed")

type verifProv struct {
	sessions.SessionProvider
	readErr error
	created int
}

func (p *verifProv) Config() *sessions.Config {
	return &sessions.Config{SecretKey: "secret", SessionExpire: 3600}
}
func (p *verifProv) Read(sid string) (sessions.SessionStore, error) { return nil, p.readErr }
func (p *verifProv) Destroy(sid string) error                       { return nil }
func (p *verifProv) Create(sid string, params ...map[string]interface{}) (sessions.SessionStore, error) {
	p.created++
	return &verifSess{sid: sid}, nil
}

type verifSess struct {
	sessions.SessionStore
	sid string
}

func (s *verifSess) Sid() string { return s.sid }

var verifCfg = &sessions.CookieConfig{CookieName: "sid", CookieRememberName: "rem", CookieDomain: "example.org", CookieExpire: 60, RememberExpire: 3600}
var _ = time.Now
var _ = httptest.NewRecorder
var _ http.Handler
'''
FAKE='''package strip_test

import (
	"bufio"
	"fmt"
	"io"
	"net"
	"strings"
	"sync"
	"testing"

	"github.com/bradfitz/gomemcache/memcache"
	"github.com/mediocregopher/radix.v2/pool"
	"github.com/wujiu2020/strip/caches"
)

type verifRedis struct {
	sync.Mutex
	cmds [][]string
	ln   net.Listener
}

// a server that answers every command with the reply given for it
func newVerifRedis(t *testing.T, replies map[string]string) *verifRedis {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	s := &verifRedis{ln: ln}
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			go func() {
				defer c.Close()
				r := bufio.NewReader(c)
				for {
					var n int
					if _, err := fmt.Fscanf(r, "*%d\\r\\n", &n); err != nil {
						return
					}
					var cmd []string
					for i := 0; i < n; i++ {
						var l int
						if _, err := fmt.Fscanf(r, "$%d\\r\\n", &l); err != nil {
							return
						}
						b := make([]byte, l+2)
						if _, err := io.ReadFull(r, b); err != nil {
							return
						}
						cmd = append(cmd, string(b[:l]))
					}
					s.Lock()
					s.cmds = append(s.cmds, cmd)
					s.Unlock()
					rep := replies[strings.ToUpper(cmd[0])]
					if rep == "" {
						rep = "+OK"
					}
					fmt.Fprintf(c, "%s\\r\\n", rep)
				}
			}()
		}
	}()
	return s
}

var _ = memcache.New
var _ = pool.New

func verifProvider(t *testing.T, s *verifRedis) (caches.CacheProvider, *pool.Pool) {
	p, err := pool.New("tcp", s.ln.Addr().String(), 3)
	if err != nil {
		t.Fatal(err)
	}
	c, err := caches.NewRedisProvider(caches.RedisConfig{KeyPrefix: "p:", Client: p})
	if err != nil {
		t.Fatal(err)
	}
	return c, p
}
'''
