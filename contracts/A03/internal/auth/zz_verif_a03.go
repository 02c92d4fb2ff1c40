package auth

import (
	"crypto"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/x509"
	"encoding/base64"
	"encoding/json"
	"encoding/pem"
	"errors"
	"net/http"
	"regexp"
	"strings"
	"time"

	jose "github.com/dvsekhvalnov/jose2go"
	"verif.local/spec"
	"verif.local/spec/ghost"
)

// entry is a key the token service publishes.
type entry_ struct {
	KeyId string `json:"kid"`
	Value string `json:"value"`
}
type keysJSON_ struct {
	Keys []entry_ `json:"keys"`
}

// pool holds key texts for native runs: three RSA keys and texts that are none.
var private_, pool_ = func() (ks []*rsa.PrivateKey, texts []string) {
	if !spec.Native() {
		return nil, nil
	}
	text := func(der []byte) string {
		return string(pem.EncodeToMemory(&pem.Block{Type: "PUBLIC KEY", Bytes: der}))
	}
	for i := 0; i < 3; i++ {
		k, err := rsa.GenerateKey(rand.Reader, 1024)
		if err != nil {
			panic(err)
		}
		der, _ := x509.MarshalPKIXPublicKey(&k.PublicKey)
		ks, texts = append(ks, k), append(texts, text(der))
	}
	e, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	der, _ := x509.MarshalPKIXPublicKey(&e.PublicKey)
	return ks, append(texts, text(der), text([]byte("none")), "no PEM", "")
}()

// isKey: the text holds an RSA key.
func isKey_(text string) bool {
	if spec.Native() {
		return text == pool_[0] || text == pool_[1] || text == pool_[2]
	}
	return text != "" && spec.Fn[bool]("is PEM", text) && spec.Fn[bool]("is a key", text) && spec.Fn[bool]("is RSA", text)
}

// keyOf is the key in the text.
func keyOf_(text string) *rsa.PublicKey {
	if spec.Native() {
		for i := range private_ {
			if text == pool_[i] {
				return &private_[i].PublicKey
			}
		}
		return nil
	}
	return spec.Fn[*rsa.PublicKey]("key", text)
}

func sameKey_(a, b *rsa.PublicKey) bool {
	if spec.Native() {
		return a != nil && b != nil && a.Equal(b)
	}
	return a == b
}

// parsing has PEM and PKIX texts parsed as isKey and keyOf say.
func parsing_() {
	spec.Replace(pem.Decode, func(b []byte) (*pem.Block, []byte) {
		if len(b) == 0 || !spec.Fn[bool]("is PEM", string(b)) {
			return nil, b
		}
		return &pem.Block{Bytes: b}, nil
	})
	spec.Replace(x509.ParsePKIXPublicKey, func(b []byte) (interface{}, error) {
		if !spec.Fn[bool]("is a key", string(b)) {
			return nil, errors.New("no key")
		}
		if !spec.Fn[bool]("is RSA", string(b)) {
			return &ecdsa.PublicKey{}, nil
		}
		k := keyOf_(string(b))
		spec.Requires(k != nil)
		return k, nil
	})
	spec.Replace((*regexp.Regexp).ReplaceAllString, func(_ *regexp.Regexp, s, r string) string {
		bare := spec.Fn[string]("bare", s)
		spec.Requires(strings.HasSuffix(s, bare))
		return bare
	})
}

// service is the token service.
type service_ struct {
	down   bool
	status int
	broken bool
	keys   []entry_
	asked  int
	body   *ghost.Body
}

func (s *service_) fine() bool { return !s.down && s.status == 200 && !s.broken }

func (s *service_) Do(r *http.Request) (*http.Response, error) {
	s.asked++
	spec.Ensures("keys are asked for where the token service publishes them", r.Method == "GET" && strings.TrimPrefix(r.URL.Path, "/") == "token_keys")
	if s.down {
		return nil, errors.New("down")
	}
	data, _ := json.Marshal(keysJSON_{s.keys})
	if s.broken {
		data = garbage_()
	}
	s.body = &ghost.Body{Data: data}
	return &http.Response{StatusCode: s.status, Header: http.Header{}, Body: s.body}, nil
}

func native_(s *service_, es ...*entry_) {
	if !spec.Native() {
		return
	}
	s.status = []int{200, 200, 200, 404, 500}[uint(s.status)%5]
	s.broken = s.broken && spec.Rand.Intn(3) == 0
	for _, e := range es {
		e.Value = pool_[spec.Rand.Intn(len(pool_))]
	}
	for i := range s.keys {
		s.keys[i].Value = pool_[spec.Rand.Intn(len(pool_))]
	}
}

func garbage_() []byte {
	b := []byte("<html>")
	if !spec.Native() {
		b = spec.Any[[]byte]("junk")
		spec.Requires(spec.Garbage(b))
	}
	return b
}

// token is what a user shows.
type token_ struct {
	text           string
	alg, kid       string
	hasAlg, hasKid bool
	algNum, kidNum bool   // they are numbers
	signer         string // the text of the key it is signed with
	scopes         []string
	exp            int
	noJSON         bool
	data           []byte
}

type claims_ struct {
	Scope []string `json:"scope"`
	Exp   float64  `json:"exp"`
}

func (t *token_) headers() map[string]interface{} {
	h := map[string]interface{}{}
	if t.hasAlg {
		if t.algNum {
			h["alg"] = 5.0
		} else {
			h["alg"] = t.alg
		}
	}
	if t.hasKid {
		if t.kidNum {
			h["kid"] = 5.0
		} else {
			h["kid"] = t.kid
		}
	}
	return h
}

func (t *token_) payload() []byte {
	if t.data == nil {
		t.data, _ = json.Marshal(claims_{t.scopes, float64(t.exp)})
		if t.noJSON {
			t.data = garbage_()
		}
	}
	return t.data
}

// prepare has the token decoded as jose does, or makes it up.
func (t *token_) prepare() {
	t.data = nil
	if spec.Native() {
		signer := spec.Rand.Intn(3)
		t.signer = pool_[signer]
		if spec.Rand.Intn(3) > 0 {
			t.alg = "RS256"
		}
		h, _ := json.Marshal(t.headers())
		b := base64.RawURLEncoding
		signed := b.EncodeToString(h) + "." + b.EncodeToString(t.payload())
		d := sha256.Sum256([]byte(signed))
		sig, err := rsa.SignPKCS1v15(rand.Reader, private_[signer], crypto.SHA256, d[:])
		spec.Requires(err == nil)
		if t.alg == "none" {
			sig = nil
		}
		t.text = []string{"", "bearer ", "Bearer  "}[spec.Rand.Intn(3)] + signed + "." + b.EncodeToString(sig)
		return
	}
	spec.Replace(jose.Decode, func(text string, k interface{}) (string, map[string]interface{}, error) {
		spec.Ensures("the user's token is decoded", strings.HasSuffix(t.text, text))
		h := t.headers()
		k = k.(func(map[string]interface{}, string) interface{})(h, string(t.payload()))
		if err, ok := k.(error); ok {
			return "", nil, err
		}
		if pk, ok := k.(*rsa.PublicKey); ok && t.rs256() && pk == keyOf_(t.signer) {
			return string(t.payload()), h, nil
		}
		if k == nil && t.alg == "none" {
			return string(t.payload()), h, nil
		}
		return "", nil, errors.New("verification error")
	})
}

func (t *token_) rs256() bool { return t.hasAlg && !t.algNum && t.alg == "RS256" }

// ContractForged: only tokens signed with a published key are accepted. p is a
// key known from before, e one that is learned when keys are asked for.
func ContractForged(s *service_, p, e *entry_, known bool, t *token_) {
	spec.Requires(s != nil && e != nil && p != nil && t != nil)
	spec.GoSkip()
	native_(s, e, p)
	s.asked = 0
	s.keys = []entry_{*e}
	t.scopes, t.noJSON, t.exp = nil, false, 1<<33
	if spec.Native() && spec.Rand.Intn(2) == 0 {
		t.kid = e.KeyId
	}
	t.prepare()
	parsing_()
	var c *UAAClient
	learned := s.fine() && isKey_(e.Value)
	spec.Replace((*UAAClient).RefreshTokenKeys, func(*UAAClient) error {
		s.asked++
		if !learned {
			return errors.New("cannot learn keys")
		}
		c.publicKeys.Store(e.KeyId, keyOf_(e.Value))
		return nil
	})
	spec.Requires(keyOf_(p.Value) != nil && keyOf_(e.Value) != nil && keyOf_(t.signer) != nil || spec.Native())
	c = NewUAAClient("https://uaa", s, gauges_{}, silent_())
	known = known && isKey_(p.Value)
	if known {
		c.publicKeys.Store(p.KeyId, keyOf_(p.Value))
	}
	u, err := c.Read(t.text)

	known = known && p.KeyId == t.kid
	signed := t.rs256() && t.hasKid && !t.kidNum && (known || learned && t.kid == e.KeyId) && sameKey_(keyOf_(spec.Ite(known, p.Value, e.Value)), keyOf_(t.signer))
	if err == nil {
		spec.Cover("accepted")
		spec.Ensures("a token is accepted only with a signature made with a key published under its name", signed && t.text != "")
		return
	}
	spec.Cover("refused")
	spec.Ensures("with an error there is no user", u == Oauth2ClientContext{})
	spec.Ensures("keys are asked for once at most", s.asked <= 1 || spec.Native())
}

// ContractClaims: a signed token says who the user is, until it expires.
func ContractClaims(t *token_, e *entry_) {
	spec.Requires(t != nil && e != nil)
	spec.GoSkip()
	spec.Requires(0 <= t.exp && t.exp < 1<<33)
	t.alg, t.hasAlg, t.hasKid, t.algNum, t.kidNum = "RS256", true, true, false, false
	if spec.Native() {
		t.exp = int(time.Now().Unix()) + t.exp%100 - 50
		if spec.Rand.Intn(2) == 0 {
			t.scopes = append(t.scopes, []string{"logs.admin", "doppler.firehose", "LOGS.ADMIN"}[spec.Rand.Intn(3)])
		}
	}
	t.prepare()
	parsing_()
	c := NewUAAClient("https://uaa", &service_{down: true}, gauges_{}, silent_())
	c.publicKeys.Store(t.kid, keyOf_(t.signer))
	spec.Requires(keyOf_(t.signer) != nil && t.text != "")
	scopes := t.scopes
	spec.Invariant(func(is bool, i int) bool { return is == hasAdmin_(scopes, i+1) })
	before := time.Now()
	u, err := c.Read(t.text)
	after := time.Now()
	if err == nil {
		spec.Cover("accepted")
		spec.Ensures("a token without claims is refused", !t.noJSON)
		spec.Ensures("an expired token is refused", before.UnixNano() <= int64(t.exp)*1e9)
		spec.Ensures("administrators are those with an administrator's scope", u.IsAdmin == hasAdmin_(t.scopes, len(t.scopes)))
		spec.Ensures("the user is known by the token", u.Token == t.text)
		spec.Ensures("the end of the token is known", u.ExpiresAt.Equal(time.Unix(int64(t.exp), 0)))
		return
	}
	spec.Cover("refused")
	spec.Ensures("with an error there is no user", u == Oauth2ClientContext{})
	spec.Ensures("a good token is accepted", t.noJSON || after.UnixNano() > int64(t.exp)*1e9)
}

func hasAdmin_(scopes []string, n int) bool {
	return spec.Exists(0, n, func(i int) bool { return scopes[i] == "doppler.firehose" || scopes[i] == "logs.admin" })
}

// client has some keys from before.
func client_(s *service_, every time.Duration) *UAAClient {
	parsing_()
	c := NewUAAClient("https://uaa", s, gauges_{}, silent_(), WithMinimumRefreshInterval(every))
	spec.Invariant(func() bool {
		m := spec.Inside(&c.publicKeys)
		return spec.ForallKey(func(k interface{}) bool {
			v, ok := m[k]
			_, text := k.(string)
			_, isKey := v.(*rsa.PublicKey)
			return !ok || text && isKey
		}, m)
	})
	for spec.Any[bool]("another key from before") {
		c.publicKeys.Store(spec.Any[string]("key id"), aKey_())
	}
	spec.Requires(time.Now().UnixNano() > int64(every))
	return c
}

func held_(c *UAAClient, kid string) (*rsa.PublicKey, bool) {
	k, ok := c.publicKeys.Load(kid)
	if !ok {
		return nil, false
	}
	return k.(*rsa.PublicKey), true
}

// ContractRefresh: after the keys were learned, exactly the published ones are
// known. The key x is looked at, which is published at position k, if at all.
func ContractRefresh(s *service_, x string, k int) {
	spec.Requires(s != nil)
	native_(s)
	if spec.Native() {
		s.down, s.status, s.broken = false, 200, false
		for i := range s.keys {
			s.keys[i].Value = pool_[spec.Rand.Intn(3)]
		}
	}
	s.asked = 0
	keys := s.keys
	spec.Requires(s.fine() && -1 <= k && k < len(keys))
	spec.Requires(spec.Forall(0, len(keys), func(i int) bool { return isKey_(keys[i].Value) && (i == k) == (keys[i].KeyId == x) }))
	c := client_(s, 30*time.Second)
	_, had := held_(c, x)
	spec.Invariant(func(rest map[string]struct{}, seen spec.Visited[interface{}]) bool {
		_, r := rest[x]
		return r == (had && seen.Has(x))
	})
	spec.Invariant(func(i int, rest map[string]struct{}) bool {
		_, r := rest[x]
		got, ok := held_(c, x)
		if 0 <= k && k <= i {
			return !r && ok && got == keyOf_(keys[k].Value)
		}
		return r == had && ok == had
	})
	spec.Invariant(func(seen spec.Visited[string]) bool {
		got, ok := held_(c, x)
		if k >= 0 {
			return ok && got == keyOf_(keys[k].Value)
		}
		return ok == (had && !seen.Has(x))
	})
	err := c.RefreshTokenKeys()
	spec.Ensures("published keys can be learned", err == nil && s.asked == 1)
	got, ok := held_(c, x)
	if k >= 0 {
		spec.Cover("published")
		spec.Ensures("a published key is known afterwards", ok && sameKey_(got, keyOf_(keys[k].Value)))
	} else {
		spec.Cover("not published")
		spec.Ensures("a key that is no longer published is forgotten", !ok)
	}
	spec.Ensures("the body is closed", s.body.Closed > 0)
}

func aKey_() *rsa.PublicKey {
	if spec.Native() {
		return &private_[spec.Rand.Intn(3)].PublicKey
	}
	k := spec.Any[*rsa.PublicKey]("key")
	spec.Requires(k != nil)
	return k
}

// ContractRefreshFails: when the service does not answer properly, or one of
// its keys (the first such at position b) cannot be used, that is an error and
// no key is forgotten.
func ContractRefreshFails(s *service_, x string, b int) {
	spec.Requires(s != nil)
	native_(s)
	s.asked = 0
	keys := s.keys
	spec.Requires(0 <= b && !s.fine() || 0 <= b && b < len(keys) && !isKey_(keys[b].Value))
	if s.fine() && !spec.Native() {
		spec.Requires(spec.Forall(0, b, func(i int) bool { return isKey_(keys[i].Value) }))
	}
	c := client_(s, 30*time.Second)
	_, had := held_(c, x)
	spec.Invariant(func(i int) bool {
		_, ok := held_(c, x)
		return (ok || !had) && (i < b || !s.fine())
	})
	err := c.RefreshTokenKeys()
	_, has := held_(c, x)
	spec.Cover("failed")
	spec.Ensures("keys that cannot be learned are an error", err != nil && s.asked == 1)
	spec.Ensures("no key is forgotten for that", has || !had)
	spec.Ensures("the body of a good answer is closed", s.down || s.status != 200 || s.body.Closed > 0)
}

// ContractRefreshThrottled: keys are asked for once in an interval at most, and
// again when it is over.
func ContractRefreshThrottled(every int) {
	spec.Requires(0 < every && every < 1<<50)
	if spec.Native() {
		every = every % 1000
	}
	s := &service_{down: true}
	c := client_(s, time.Duration(every))
	t0 := time.Now()
	c.RefreshTokenKeys()
	t1 := time.Now()
	spec.Ensures("keys are asked for", s.asked == 1)
	t2 := time.Now()
	c.RefreshTokenKeys()
	t3 := time.Now()
	if s.asked == 2 {
		spec.Cover("again")
		spec.Ensures("keys are not asked for too often", t3.Sub(t0) >= time.Duration(every))
	} else {
		spec.Cover("not again")
		spec.Ensures("keys are asked for again in time", s.asked == 1 && t2.Sub(t1) < time.Duration(every))
	}
}
