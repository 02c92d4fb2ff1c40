package client

import (
	"encoding/json"
	"io/ioutil"
	"net/http"
	"net/url"

	"verif.local/spec"
	"verif.local/spec/ghost"
)

type tokenDoc_ struct {
	TokenType   string `json:"token_type"`
	AccessToken string `json:"access_token"`
}

// uaa is what an observer of the wire knows.
type uaa_ struct {
	held   string // the token last issued ("" once it has been refused)
	either bool   // whether the client still has it is its own business
	asked  int    // token requests in the current call
	sent   int    // other requests in the current call
	denied bool   // the token request of the current call failed
}

type creds_ struct {
	Client, Secret, User, Password string
}

func (k *creds_) assume() {
	if spec.Native() {
		k.Client, k.Secret = "client-"+k.Client, "s3cret&="+k.Secret
	}
}

// form: the key has the one value.
func form_(v url.Values, key, val string) bool { return only_(v, key, val) }

func (k *creds_) checkTokenRequest(r *http.Request, u *url.URL) {
	spec.Ensures("tokens are asked for with POST", r.Method == "POST")
	spec.Ensures("tokens are asked for at the token endpoint of the configured server", r.URL.Scheme == u.Scheme && r.URL.Host == u.Host && r.URL.Path == "/oauth/token")
	spec.Ensures("token requests are forms", r.Header.Get("Content-Type") == "application/x-www-form-urlencoded")
	b, err := ioutil.ReadAll(r.Body)
	spec.Requires(err == nil)
	v, err := url.ParseQuery(string(b))
	spec.Ensures("token requests carry a well-formed form", err == nil)
	spec.Ensures("a token is asked for the configured client", form_(v, "client_id", k.Client))
	if k.User == "" {
		spec.Ensures("without a user the client itself is authenticated", form_(v, "grant_type", "client_credentials") && only_(v, "username") && only_(v, "password"))
		pw, has := r.URL.User.Password()
		spec.Ensures("the client authenticates with its secret", r.URL.User.Username() == k.Client && has && pw == k.Secret)
		return
	}
	spec.Ensures("with a user the user is authenticated", form_(v, "grant_type", "password") && form_(v, "username", k.User) && form_(v, "password", k.Password))
	spec.Ensures("the client authenticates with its secret", form_(v, "client_secret", k.Secret))
}

func anyStatus_() int {
	s := spec.Any[int]("status")
	if spec.Native() {
		s = []int{200, 200, 204, 299, 300, 401, 403, 404, 500, 199}[spec.Rand.Intn(10)]
	}
	return s
}

func oauth2_(addr string, k *creds_) {
	k.assume()
	addr = serverAddr_(addr)
	u, err := url.Parse(addr)
	spec.Requires(err == nil)
	g := &uaa_{}
	var body *ghost.Body
	var fail error
	var resp *http.Response
	own := "" // the caller's own authorization
	transport := ghost.HTTP{F: func(r *http.Request) (*http.Response, error) {
		if r.URL.Path == "/oauth/token" {
			spec.Ensures("requests that carry an authorization need no token", own == "")
			spec.Ensures("a token is asked for only if none is held", g.held == "" || g.either)
			spec.Ensures("one token request per call", g.asked == 0 && g.sent == 0)
			g.asked++
			k.checkTokenRequest(r, u)
			if spec.Any[bool]("the token request fails") {
				g.denied = true
				return nil, errDown_
			}
			d := tokenDoc_{spec.Any[string]("token type"), spec.Any[string]("access token")}
			if spec.Native() {
				d.TokenType, d.AccessToken = "bearer", []string{"a", "b", "c"}[spec.Rand.Intn(3)]
			}
			data, _ := json.Marshal(d)
			status := anyStatus_()
			if spec.Any[bool]("the token response is no JSON") {
				data = spec.Any[[]byte]("junk")
				spec.Requires(spec.Garbage(data))
				g.denied = true
			}
			if status != 200 {
				g.denied = true
			}
			if !g.denied {
				g.held, g.either = d.TokenType+" "+d.AccessToken, false
			}
			body = &ghost.Body{Data: data}
			return &http.Response{StatusCode: status, Header: http.Header{}, Body: body}, nil
		}
		spec.Ensures("the request is made once", g.sent == 0)
		spec.Ensures("without a token no request is made", !g.denied)
		g.sent++
		auth := r.Header["Authorization"]
		if own != "" {
			spec.Ensures("an authorization already there is kept", len(auth) == 1 && auth[0] == own)
		} else {
			spec.Ensures("requests carry the token last issued", g.held != "" && len(auth) == 1 && auth[0] == g.held)
		}
		if spec.Any[bool]("the request fails") {
			fail = errDown_
			g.either = true
			return nil, fail
		}
		resp = &http.Response{StatusCode: anyStatus_(), Header: http.Header{}, Body: &ghost.Body{}}
		if own == "" && (resp.StatusCode < 200 || resp.StatusCode > 299) {
			g.held = ""
		}
		return resp, nil
	}}
	opts := []Oauth2Option{WithOauth2HTTPClient(transport)}
	if k.User != "" {
		opts = []Oauth2Option{WithOauth2HTTPClient(transport), WithOauth2HTTPUser(k.User, k.Password)}
	}
	c := NewOauth2HTTPClient(addr, k.Client, k.Secret, opts...)
	spec.Invariant(func(held, tok string, either bool) bool {
		return held == tok || either && held != "" && tok == ""
	})
	for spec.Any[bool]("another request") {
		req, err := http.NewRequest("GET", "http://log-cache/api/v1/meta", nil)
		spec.Requires(err == nil && req.URL.Path == "/api/v1/meta")
		own = ""
		if spec.Any[bool]("the caller has its own authorization") {
			own = spec.Any[string]("own authorization")
			spec.Requires(own != "")
			req.Header.Set("Authorization", own)
		}
		g.asked, g.sent, g.denied = 0, 0, false
		fail, resp, body = nil, nil, nil
		got, err := c.Do(req)
		spec.Ensures("the request is made unless no token could be had", g.sent == 1 || g.denied)
		spec.Ensures("a token request that fails is an error", !g.denied || err != nil && got == nil)
		spec.Ensures("a request that fails is an error", fail == nil || err != nil && got == nil)
		spec.Ensures("the response is returned as it is", resp == nil || err == nil && got == resp)
		spec.Ensures("the token response body is closed", body == nil || body.Closed > 0)
	}
}

func ContractClientToken(addr string, k creds_) {
	k.User = ""
	oauth2_(addr, &k)
}

func ContractUserToken(addr string, k creds_) {
	spec.Requires(k.User != "")
	oauth2_(addr, &k)
}
