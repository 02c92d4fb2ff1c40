package client

import (
	"net/http"
	"net/url"
	"time"

	"github.com/blang/semver"
	"verif.local/spec"
	"verif.local/spec/ghost"
)

// moved: v is 2.0.0 or later (a 2.0.0 pre-release counts as before it).
func moved_(v semver.Version) bool {
	if v.Major != 2 {
		return v.Major > 2
	}
	return v.Minor > 0 || v.Patch > 0 || len(v.Pre) == 0
}

// server answers info requests with a status and a body and keeps count.
type server_ struct {
	u           *url.URL
	status      int
	info        *ghost.Body
	fail        bool
	infos, rest int
	path        string
}

func (s *server_) client(addr string) *Client {
	return NewClient(addr, WithHTTPClient(ghost.HTTP{F: func(r *http.Request) (*http.Response, error) {
		sameTarget_(r, s.u)
		if s.infos == 0 {
			s.infos++
			spec.Ensures("the version is asked for at the info endpoint", r.URL.Path == "/api/v1/info")
			if s.fail {
				return nil, errDown_
			}
			return &http.Response{StatusCode: s.status, Header: http.Header{}, Body: s.info}, nil
		}
		s.rest++
		s.path = r.URL.Path
		return nil, errDown_
	}}))
}

func newServer_(addr string, status int, body []byte) *server_ {
	u, err := url.Parse(addr)
	spec.Requires(err == nil)
	if spec.Native() {
		status = []int{200, 200, 404, 500, 401, 0, 204, 301}[spec.Rand.Intn(8)]
	}
	return &server_{u: u, status: status, info: &ghost.Body{Data: body}, fail: spec.Any[bool]("the info request fails")}
}

func ContractVersion(addr, version string, status int) {
	addr = serverAddr_(addr)
	if spec.Native() && spec.Any[bool]("valid") {
		version = validVersion_(version)
	}
	s := newServer_(addr, status, infoBody_(version))
	c := s.client(addr)
	v, err := c.LogCacheVersion(ghost.Ctx{Mark: callerMark_})
	want, bad := semver.Parse(version)
	switch {
	case s.fail:
		spec.Ensures("an unreachable server is an error", err != nil)
		return
	case s.status == 404:
		spec.Ensures("a server without info is the last version without it", err == nil && v.Major == 1 && v.Minor == 4 && v.Patch == 7 && len(v.Pre) == 0)
	case s.status != 200:
		spec.Ensures("an unexpected status is an error", err != nil)
	case bad != nil:
		spec.Ensures("an unparsable version is an error", err != nil)
	default:
		spec.Ensures("the version is the one reported", err == nil && v.Major == want.Major && v.Minor == want.Minor && v.Patch == want.Patch && len(v.Pre) == len(want.Pre))
	}
	spec.Ensures("the response body is closed", s.info.Closed > 0)
}

func basePath_(addr, version string, status int, suffix string, call func(c *Client) error) {
	addr = serverAddr_(addr)
	if spec.Native() && spec.Any[bool]("valid") {
		version = validVersion_(version)
	}
	s := newServer_(addr, status, infoBody_(version))
	err := call(s.client(addr))
	spec.Ensures("a failed request is reported", err != nil)
	spec.Ensures("the info response body is closed", s.fail || s.info.Closed > 0)
	v, bad := semver.Parse(version)
	switch {
	case s.fail || s.status != 200 && s.status != 404 || s.status == 200 && bad != nil:
		spec.Ensures("without a known version no request is made", s.rest == 0)
	case s.status == 200 && moved_(v):
		spec.Ensures("servers from 2.0.0 on are asked under /api/v1", s.rest == 1 && s.path == "/api/v1"+suffix)
	default:
		spec.Ensures("servers before 2.0.0 are asked under /v1", s.rest == 1 && s.path == "/v1"+suffix)
	}
}

func ContractReadBase(addr, version, id string, status int) {
	basePath_(addr, version, status, "/read/"+id, func(c *Client) error {
		_, err := c.Read(ghost.Ctx{Mark: callerMark_}, id, time.Unix(0, 0))
		return err
	})
}

func ContractMetaBase(addr, version string, status int) {
	basePath_(addr, version, status, "/meta", func(c *Client) error {
		_, err := c.Meta(ghost.Ctx{Mark: callerMark_})
		return err
	})
}

// A second call goes where the server's version says, too.
func ContractRepeatedBase(addr, version, id string) {
	addr = serverAddr_(addr)
	version = validVersion_(version)
	u, err := url.Parse(addr)
	spec.Requires(err == nil && id != "")
	v, _ := semver.Parse(version)
	base := spec.Ite(moved_(v), "/api/v1", "/v1")
	want, asked := "", 0
	c := NewClient(addr, WithHTTPClient(ghost.HTTP{F: func(r *http.Request) (*http.Response, error) {
		sameTarget_(r, u)
		if r.URL.Path == "/api/v1/info" && r.URL.Path != want {
			return respond_(200, infoBody_(version)), nil
		}
		asked++
		spec.Ensures("every request goes to the base path of the server's version", r.URL.Path == want)
		return nil, errDown_
	}}))
	want = base + "/meta"
	c.Meta(ghost.Ctx{Mark: callerMark_})
	want = base + "/read/" + id
	c.Read(ghost.Ctx{Mark: callerMark_}, id, time.Unix(0, 0))
	want = base + "/meta"
	c.Meta(ghost.Ctx{Mark: callerMark_})
	spec.Ensures("every call makes its request", asked == 3)
}

// A server whose info document is not JSON, or whose response breaks off, is an error.
func ContractBrokenInfo(addr string, body []byte) {
	addr = serverAddr_(addr)
	s := newServer_(addr, 200, body)
	s.status, s.fail = 200, false
	s.info.Err = errDown_
	spec.Requires(spec.Garbage(body))
	if spec.Any[bool]("meta") {
		_, err := s.client(addr).Meta(ghost.Ctx{Mark: callerMark_})
		spec.Ensures("a broken info document is an error", err != nil && s.rest == 0)
		return
	}
	_, err := s.client(addr).LogCacheVersion(ghost.Ctx{Mark: callerMark_})
	spec.Ensures("a broken info document is an error", err != nil)
}
