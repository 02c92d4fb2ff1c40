package gateway

import (
	"context"
	"errors"
	"net/http"
	"net/url"
	"strconv"

	"github.com/grpc-ecosystem/grpc-gateway/runtime"
	"google.golang.org/grpc/codes"
	"verif.local/spec"
	"verif.local/spec/ghost"
)

func ContractQueryError(ranged, isStatus bool, code codes.Code, msg, kind string, fail, broken bool) {
	if spec.Native() {
		code = code%16 + 1
	}
	spec.Requires(code >= 1 && code <= 16)
	e := &encoder_{kind: kind, fail: fail}
	w := newWriter_()
	if broken {
		w.Err = errors.New("gone")
	}
	if !isStatus {
		code = codes.Unknown
	}
	started_("", func() int64 { return 0 })
	runtime.HTTPError(ghost.Ctx{Mark: callerMark_}, nil, e, w, &http.Request{URL: &url.URL{Path: queryPath_(ranged)}}, failure_(isStatus, code, msg))
	spec.Ensures("the reply has the content type of the API", len(w.H["Content-Type"]) == 1 && w.H["Content-Type"][0] == kind)
	spec.Ensures("no trailer is announced", len(w.H["Trailer"]) == 0)
	spec.Ensures("other headers are left alone", len(w.H["X-Other"]) == 1)
	spec.Ensures("one status is sent, and one body", len(w.Status) == 1 && w.N == 1)
	if fail {
		spec.Ensures("an error that cannot be encoded is an internal one", w.Status[0] == 500)
		return
	}
	spec.Ensures("the status says what went wrong", w.Status[0] == runtime.HTTPStatusFromCode(code))
	if broken {
		return
	}
	d := spec.ParseJSON(w.Out)
	spec.Ensures("the reply is marked an error", d.Field("status").Str() == "error")
	spec.Ensures("the kind of error is named", d.Field("errorType").Str() == "internal")
	spec.Ensures("the reply carries the error's text", d.Field("error").Str() == msg)
}

func ContractOtherError(path string, isStatus bool, code codes.Code, msg, kind string) {
	spec.Requires(path != "/api/v1/query" && path != "/api/v1/query_range")
	if spec.Native() {
		code = code%16 + 1
	}
	spec.Requires(code >= 1 && code <= 16)
	w := newWriter_()
	e := &encoder_{kind: kind}
	err := failure_(isStatus, code, msg)
	req := &http.Request{URL: &url.URL{Path: path}}
	if !isStatus {
		code = codes.Unknown
	}
	handed := 0
	spec.Replace(runtime.DefaultHTTPError, func(c context.Context, _ *runtime.ServeMux, m runtime.Marshaler, rw http.ResponseWriter, r *http.Request, got error) {
		handed++
		spec.Ensures("the usual handler gets what there is to know", ghost.MarkOf(c) == callerMark_ && m == runtime.Marshaler(e) && rw == http.ResponseWriter(w) && r == req && got == err)
	})
	started_("", func() int64 { return 0 })
	runtime.HTTPError(ghost.Ctx{Mark: callerMark_}, nil, e, w, req, err)
	if spec.Native() {
		spec.Ensures("the status says what went wrong", len(w.Status) == 1 && w.Status[0] == runtime.HTTPStatusFromCode(code))
		return
	}
	spec.Ensures("errors of other calls are handled as usual, once", handed == 1 && w.N == 0 && len(w.Status) == 0)
}

// The info document tells the configured version and, each time, the present uptime.
func ContractInfo(version string, now, later int64) {
	if spec.Native() {
		version = []string{"1.4.7", "2.0.0-rc.1+build", "", "dev"}[len(version)%4]
	}
	spec.Requires(spec.Plain(version))
	up := now
	info := started_(version, func() int64 { return up })
	tells_(info, version, now)
	up = later
	tells_(info, version, later)
}

func tells_(info func(http.ResponseWriter, *http.Request), version string, up int64) {
	w := newWriter_()
	info(w, &http.Request{})
	spec.Ensures("the info endpoint answers with success", len(w.Status) == 0 || len(w.Status) == 1 && w.Status[0] == 200)
	spec.Ensures("the document ends in a newline", len(w.Out) > 0 && w.Out[len(w.Out)-1] == '\n')
	d := spec.ParseJSON(w.Out)
	spec.Ensures("the document tells the version", d.Field("version").Str() == version)
	spec.Ensures("the document tells the uptime of the moment", d.Field("vm_uptime").Str() == strconv.FormatInt(up, 10))
}
