package auth

import (
	"bytes"
	"io"
	"net/http"

	"code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	"github.com/golang/protobuf/jsonpb"
	"github.com/golang/protobuf/proto"
	"verif.local/spec"
	"verif.local/spec/ghost"
)

type inquiry_ struct {
	id        *identity_
	meta      map[string]*logcache_v1.MetaInfo
	available []string
	failed    bool
	mark      string
}

// ask asks for the meta information; shown is what the answer holds.
func (q *inquiry_) ask(w *ghost.Writer) (k *known_, shown map[string]*logcache_v1.MetaInfo, answered bool) {
	k = &known_{meta: q.meta}
	if q.failed {
		k.err = io.ErrUnexpectedEOF
	}
	routes := router_(nil)
	spec.Replace((*jsonpb.Marshaler).Marshal, func(_ *jsonpb.Marshaler, out io.Writer, m proto.Message) error {
		spec.Ensures("the answer is a meta document written to the user", out == w && !answered)
		shown, answered = m.(*logcache_v1.MetaResponse).Meta, true
		return nil
	})
	m := NewCFAuthMiddlewareProvider(q.id, &controller_{id: q.id, available: q.available}, k, nil, &names_{id: q.id}).Middleware(&next_{})
	r := request_("/api/v1/meta", q.id.shown).WithContext(ghost.Ctx{Mark: q.mark})
	serve_(m, routes, "/api/v1/meta", w, r)
	if spec.Native() && len(w.Status) == 0 {
		var doc logcache_v1.MetaResponse
		err := jsonpb.Unmarshal(bytes.NewReader(w.Out), &doc)
		spec.Ensures("the answer is a meta document written to the user", err == nil)
		shown, answered = doc.Meta, true
	}
	return
}

// ContractMeta: users see the sources they may read, administrators all of
// them, and all others nothing.
func ContractMeta(q *inquiry_, s string) {
	spec.Requires(q != nil && q.id != nil)
	if spec.Native() {
		for _, m := range q.meta {
			spec.Requires(m != nil)
		}
	}
	q.id.asked = 0
	token, admin := q.id.token, q.id.admin
	avail, meta := q.available, q.meta
	info, held := meta[s]
	spec.Invariant(func(shown map[string]*logcache_v1.MetaInfo, i int) bool {
		v, ok := shown[s]
		return ok == (held && spec.Exists(0, i+1, func(a int) bool { return avail[a] == s })) && (!ok || v == info)
	})
	w := &ghost.Writer{H: http.Header{}}
	k, shown, answered := q.ask(w)
	_ = token
	switch {
	case q.id.shown == "" || q.id.err:
		spec.Ensures("nobody unknown is told anything", !answered && len(w.Status) == 1 && w.Status[0] == 404 && len(w.Out) == 0)
	case q.failed:
		spec.Ensures("when Log Cache does not answer, the gateway is bad", !answered && len(w.Status) == 1 && w.Status[0] == 502 && len(w.Out) == 0)
	default:
		spec.Ensures("an answer is given", answered && len(w.Status) == 0 && k.n == 1)
		spec.Ensures("Log Cache is asked for the request", k.ctx == q.mark)
		v, ok := shown[s]
		spec.Ensures("what is shown is what Log Cache holds", !ok || held && sameInfo_(v, info))
		if admin {
			spec.Ensures("administrators are shown every source", ok == held)
		} else {
			spec.Cover("a user")
			may := spec.Exists(0, len(avail), func(a int) bool { return avail[a] == s })
			spec.Ensures("a user is shown no source the user may not read", !ok || may)
			spec.Ensures("a user is shown every source the user may read", ok || !may || !held)
		}
	}
}

func sameInfo_(a, b *logcache_v1.MetaInfo) bool {
	if spec.Native() {
		return proto.Equal(a, b)
	}
	return a == b
}
