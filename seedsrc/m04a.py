ID="m04-error-replace-trace"; PROP="M04"; PKG=""
EDITS=[("messageimpl.go","""	errmsg := rawErrorMessage(newId, self.Error)
	errmsg.SetTraceId(self.TraceId())
	return errmsg
}

/""","""	errmsg := rawErrorMessage(newId, self.Error)
	if self.Error.Data == nil {
		errmsg.SetTraceId(self.TraceId())
	}
	return errmsg
}

/""")]
NEEDS="replacing the id of an error message that carries data"
BREAKS="the trace id is lost when the id of an error with data is replaced"
TEST='''package jlib
import "testing"
func TestDemo(t *testing.T) {
	m := NewErrorMessage(NewRequestMessage(7, "a", nil), &RPCError{1, "x", "data"})
	m.SetTraceId("tr")
	if r := m.ReplaceId("n"); r.TraceId() != "tr" || r.MustId() != "n" { t.Fatalf("%#v", r) }
}
'''
