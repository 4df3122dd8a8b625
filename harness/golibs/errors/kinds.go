package errors

import (
	"errors"
	"fmt"

	"github.com/solarisdb/solaris/golibs/verifsym"
	spb "google.golang.org/genproto/googleapis/rpc/status"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
)

//sym:replace google.golang.org/protobuf/proto.Clone
func symClone(m proto.Message) proto.Message {
	s := m.(*spb.Status)
	return &spb.Status{Code: s.Code, Message: s.Message}
}

//sym:replace encoding/json.Marshal
func symMarshal(v any) ([]byte, error) { return []byte("\"" + v.(string) + "\""), nil }

//sym:replace encoding/json.Unmarshal
func symUnmarshal(b []byte, v any) error {
	if len(b) < 2 || b[0] != '"' || b[len(b)-1] != '"' {
		return errors.New("json: bad input")
	}
	*(v.(*string)) = string(b[1 : len(b)-1])
	return nil
}

type kind struct {
	err  error
	code codes.Code
}

// the kinds of errors which have a status of their own, and the status
var kinds = []kind{
	{ErrExist, codes.AlreadyExists}, {ErrNotExist, codes.NotFound}, {ErrInvalid, codes.InvalidArgument},
	{ErrNotAuthorized, codes.PermissionDenied}, {ErrInternal, codes.Internal}, {ErrDataLoss, codes.DataLoss},
	{ErrExhausted, codes.ResourceExhausted}, {ErrUnimplemented, codes.Unimplemented},
	{ErrConflict, codes.FailedPrecondition}, {ErrCanceled, codes.Canceled},
}

type myErr struct {
	msg string
	in  error
}

func (e *myErr) Error() string { return e.msg }
func (e *myErr) Unwrap() error { return e.in }

func wrap(err error, n string) error {
	switch verifsym.Choose("wrap"+n, 4) {
	case 1:
		return fmt.Errorf("%s: %w", text("msg"+n), err)
	case 2:
		return &myErr{text("msg" + n), err}
	case 3:
		return fmt.Errorf("a %w and b", fmt.Errorf("%w", err))
	}
	return err
}

func text(n string) string {
	s := verifsym.String(n, 2)
	for i := range []byte(s) {
		verifsym.Assume(s[i] >= 'a' && s[i] <= 'z')
	}
	return s
}

// sent is the error the client sees for the one the server answers
func sent(err error) error {
	st, ok := status.FromError(GRPCWrap(err))
	verifsym.Assert(ok, "errors: the answer is an API status")
	return status.New(st.Code(), st.Message()).Err()
}

// isOnly tells that err is of the kind i and of no other one
func isOnly(err error, i int, msg string) {
	for j, k := range kinds {
		verifsym.Assert(Is(err, k.err) == (i == j), msg)
	}
}

// every kind of error with a status, wrapped up to 2 times in several ways with symbolic messages, sent to the client and its error, wrapped too, sent on to the next client
//
//sym:harness prop=C28 budget=60s reach=end,embedded
func HKinds() {
	i := verifsym.Choose("kind", len(kinds))
	k := kinds[i]
	err := wrap(wrap(k.err, "1"), "2")
	isOnly(err, i, "errors: a wrapped error keeps its kind")
	obj := verifsym.Choose("object", 2) == 1
	what := ""
	if obj {
		what = text("what")
		err = EmbedObject(what, err)
		isOnly(err, i, "errors: an error with an object keeps its kind")
		err = wrap(err, "3")
	}
	verifsym.Assert(GRPCStatusCode(err) == k.code, "errors: an error has the status of its kind")
	for hop := 0; hop < 2; hop++ {
		msg := err.Error()
		if _, ok := err.(*myErr); ok && obj {
			obj = false // the message does not carry the object
		}
		err = sent(err)
		verifsym.Assert(err != nil && status.Code(err) == k.code, "errors: an error is sent with the status of its kind")
		verifsym.Assert(hop > 0 || FromGRPCErrorMsg(err) == msg, "errors: the message is sent")
		verifsym.Assert(FromGRPCError(err) == k.err, "errors: the client gets the kind of error")
		isOnly(err, i, "errors: the client gets the kind of error")
		if obj {
			var got string
			verifsym.Assert(ExtractObject(err, &got) && got == what, "errors: the client gets the object")
			verifsym.Reach("embedded")
		}
		err = wrap(err, "hop")
		isOnly(err, i, "errors: a wrapped answer keeps its kind")
		verifsym.Assert(GRPCStatusCode(err) == k.code, "errors: an error has the status of its kind")
	}
	verifsym.Reach("end")
}

// any status code, known or not, any unknown error and nil
//
//sym:harness prop=C28 budget=30s reach=nil,known,other,plain
func HCodes() {
	verifsym.Assert(GRPCStatusCode(nil) == codes.OK && GRPCWrap(nil) == nil && FromGRPCError(nil) == nil && FromGRPCErrorMsg(nil) == "", "errors: nil stays nil")
	for _, k := range kinds {
		verifsym.Assert(!Is(nil, k.err), "errors: nil has no kind")
	}
	c := codes.Code(verifsym.Uint32("code"))
	err := status.New(c, text("m")).Err()
	if c == codes.OK {
		verifsym.Assert(err == nil && FromGRPCError(err) == nil, "errors: nil stays nil")
		verifsym.Reach("nil")
	} else {
		e := FromGRPCError(err)
		verifsym.Assert(e != nil, "errors: a status is an error")
		verifsym.Assert(GRPCStatusCode(err) == c || c == codes.Unknown, "errors: a status keeps its code")
		verifsym.Assert(c == codes.Unknown || GRPCWrap(err) == err, "errors: a status is sent as it is")
		known := false
		for _, k := range kinds {
			if c == k.code {
				known = true
				verifsym.Assert(e == k.err, "errors: a status is an error of its kind")
				verifsym.Reach("known")
			}
		}
		if !known {
			want := ErrInternal
			switch c {
			case codes.Unknown, codes.DeadlineExceeded:
				want = ErrCommunication
			case codes.Unauthenticated:
				want = ErrNotAuthorized
			}
			verifsym.Assert(e == want, "errors: other codes have their kinds")
			verifsym.Reach("other")
		}
	}
	plain := wrap(errors.New(text("p")), "p")
	for _, k := range kinds {
		verifsym.Assert(!Is(plain, k.err), "errors: an unknown error has no kind")
	}
	back := sent(plain)
	verifsym.Assert(back != nil && FromGRPCError(back) != nil && Is(back, ErrInternal), "errors: an unknown error stays an error")
	var got string
	verifsym.Assert(!ExtractObject(back, &got) && !ExtractObject(plain, &got), "errors: no object where there is none")
	verifsym.Reach("plain")
}
