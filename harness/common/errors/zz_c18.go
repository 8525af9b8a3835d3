package errors

import (
	"fmt"

	stderrors "errors"

	zzv "github.com/icon-project/btp/common/zzv"
)

// zzChain18 wraps a base error in up to n arbitrary layers and returns every
// layer, innermost first, with the code the outermost must report.
func zzChain18(n int) (layers []error, code Code, coded bool, coder error) {
	var e error
	switch zzv.Choose("base", 0, 5) {
	case 0:
		e = New("plain")
	case 1:
		e = stderrors.New("std")
	case 2:
		c := Code(zzv.Int("c"))
		e = NewBase(c, "base")
		code, coded, coder = c, true, e
	case 3:
		c := Code(zzv.Int("c"))
		e = Errorc(c, "coded")
		code, coded, coder = c, true, e
	case 4:
		c := Code(zzv.Int("c"))
		e = c.New("by code")
		code, coded, coder = c, true, e
	case 5:
		c := Code(zzv.Int("c"))
		e = c.Errorf("by %s", "code")
		code, coded, coder = c, true, e
	}
	layers = append(layers, e)
	for i := zzv.Choose("depth", 0, n); i > 0; i-- {
		switch zzv.Choose("wrap", 0, 6) {
		case 0:
			e = Wrap(e, "msg")
		case 1:
			e = Wrapf(e, "msg %d", 1)
		case 2:
			e = WithStack(e)
		case 3:
			c := Code(zzv.Int("c"))
			e = Wrapc(e, c, "msg")
			code, coded, coder = c, true, e
		case 4:
			c := Code(zzv.Int("c"))
			e = c.Wrapf(e, "msg %d", 1)
			code, coded, coder = c, true, e
		case 5:
			c := Code(zzv.Int("c"))
			e = WithCode(e, c)
			code, coded, coder = c, true, e
		case 6:
			c := Code(zzv.Int("c"))
			e = c.Wrap(e, "msg")
			code, coded, coder = c, true, e
		}
		layers = append(layers, e)
	}
	return
}

func VH_C18_code_survives_wrapping() {
	n := 2
	if zzv.Thorough() {
		n = 4
	}
	layers, code, coded, coder := zzChain18(n)
	e := layers[len(layers)-1]
	co, ok := CoderOf(e)
	zzv.Assert(ok == coded, "an error has a code exactly if some layer of it has one")
	if coded {
		zzv.Assert(co.ErrorCode() == code, "the reported code is the one of the outermost coded layer")
		zzv.Assert(error(co) == coder, "the reported coder is the outermost coded layer")
		zzv.Assert(CodeOf(e) == code, "CodeOf reports the code of the outermost coded layer")
		zzv.Assert(code.Equals(e), "a code equals the error carrying it")
		other := Code(zzv.Int("other"))
		zzv.Assert(other.Equals(e) == (other == code), "a code equals only errors carrying it")
		zzv.Assert(NewBase(other, "x").Equals(e) == (other == code), "a base error equals only errors carrying its code")
		zzv.Reach("coded")
	} else {
		zzv.Assert(CodeOf(e) == UnknownError, "an error without a code is unknown")
		zzv.Reach("plain")
	}
	for _, l := range layers {
		zzv.Assert(Is(e, l), "an error is caused by each of the errors it wraps")
	}
	for _, l := range layers[:len(layers)-1] {
		zzv.Assert(!Is(l, e), "a wrapped error is not caused by its wrapper")
	}
	zzv.Assert(!Is(e, ErrInvalidNetwork), "an error is not caused by an unrelated one")
	zzv.Assert(!Is(e, nil), "an error is not caused by nil")
	zzv.Assert(len(e.Error()) > 0 && len(fmt.Sprintf("%v", e)) > 0, "an error has a message")
}

func VH_C18_nil() {
	_, ok := CoderOf(nil)
	zzv.Assert(!ok, "no error has no code")
	zzv.Assert(CodeOf(nil) == UnknownError, "no error is of unknown code")
	c := Code(zzv.Int("c"))
	zzv.Assert(!c.Equals(nil), "no code equals no error")
	zzv.Assert(!Is(nil, ErrNotFound), "no error is not caused by an error")
	e := Wrap(nil, "msg")
	_, ok = CoderOf(e)
	zzv.Assert(!ok, "wrapping no error adds no code")
	zzv.Assert(CodeOf(Wrapc(nil, c, "msg")) == c, "a code can be attached to no error")
	zzv.Reach("nil")
}
