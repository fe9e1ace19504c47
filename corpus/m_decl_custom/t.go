package decl

import (
	"errors"

	"github.com/mailru/easyjson/jwriter"
	"github.com/valyala/fastjson"
)

//json:custom
type Custom struct {
	X int `json:"x"`
}

func (c *Custom) FillFromJSON(v *fastjson.Value) error {
	if v.Type() != fastjson.TypeNumber {
		return errors.New("number expected")
	}
	var err error
	c.X, err = v.Int()
	return err
}

func (c *Custom) MarshalTo(w *jwriter.Writer) error {
	if c == nil {
		w.RawString("null")
		return nil
	}
	w.Int(c.X)
	return nil
}

func (c Custom) IsZero() bool { return c.X == 0 }

func (c *Custom) Reset() { c.X = 0 }

//json:json
type Uses struct {
	C Custom            `json:"c"`
	P *Custom           `json:"p"`
	O Custom            `json:"o,omitempty"`
	L []Custom          `json:"l"`
	Q []*Custom         `json:"q"`
	M map[string]Custom `json:"m"`
}
