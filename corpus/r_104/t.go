package r104

//json:json
//json:strict
type T struct {
	Zz []NI8 `json:"zz,omitempty"`
}

type NI8 int8
