package r67

//json:json
type A struct {
	Y_z  map[NStr]TI32 `json:"f0,omitempty"`
	Next map[NStr]int8 `json:"key,omitempty"`
	Out  []*int64      `json:"f2,required"`
}

type NStr string

//json:json
type TI32 int32
