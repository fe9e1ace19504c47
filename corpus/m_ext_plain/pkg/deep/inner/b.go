package inner

//json:json
type Flags []bool

//json:json
type Obj struct {
	N Name `json:"n"`
	F Flags `json:"f"`
}
