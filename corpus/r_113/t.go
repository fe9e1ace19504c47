package r113

//json:json
//json:strict
type lower struct {
	Obj map[string]*int32 `json:"name,omitempty"`
}
