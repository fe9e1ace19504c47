package r49

//json:json
type HTTPReply struct {
	Port [3]NI32          `json:"map,omitempty"`
	Meta *uint16          `json:"f1,required"`
	Obj  map[string]*NStr `json:"user:id,required"`
}

type NStr string

type NI32 int32
