package r26

//json:strict
type HTTPReply struct {
	K2     map[string]uint64  `json:"n_1"`
	Items  map[string]*int32  `json:"f1"`
	Path   map[NStr]int8      `json:"$v"`
	Prev   []*int32           `json:"prev,required"`
	B      []NF32             `json:"b"`
	Data   map[string]*string `json:"名,omitempty"`
	QWERTY *float32           `json:"ITEMS"`
}

type NStr string

type NF32 float32
