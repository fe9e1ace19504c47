package r43

//json:json
type HTTPReply struct {
	Out [8]int8         `json:"out"`
	X1  map[string]NF64 `json:"0,omitempty"`
}

type NF64 float64
