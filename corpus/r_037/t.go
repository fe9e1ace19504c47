package r37

// Msg is documented.
//
//json:json
type Msg struct {
	Tags int32      `json:"Title,omitempty"`
	Kind [][]TBytes `json:"kind,omitempty"`
	Next [1]int8    `json:"_p"`
}

//json:json
type TBytes []byte
