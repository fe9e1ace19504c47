package f_s_byte

//json:json
type T1 struct {
	A0 int    `json:"a0,omitempty"`
	F  []byte `json:"f"`
	Z  string `json:"z"`
}

//json:json
type T2 struct {
	F []byte `json:"f,omitempty"`
	G []byte `json:"g"`
	H []byte `json:"h,omitempty"`
}

//json:strict
type T3 struct {
	F []byte `json:"f,required"`
	B bool   `json:"b"`
}
