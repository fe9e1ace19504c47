package decl

//json:encode
type Enc struct {
	A int      `json:"a"`
	L []string `json:"l"`
	N *Enc     `json:"n"`
}

//json:decode
type Dec struct {
	A int      `json:"a"`
	L []string `json:"l"`
	N *Dec     `json:"n"`
}

//json:strict,decode
type SDec struct {
	A int `json:"a"`
}

//json:encode,strict
type SEnc struct {
	A int `json:"a"`
}

//json:encode
type LEnc []int

//json:decode
type LDec []int

//json:encode
type MEnc map[string]int

//json:decode
type MDec map[string]int

//json:encode
type IEnc int

//json:decode
type IDec int

//json:encode
type BEnc []byte

//json:decode
type BDec []byte

//json:STRICT , Decode
type Up struct {
	A int `json:"a"`
}
