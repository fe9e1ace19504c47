package transit

//json:json
type Base struct {
	A int    `json:"a"`
	B string `json:"b,omitempty"`
}

//json:json
type Wrap Base

//json:json
type Num int16

//json:json
type Num2 Num

//json:json
type Text string

//json:json
type Uses struct {
	W  Wrap   `json:"w"`
	PW *Wrap  `json:"pw"`
	N  Num    `json:"n"`
	N2 *Num2  `json:"n2"`
	T  Text   `json:"t,omitempty"`
	LT []Text `json:"lt"`
	LN []Num2 `json:"ln"`
}
