package exta

import "fill/n_ext_arrays/pk"

const N = 2

//json:json
type D struct {
	A pk.A                `json:"a"`
	B pk.A                `json:"b,omitempty"`
	C pk.A                `json:"c,required"`
	E *pk.A               `json:"e"`
	F pk.T                `json:"f"`
	H pk.W                `json:"h"`
	X pk.X                `json:"x"`
	J [pk.Size]int        `json:"j"`
	K [pk.Size + N]string `json:"k"`
}

//json:json
type In struct {
	pk.I `json:",inline"`
	J    [pk.Size]int `json:"j"`
	K    [N]uint8     `json:"k"`
}
