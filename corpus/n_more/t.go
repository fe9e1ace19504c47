package more

import (
	"fill/n_more/latest"
)

//json:strict
type A [3]int

//json:strict
type B map[string]Sub

//json:strict
type C []Sub

//json:strict
type D []byte

//json:strict
type E [4]byte

//json:strict
type F map[string]*Sub

type Sub struct {
	X int `json:"x"`
}

//json:json,strict
type G []el1

type el1 struct {
	X int `json:"x"`
}

//json:strict,decode
type H []el2

type el2 struct {
	X int `json:"x"`
}

//json:json,encode
type I []el3

type el3 struct {
	X int `json:"x"`
}

//json:json
type J struct {
	A lower               `json:"a"`
	B []lower             `json:"b"`
	C *lower              `json:"c"`
	D map[string]lower    `json:"d,omitempty"`
	E words               `json:"e"`
	F latest.N            `json:"f"`
	G latest.T            `json:"g"`
	H []latest.N          `json:"h"`
	I *latest.N           `json:"i"`
	J map[string]latest.N `json:"j"`
}

//json:json
type M struct {
	latest.I `json:",inline"`
	Z        int `json:"z"`
}
