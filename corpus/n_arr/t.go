package arr

import "time"

const Size = 5

type Str string

//json:json
type Sub struct {
	X int `json:"x"`
}

//json:json
type I1 [1]int

//json:json
type S1 [1]string

//json:json
type Q1 [1]bool

//json:json
type F1 [1]float32

//json:json
type N1 [1]Str

//json:json
type I2 [2]int

//json:json
type S2 [2]string

//json:json
type Q2 [2]bool

//json:json
type F2 [2]float32

//json:json
type N2 [2]Str

//json:json
type I4 [4]int

//json:json
type I7 [7]int

//json:json
type I9 [9]int

//json:json
type I10 [10]int

//json:json
type I16 [16]int

//json:json
type S16 [16]string

//json:json
type Q16 [16]bool

//json:json
type F16 [16]float32

//json:json
type N16 [16]Str

//json:json
type I17 [17]int

//json:json
type I32 [32]int

//json:json
type I64 [64]int

//json:json
type I65 [65]int

//json:json
type I100 [100]int

//json:json
type S100 [100]string

//json:json
type Q100 [100]bool

//json:json
type F100 [100]float32

//json:json
type N100 [100]Str

//json:json
type ISize [Size]int

//json:json
type SSize [Size]string

//json:json
type QSize [Size]bool

//json:json
type FSize [Size]float32

//json:json
type NSize [Size]Str

//json:json
type I0x10 [0x10]int

//json:json
type T1 struct {
	F1 [1]int `json:"f1"`
	F2 [2]string `json:"f2"`
	F4 [4]Str `json:"f4"`
	F5 [5]bool `json:"f5"`
	F16 [16]uint8 `json:"f16"`
	FSize [Size]float64 `json:"fSize"`
	F100 [100]int8 `json:"f100"`
	F0x10 [0x10]int `json:"f0x10"`
}

//json:json
type T2 struct {
	B1 [1]byte `json:"b1"`
	B16 [16]byte `json:"b16"`
	B32 [32]byte `json:"b32,omitempty"`
	B [Size]byte `json:"b"`
	T [3]time.Time `json:"t"`
}

//json:json
type B1 [1]byte

//json:json
type B32 [32]byte

//json:json
type BSize [Size]byte

//json:json
type TT [2]time.Time

//json:json
type SS [2]Sub

//json:json
type UU [Size]Sub
