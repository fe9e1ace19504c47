package pk

import "time"

const Size = 3
const Wide = Size + 1

//json:json
type A [Size]int

//json:json
type T [Size]string

//json:json
type W [Wide]int32

//json:json
type X [4]bool

type I struct {
	A [Size]int         `json:"ia"`
	B [Size]byte        `json:"ib"`
	C [Size]time.Time   `json:"ic"`
	D [Size + 1]float64 `json:"id"`
	E A                 `json:"ie"`
}
