package latest

//json:json
type T struct {
	X int `json:"x"`
}

type N int

type I struct {
	A N   `json:"ia"`
	B []N `json:"ib"`
	C T   `json:"ic"`
}
