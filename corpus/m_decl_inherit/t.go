package decl

//json:strict
type List []Item

type Item struct {
	A int    `json:"a"`
	B string `json:"b"`
}

//json:json
type Words []Word

type Word string

//json:json
type Uses struct {
	L List  `json:"l"`
	I Item  `json:"i"`
}
