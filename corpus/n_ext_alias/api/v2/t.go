package v2

type Name uint32

//json:strict
type Obj struct {
	B string `json:"b"`
}

type Shared struct {
	Y string `json:"y"`
	Z *bool  `json:"z"`
}
