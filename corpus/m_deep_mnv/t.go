package deep

//json:json
type T1 struct {
	A map[Key]Key `json:"a"`
	B map[Key]Key `json:"b,omitempty"`
	C int `json:"c"`
}

//json:json
type Sub struct {
	X int `json:"x"`
}

type Key string
