package deep

//json:json
type T1 struct {
	A [][]Sub `json:"a"`
	B [][]Sub `json:"b,omitempty"`
	C int `json:"c"`
}

//json:json
type Sub struct {
	X int `json:"x"`
}

type Key string
