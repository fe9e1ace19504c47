package deep

//json:json
type T1 struct {
	A map[string]*int `json:"a"`
	B map[string]*int `json:"b,omitempty"`
	C int `json:"c"`
}

//json:json
type Sub struct {
	X int `json:"x"`
}

type Key string
