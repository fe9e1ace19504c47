package deep

type Str string

type Num int16

//json:json
type Obj struct {
	A2 int `json:"a2"`
}

type Base2 struct {
	ID2   int    `json:"id2"`
	Name2 string `json:"name2,omitempty"`
}
