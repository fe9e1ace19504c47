package names

//json:json
type T1 struct {
	Err    int       `json:"err"`
	S      string    `json:"s"`
	V      int       `json:"v"`
	O      string    `json:"o"`
	W      bool      `json:"w"`
	B      []string  `json:"b"`
	L      []int     `json:"l"`
	ListA  []string  `json:"listA"`
	Key    *int      `json:"key"`
	Value  string    `json:"value"`
	Result string    `json:"result"`
	Parser *string   `json:"parser"`
}

//json:json
type T2 struct {
	Key1  []int             `json:"key1"`
	Val1  []string          `json:"val1"`
	Elem1 map[string]int    `json:"elem1"`
	K     map[string]string `json:"k"`
	Ref   *int32            `json:"ref"`
	NewElem []*int          `json:"newElem"`
	Tmp1  [2]int            `json:"tmp1"`
	WantComma bool          `json:"wantComma"`
}

//json:strict
type T3 struct {
	lower  string `json:"lower"`
	Upper  string `json:"UPPER"`
	X_y    int    `json:"x_y"`
	Ünïc   int    `json:"ünïc"`
	Time   int    `json:"time"`
	Fmt    string `json:"fmt"`
	Bytes  string `json:"bytes"`
	Strconv []int `json:"strconv"`
	Math   int8   `json:"math"`
}
