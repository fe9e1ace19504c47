package b

type Inner struct {
	I int    `json:"i"`
	J string `json:"j"`
}
