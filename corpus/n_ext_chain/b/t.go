package b

type Inner struct {
	I int    `json:"i"`
	J string `json:"j"`
	Last `json:",inline"`
}

type Last struct {
	K bool `json:"k"`
}
