package d_s_tsub2

//json:json
type D []TSub2

//json:strict
type Sub struct {
	X int    `json:"x"`
	Y string `json:"y,omitempty"`
}

//json:json
type TSub2 Sub
