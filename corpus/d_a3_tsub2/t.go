package d_a3_tsub2

//json:json
type D [3]TSub2

//json:strict
type Sub struct {
	X int    `json:"x"`
	Y string `json:"y,omitempty"`
}

//json:json
type TSub2 Sub
