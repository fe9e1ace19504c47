package d_s_sub

//json:json
type D []Sub

//json:strict
type Sub struct {
	X int    `json:"x"`
	Y string `json:"y,omitempty"`
}
