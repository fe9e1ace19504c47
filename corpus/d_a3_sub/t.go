package d_a3_sub

//json:json
type D [3]Sub

//json:strict
type Sub struct {
	X int    `json:"x"`
	Y string `json:"y,omitempty"`
}
